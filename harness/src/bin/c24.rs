//! C24 Timing tables classify durations, for any protocol's table.
use fugit::{Duration, Instant};
use infrared::receiver::time::{InfraMonotonic, PulseSpans};
use irmc::*;

trait Mo: InfraMonotonic {
    const NAME: &'static str;
    const MAX: u64;
    /// The real tick rate, where the type knows it.
    const HZ: Option<u32>;
    fn d(x: u64) -> Self::Duration;
}
impl Mo for u32 {
    const NAME: &'static str = "u32";
    const MAX: u64 = u32::MAX as u64;
    const HZ: Option<u32> = None;
    fn d(x: u64) -> u32 {
        x as u32
    }
}
impl Mo for u64 {
    const NAME: &'static str = "u64";
    const MAX: u64 = u64::MAX;
    const HZ: Option<u32> = None;
    fn d(x: u64) -> u64 {
        x
    }
}
impl<const A: u32, const B: u32> Mo for Instant<u32, A, B> {
    const NAME: &'static str = "typed 32-bit";
    const MAX: u64 = u32::MAX as u64;
    const HZ: Option<u32> = Some(B / A);
    fn d(x: u64) -> Duration<u32, A, B> {
        Duration::<u32, A, B>::from_ticks(x as u32)
    }
}
impl<const A: u32, const B: u32> Mo for Instant<u64, A, B> {
    const NAME: &'static str = "typed 64-bit";
    const MAX: u64 = u64::MAX;
    const HZ: Option<u32> = Some(B / A);
    fn d(x: u64) -> Duration<u64, A, B> {
        Duration::<u64, A, B>::from_ticks(x)
    }
}

type Table = ([u32; 8], [u32; 8]);

/// May / must the entry match this many ticks?
struct Win {
    must: Option<(u64, u64)>,
    may: (u64, u64),
}

fn table<M: Mo>(f: u32, t: &Table) {
    let f = M::HZ.unwrap_or(f);
    let sp = PulseSpans::<M>::new(f, &t.0, &t.1);
    let w: Vec<Win> = (0..8)
        .map(|i| {
            if t.0[i] == 0 {
                Win { must: None, may: (1, 0) }
            } else {
                let (must, may) = ranges(t.0[i], t.1[i], t.1[i], f);
                Win { must, may }
            }
        })
        .collect();
    if !overlap::<M>(f, t, &w) {
        return;
    }
    // durations worth asking about
    let mut ds: Vec<u64> = vec![0, 1, 2, 3, M::MAX, M::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 24, M::MAX / 2];
    for (i, x) in w.iter().enumerate() {
        if t.0[i] == 0 {
            continue;
        }
        let nom = (t.0[i] as u64 * f as u64) / 1_000_000;
        for b in [x.may.0, x.may.1, nom, x.must.map_or(nom, |m| m.0), x.must.map_or(nom, |m| m.1)] {
            ds.extend([b.saturating_sub(2), b.saturating_sub(1), b, b + 1, b + 2]);
            if M::MAX > u32::MAX as u64 {
                ds.extend([b + (1 << 32), b + (1 << 33), b + (1 << 63)]);
            }
        }
    }
    ds.retain(|d| *d <= M::MAX);
    ds.sort_unstable();
    ds.dedup();
    let judge = |d: u64, got: Option<usize>, how: String| -> bool {
        let n = w.iter().filter(|x| x.may.0 <= d && d <= x.may.1).count();
        let ok = match got {
            // an entry that may match, and none before it surely does
            Some(i) => i < 8 && w[i].may.0 <= d && d <= w[i].may.1 && !w[..i].iter().any(|x| x.must.is_some_and(|m| m.0 <= d && d <= m.1)),
            None => !w.iter().any(|x| x.must.is_some_and(|m| m.0 <= d && d <= m.1)),
        };
        count(1, 1, 1);
        if !ok {
            ck().violate(
                format!("{} clock @ {f} Hz, pulses {:?} us, tolerances {:?} %: {how} of {d} ticks gives entry {got:?} ({n} entries can match)", M::NAME, t.0, t.1),
                format!("kind spans\nclock {}\nfreq {f}\npulses {:?}\ntol {:?}\nticks {d}\n", M::NAME, t.0, t.1),
            );
        }
        ok
    };
    for d in &ds {
        let got = sp.get::<usize>(M::d(*d));
        if got.is_some() {
            tally(0);
        }
        if !judge(*d, got, "a duration".into()) {
            return;
        }
        // the same duration in two parts
        let mut parts = vec![(0, *d), (*d, 0), (d / 2, d - d / 2), (1.min(*d), d - 1.min(*d)), (d / 3, d - d / 3)];
        // sums that do not fit the type, and would look like this one
        let over = (*d as u128 + M::MAX as u128 + 1) / 2;
        parts.push((over as u64, (*d as u128 + M::MAX as u128 + 1 - over).min(M::MAX as u128) as u64));
        parts.push((M::MAX, d.saturating_add(1).min(M::MAX)));
        parts.push((d.saturating_add(1).min(M::MAX), M::MAX));
        for (a, b) in parts {
            let s = sp.get_sum::<usize>(M::d(a), M::d(b));
            let sum = a as u128 + b as u128;
            if sum == *d as u128 {
                if s != got {
                    ck().violate(
                        format!("{} clock @ {f} Hz, pulses {:?} us, tolerances {:?} %: {a} + {b} ticks gives entry {s:?}, {d} ticks gives {got:?}", M::NAME, t.0, t.1),
                        format!("kind spans\nclock {}\nfreq {f}\npulses {:?}\ntol {:?}\nticks {a}+{b}\n", M::NAME, t.0, t.1),
                    );
                    return;
                }
            } else if sum > M::MAX as u128 {
                if s.is_some() {
                    ck().violate(
                        format!("{} clock @ {f} Hz, pulses {:?} us, tolerances {:?} %: {a} + {b} ticks, too long for any pulse, gives entry {s:?}", M::NAME, t.0, t.1),
                        format!("kind spans\nclock {}\nfreq {f}\npulses {:?}\ntol {:?}\nticks {a}+{b}\n", M::NAME, t.0, t.1),
                    );
                    return;
                }
            } else if !judge(sum as u64, s, format!("the sum {a} + {b}")) {
                return;
            }
            count(1, 1, 0);
        }
    }
    sample(|| format!("{} @ {f} Hz pulses {:?} tolerances {:?}: {} durations", M::NAME, t.0, t.1, ds.len()));
}

/// The overlap check: is there a duration that two entries, each in a table of its own, match?
fn overlap<M: Mo>(f: u32, t: &Table, w: &[Win]) -> bool {
    let mut used: Vec<(u64, u64)> = vec![];
    for i in 0..8 {
        if t.0[i] == 0 {
            continue;
        }
        let mut one = ([0; 8], [0; 8]);
        one.0[i] = t.0[i];
        one.1[i] = t.1[i];
        let sp = PulseSpans::<M>::new(f, &one.0, &one.1);
        let hit = |d: u64| {
            count(0, 1, 0);
            sp.get::<usize>(M::d(d)).is_some()
        };
        let (a, b) = w[i].may;
        // first and last duration that match
        let lo_hi = match w[i].must {
            Some((l, h)) if hit(l) && hit(h) => {
                let (mut x, mut y) = (a, l);
                while x < y {
                    let m = (x + y) / 2;
                    if hit(m) { y = m } else { x = m + 1 }
                }
                let (mut u, mut v) = (h, b);
                while u < v {
                    let m = (u + v + 1) / 2;
                    if hit(m) { u = m } else { v = m - 1 }
                }
                Some((x, u))
            }
            // reported by the look-ups
            Some(_) => return true,
            None if b - a < 64 => {
                let v: Vec<u64> = (a..=b).filter(|d| hit(*d)).collect();
                v.first().map(|x| (*x, *v.last().unwrap()))
            }
            None => return true,
        };
        used.extend(lo_hi);
    }
    let mut want = false;
    for i in 0..used.len() {
        for j in 0..i {
            want |= used[i].0.max(used[j].0) <= used[i].1.min(used[j].1);
        }
    }
    let got = PulseSpans::<M>::new(f, &t.0, &t.1).check_overlaps();
    count(1, 1, 1);
    tally(1 + got as usize);
    if got != want {
        ck().violate(
            format!("{} clock @ {f} Hz, pulses {:?} us, tolerances {:?} %: check_overlaps gives {got}, the windows are {used:?}", M::NAME, t.0, t.1),
            format!("kind spans\nclock {}\nfreq {f}\npulses {:?}\ntol {:?}\n", M::NAME, t.0, t.1),
        );
    }
    got == want
}

fn main() {
    let c = begin("C24");
    c.bound("tables: every single pulse (14 lengths 20 us .. 1 s) with every tolerance from 0 to 100 % in every slot, every ordered pair of them in every pair of slots (4 pairs of tolerances, thorough 9), full tables of eight in every rotation, forward and backward, with equal and mixed tolerances; 19 frequencies; clocks u32, u64, typed 32/64 bits (also with tick lengths given as fractions with numerators 3, 7, 25, 1000); durations: all limits +-2 ticks, nominal, 0..3, powers of two, the type's end, each in 8 partitions into two, sums that overflow the type");
    c.assume("windows (pulse + tolerance) lie below half the range of the clock type; percent x ticks below 2^32 (what the library computes with)");
    let lens = [20u32, 100, 250, 444, 560, 889, 1120, 2250, 2664, 5000, 9000, 13500, 40_000, 1_000_000];
    let tols = [0u32, 1, 5, 10, 12, 25, 40, 60];
    let freqs = [1_000u32, 20_000, 32_768, 38_222, 40_000, 44_100, 100_000, 500_001, 1_000_000, 3_579_545, 8_000_000, 16_934_400, 33_333_333, 48_000_000, 168_000_000, 147_456_789, 480_000_000, 1_000_000_000, u32::MAX];
    let mut tabs: Vec<Table> = vec![];
    for l in lens {
        for t in 0..=100 {
            for s in 0..8 {
                let mut x = ([0; 8], [0; 8]);
                x.0[s] = l;
                x.1[s] = t;
                // a tolerance without a pulse is an unused entry, too
                if s != 3 {
                    x.1[3] = 25;
                }
                tabs.push(x);
            }
        }
    }
    let tp: &[(u32, u32)] = if c.thorough { &[(5, 5), (10, 25), (25, 10), (0, 12), (12, 0), (60, 1), (1, 60), (40, 40), (7, 7)] } else { &[(5, 12), (25, 10), (60, 1), (7, 7)] };
    for a in lens {
        for b in lens {
            for i in 0..8 {
                for j in 0..8 {
                    if i == j {
                        continue;
                    }
                    for (ta, tb) in tp {
                        let mut x = ([0; 8], [0; 8]);
                        x.0[i] = a;
                        x.1[i] = *ta;
                        x.0[j] = b;
                        x.1[j] = *tb;
                        tabs.push(x);
                    }
                }
            }
        }
    }
    for base in [[444u32, 888, 1332, 1776, 2220, 2664, 5000, 9000], [300, 500, 800, 1300, 2100, 3400, 5500, 8900], [13500, 11250, 1120, 2250, 4500, 20_000, 31_000, 560]] {
        for r in 0..8 {
            for t in tols {
                for back in [false, true] {
                    let mut p = base;
                    p.rotate_left(r);
                    if back {
                        p.reverse();
                    }
                    tabs.push((p, [t; 8]));
                    tabs.push((p, [t, 5, 12, t, 25, 1, t, 10]));
                }
            }
        }
    }
    let mut items = vec![];
    for f in freqs {
        for ch in tabs.chunks(256) {
            items.push((f, ch));
        }
    }
    // is the table inside the stated domain?
    let dom = |f: u32, t: &Table| (0..8).all(|i| {
        let n = t.0[i] as u64 * f as u64 / 1_000_000;
        n * (t.1[i].max(1) as u64) < 1 << 32 && n + n * t.1[i] as u64 / 100 < 1 << 31
    });
    c.par("plain clocks", &items, |(f, ts)| {
        for t in ts.iter().filter(|t| dom(*f, t)) {
            if stopped() {
                return;
            }
            table::<u32>(*f, t);
            table::<u64>(*f, t);
        }
    });
    let per: Vec<&[Table]> = tabs.chunks(256).collect();
    c.par("typed clocks", &per, |ts| {
        macro_rules! typed {
            ($($f:literal),*) => { $(
                for t in ts.iter().filter(|t| dom($f, t)) {
                    if stopped() { return; }
                    table::<Instant<u32, 1, $f>>($f, t);
                    table::<Instant<u64, 1, $f>>($f, t);
                }
            )* };
        }
        macro_rules! ratio {
            ($($n:literal * $f:literal),*) => { $(
                for t in ts.iter().filter(|t| dom($f, t)).step_by(3) {
                    if stopped() { return; }
                    table::<Instant<u32, $n, { $n * $f }>>($f, t);
                    table::<Instant<u64, $n, { $n * $f }>>($f, t);
                }
            )* };
        }
        ratio!(3 * 40_000, 7 * 32_768, 25 * 1_000_000, 1000 * 1_000_000);
        typed!(20_000, 32_768, 40_000, 1_000_000, 8_000_000, 48_000_000, 168_000_000);
    });
    c.finish();
}
