//! C11 Results do not depend on the clock type or the clock's starting point.
use fugit::{Duration, Instant, TimerDurationU32, TimerDurationU64, TimerInstantU32, TimerInstantU64};
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{DecoderBuilder, NoPin};
use infrared::{Protocol, Receiver};
use irmc::*;

/// A clock type: how to make its durations and instants from tick counts.
trait Clk {
    type M: InfraMonotonic;
    fn d(t: u64) -> <Self::M as InfraMonotonic>::Duration;
    fn i(t: u64) -> <Self::M as InfraMonotonic>::Instant;
}
struct C32;
struct C64;
struct F32<const HZ: u32>;
struct F64<const HZ: u32>;
impl Clk for C32 {
    type M = u32;
    fn d(t: u64) -> u32 {
        t as u32
    }
    fn i(t: u64) -> u32 {
        t as u32
    }
}
impl Clk for C64 {
    type M = u64;
    fn d(t: u64) -> u64 {
        t
    }
    fn i(t: u64) -> u64 {
        t
    }
}
impl<const HZ: u32> Clk for F32<HZ> {
    type M = TimerInstantU32<HZ>;
    fn d(t: u64) -> TimerDurationU32<HZ> {
        TimerDurationU32::from_ticks(t as u32)
    }
    fn i(t: u64) -> TimerInstantU32<HZ> {
        TimerInstantU32::from_ticks(t as u32)
    }
}
impl<const HZ: u32> Clk for F64<HZ> {
    type M = TimerInstantU64<HZ>;
    fn d(t: u64) -> TimerDurationU64<HZ> {
        TimerDurationU64::from_ticks(t)
    }
    fn i(t: u64) -> TimerInstantU64<HZ> {
        TimerInstantU64::from_ticks(t)
    }
}

/// Typed instants whose tick is a fraction of a second with a numerator other than one.
struct G32<const A: u32, const B: u32>;
struct G64<const A: u32, const B: u32>;
impl<const A: u32, const B: u32> Clk for G32<A, B> {
    type M = Instant<u32, A, B>;
    fn d(t: u64) -> Duration<u32, A, B> {
        Duration::<u32, A, B>::from_ticks(t as u32)
    }
    fn i(t: u64) -> Instant<u32, A, B> {
        Instant::<u32, A, B>::from_ticks(t as u32)
    }
}
impl<const A: u32, const B: u32> Clk for G64<A, B> {
    type M = Instant<u64, A, B>;
    fn d(t: u64) -> Duration<u64, A, B> {
        Duration::<u64, A, B>::from_ticks(t)
    }
    fn i(t: u64) -> Instant<u64, A, B> {
        Instant::<u64, A, B>::from_ticks(t)
    }
}

type Ev64 = (bool, u64);

fn durs<P: Pr + DecoderBuilder<K::M>, K: Clk>(f: u32, evs: &[Ev64]) -> Vec<Out> {
    let mut r: Receiver<P, NoPin, K::M, <P as Protocol>::Cmd> = Receiver::new(f);
    count(evs.len() as u64, evs.len() as u64, 1);
    evs.iter().map(|(e, d)| nout::<P::C>(r.event(K::d(*d), *e))).collect()
}
fn stamps<P: Pr + DecoderBuilder<K::M>, K: Clk>(f: u32, evs: &[Ev64]) -> Vec<Out> {
    let mut r: Receiver<P, NoPin, K::M, <P as Protocol>::Cmd> = Receiver::new(f);
    count(evs.len() as u64, evs.len() as u64, 1);
    evs.iter().map(|(e, t)| nout::<P::C>(r.event_instant(K::i(*t), *e))).collect()
}
fn show(evs: &[Ev64]) -> String {
    evs.iter().map(|(e, d)| format!("{}{}", if *e { 'r' } else { 'f' }, d)).collect::<Vec<_>>().join(" ")
}
fn cmp(pk: Pk, f: u32, a: &str, b: &str, x: &[Out], y: &[Out], sx: &[Ev64], sy: &[Ev64]) -> bool {
    if x == y {
        return true;
    }
    let k = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(0);
    ck().violate(
        format!("{pk:?} @ {f} Hz, event {k}: {a} gives {:?}, {b} gives {:?}", x.get(k), y.get(k)),
        format!("kind clocks\nproto {pk:?}\nfreq {f}\n{a}: {}\n{b}: {}\n", show(sx), show(sy)),
    );
    false
}

type Run = fn(u32, &[Ev64]) -> Vec<Out>;
/// The entry points of one protocol at one rate.
#[derive(Clone, Copy)]
struct Fns {
    pk: Pk,
    hz: u32,
    /// durations: u32, u64, fugit u32, fugit u64
    d: [Run; 4],
    /// time stamps, likewise
    s: [Run; 4],
}
fn fns<P, const HZ: u32>() -> Fns
where
    P: Pr + DecoderBuilder<u64> + DecoderBuilder<TimerInstantU32<HZ>> + DecoderBuilder<TimerInstantU64<HZ>>,
{
    Fns {
        pk: P::PK,
        hz: HZ,
        d: [durs::<P, C32>, durs::<P, C64>, durs::<P, F32<HZ>>, durs::<P, F64<HZ>>],
        s: [stamps::<P, C32>, stamps::<P, C64>, stamps::<P, F32<HZ>>, stamps::<P, F64<HZ>>],
    }
}

fn fns_ratio<P, const A: u32, const B: u32>() -> Fns
where
    P: Pr + DecoderBuilder<u64> + DecoderBuilder<Instant<u32, A, B>> + DecoderBuilder<Instant<u64, A, B>>,
{
    assert_eq!(B % A, 0);
    Fns {
        pk: P::PK,
        hz: B / A,
        d: [durs::<P, C32>, durs::<P, C64>, durs::<P, G32<A, B>>, durs::<P, G64<A, B>>],
        s: [stamps::<P, C32>, stamps::<P, C64>, stamps::<P, G32<A, B>>, stamps::<P, G64<A, B>>],
    }
}

/// All clock types on one duration stream.
fn same(q: &Fns, evs: &[Ev64]) -> bool {
    let (pk, hz) = (q.pk, q.hz);
    let a = (q.d[0])(hz, evs);
    sample(|| format!("{pk:?} @ {hz} Hz: {}", show(evs)));
    cmp(pk, hz, "u32", "u64", &a, &(q.d[1])(hz, evs), evs, evs)
        && cmp(pk, hz, "u32", "fugit u32", &a, &(q.d[2])(hz, evs), evs, evs)
        && cmp(pk, hz, "u32", "fugit u64", &a, &(q.d[3])(hz, evs), evs, evs)
}
fn wide(v: &[Ev]) -> Vec<Ev64> {
    v.iter().map(|(e, d)| (*e, *d as u64)).collect()
}

/// Frames with one interval of every length around every tolerance limit.
fn scan(q: &Fns) {
    let (pk, hz) = (q.pk, q.hz);
    let dense = hz <= 100_000;
    let mut jobs: Vec<(Vec<Ev64>, usize, u64, u64)> = vec![]; // stream, event, lengths
    if PD.contains(&pk) {
        let p = PdF::new(pk, hz);
        let w = base_words(pk)[2];
        let fr = wide(&pd_frame(&p, w, gap(hz)));
        let kinds = [
            (Cls::Header, 0usize),
            (Cls::Zero, p.segs.iter().position(|s| matches!(s, Seg::Bit(b) if (w >> b) & 1 == 0)).unwrap()),
            (Cls::One, p.segs.iter().position(|s| matches!(s, Seg::Bit(b) if (w >> b) & 1 == 1)).unwrap()),
            (Cls::Pause, p.segs.iter().position(|s| *s == Seg::Pause).unwrap_or(99)),
            (Cls::Repeat, 98),
        ];
        for (c, seg) in kinds {
            if seg == 99 || (seg == 98 && p.pd.repeat.is_none()) {
                continue;
            }
            let t = p.table.iter().find(|t| t.0 == c).unwrap();
            let (s, at) = if seg == 98 {
                let mut s = fr.clone();
                s.extend(wide(&pd_repeat(&p, gap(hz))));
                let n = s.len();
                (s, n - 2)
            } else {
                (fr.clone(), 2 + 2 * seg)
            };
            let m = s[at - 1].1;
            let (mu, ma) = (t.2, t.3);
            if dense {
                jobs.push((s, at, 0, 2 * ma.1));
            } else {
                let (ml, mh) = mu.unwrap();
                jobs.push((s.clone(), at, ma.0.saturating_sub(3 + m), ml + 3 - m));
                jobs.push((s, at, mh - 3 - m, ma.1 + 3 - m));
            }
        }
    } else {
        let w = base_words(pk)[2] ^ 0x18;
        let (r, _) = runs(pk, w, 0);
        let fr = wide(&mc_frame(pk, hz, w, 0, gap(hz)).0);
        for u in [1u8, 2, 3, 6] {
            let Some(i) = r.iter().position(|x| *x == u) else { continue };
            let (mu, ma) = run_ranges(pk, u, hz);
            if dense {
                jobs.push((fr.clone(), i + 1, 0, 2 * ma.1));
            } else {
                let (ml, mh) = mu.unwrap();
                jobs.push((fr.clone(), i + 1, ma.0.saturating_sub(3), ml + 3));
                jobs.push((fr.clone(), i + 1, mh - 3, ma.1 + 3));
            }
        }
    }
    for (mut s, at, a, b) in jobs {
        let step = ((b - a) / 3000).max(1);
        let mut d = a;
        while d <= b {
            s[at].1 = d;
            if stopped() || !same(q, &s) {
                return;
            }
            d += step;
        }
        // where exactly does the outcome change? compare the exact neighbourhood
        if step > 1 {
            let f = |d: u64| {
                let mut t = s.clone();
                t[at].1 = d;
                (q.d[0])(hz, &t)
            };
            let (mut lo, mut hi) = (a, b);
            let fl = f(lo);
            while hi - lo > 1 {
                let m = (lo + hi) / 2;
                if f(m) == fl {
                    lo = m;
                } else {
                    hi = m;
                }
            }
            for d in lo.saturating_sub(40)..hi + 40 {
                s[at].1 = d;
                if !same(q, &s) {
                    return;
                }
            }
        }
    }
}

/// Time stamps against durations.
fn stamped(q: &Fns, n: usize) {
    let (pk, hz) = (q.pk, q.hz);
    let mut starts: Vec<u64> = vec![0, 1, gap(hz) as u64 * 3, 1 << 31, (1 << 31) - 5, (1 << 31) - gap(hz) as u64, (1 << 32) - 1, (1 << 32) - 1 - gap(hz) as u64];
    // wrap at several places inside the frame
    let tot: u64 = frame(pk, hz, base_words(pk)[2], 0).0.iter().map(|e| e.1 as u64).sum();
    for k in 1..12 {
        starts.push((1u64 << 32).saturating_sub(tot * k / 12));
    }
    let big: Vec<u64> = vec![1 << 32, (1 << 33) - tot / 2, (1 << 63) - tot / 2, u64::MAX - tot / 3, u64::MAX - tot * 3];
    for s in streams(pk, hz, n) {
        if stopped() {
            return;
        }
        let mut d = wide(&s);
        if d.iter().any(|e| e.1 > 1 << 30) {
            continue;
        }
        d[0].1 = 0;
        let want = (q.d[0])(hz, &d);
        for t0 in starts.iter().chain(&big) {
            // an initial interval that cannot be part of a frame
            if *t0 != 0 && *t0 < gap(hz) as u64 {
                if PD.contains(&pk) && PdF::new(pk, hz).class(*t0) != Cls::Bad {
                    continue;
                }
            }
            let mut t = *t0;
            let st: Vec<Ev64> = d.iter().map(|(e, x)| { t = t.wrapping_add(*x); (*e, t) }).collect();
            let last = t0.wrapping_add(d.iter().map(|e| e.1).sum());
            let wraps32 = *t0 >> 32 != last >> 32 || last < *t0;
            let wraps64 = last < *t0;
            let ok = (*t0 >> 32 != 0 || wraps32 || cmp(pk, hz, "durations", "u32 stamps", &want, &(q.s[0])(hz, &st), &d, &st))
                && (wraps64 || cmp(pk, hz, "durations", "u64 stamps", &want, &(q.s[1])(hz, &st), &d, &st))
                && (*t0 >> 32 != 0 || cmp(pk, hz, "durations", "fugit u32 stamps", &want, &(q.s[2])(hz, &st), &d, &st))
                && cmp(pk, hz, "durations", "fugit u64 stamps", &want, &(q.s[3])(hz, &st), &d, &st);
            if !ok {
                return;
            }
        }
    }
}

/// A plain-integer clock jumping back once or twice.
fn back(q: &Fns) {
    let (pk, f) = (q.pk, q.hz);
    let base = 1_000_000_000u64;
    for w in base_words(pk) {
        let mut evs = wide(&frame(pk, f, w, gap(f)).0);
        if evs.last().unwrap().0 {
            evs.push((false, ticks(500, f) as u64));
        }
        evs.extend(wide(&frame(pk, f, base_words(pk)[1], gap(f)).0));
        let n = evs.len();
        for k in 1..n {
            for k2 in [n, k + 1, k + 2, (k + 7).min(n)] {
                for to in [0u64, 5, base / 2, base - 1] {
                    if stopped() {
                        return;
                    }
                    let mut d = evs.clone();
                    d[0].1 = base;
                    let mut t = 0;
                    let mut st = vec![];
                    for (i, e) in d.iter_mut().enumerate() {
                        if i == k || i == k2 {
                            let nt = if i == k { to } else { to / 2 };
                            e.1 = nt.saturating_sub(t);
                            t = nt;
                        } else {
                            t += e.1;
                        }
                        st.push((e.0, t));
                    }
                    let want = (q.d[0])(f, &d);
                    if !(cmp(pk, f, "durations", "u32 stamps going back", &want, &(q.s[0])(f, &st), &d, &st)
                        && cmp(pk, f, "durations", "u64 stamps going back", &want, &(q.s[1])(f, &st), &d, &st))
                    {
                        return;
                    }
                    sample(|| format!("{pk:?} @ {f} Hz: {}", show(&st)));
                }
            }
        }
    }
}

/// Time stamps far apart, at every event of a frame. `whole`: the interval before the long one
/// alone is as long as the two together should be.
fn far(q: &Fns) {
    let (pk, hz) = (q.pk, q.hz);
    for w in base_words(pk) {
        let mut evs = wide(&frame(pk, hz, w, gap(hz)).0);
        if evs.last().unwrap().0 {
            evs.push((false, ticks(500, hz) as u64));
        }
        evs.extend(wide(&frame(pk, hz, base_words(pk)[1], gap(hz)).0));
        for k in 0..evs.len() {
            for add in [1u64 << 29, 1 << 30, 3 << 29, (1 << 31) - 1, 1 << 32, 3 << 32, 1 << 40, 1 << 48, 1 << 62] {
                for whole in [false, true] {
                    if stopped() {
                        return;
                    }
                    let mut a = evs.clone();
                    a[0].1 = 0;
                    if whole && k > 1 {
                        a[k - 1].1 += a[k].1;
                    }
                    // beyond the counter's range of a 32-bit clock only the excess could be mistaken for the interval
                    a[k].1 = if add < 1 << 32 { add } else { add + a[k].1 };
                    let n: u64 = a.iter().map(|e| e.1).sum();
                    for t0 in [0u64, 1 << 31, u64::MAX / 2 - 1, u64::MAX - 7] {
                        let mut t = t0;
                        let st: Vec<Ev64> = a.iter().map(|(e, x)| { t = t.wrapping_add(*x); (*e, t) }).collect();
                        let mut a = a.clone();
                        if t0 != 0 {
                            // the first stamp itself is a long interval then
                            a[0].1 = u32::MAX as u64;
                        }
                        let small = a.iter().all(|e| e.1 <= u32::MAX as u64);
                        let typed32 = a[1..].iter().all(|e| e.1 < 1 << 31) && k > 0;
                        let wraps = t0.checked_add(n).is_none();
                        let want = (q.d[1])(hz, &a);
                        if !(wraps || cmp(pk, hz, "u64 durations", "u64 stamps", &want, &(q.s[1])(hz, &st), &a, &st))
                            || !(wraps && k == 0 || cmp(pk, hz, "u64 durations", "fugit u64 stamps", &want, &(q.s[3])(hz, &st), &a, &st))
                            || !(!small || t0.saturating_add(n) > u32::MAX as u64 || cmp(pk, hz, "u64 durations", "u32 stamps", &want, &(q.s[0])(hz, &st), &a, &st))
                            || !(!small || !typed32 || t0 > u32::MAX as u64 || cmp(pk, hz, "u64 durations", "fugit u32 stamps", &want, &(q.s[2])(hz, &st), &a, &st))
                        {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// 64-bit intervals beyond 32 bits are just long.
fn long(q: &Fns) {
    let (pk, hz) = (q.pk, q.hz);
    for w in base_words(pk) {
        let mut evs = wide(&frame(pk, hz, w, gap(hz)).0);
        if evs.last().unwrap().0 {
            evs.push((false, ticks(500, hz) as u64));
        }
        evs.extend(wide(&frame(pk, hz, base_words(pk)[1], gap(hz)).0));
        for k in 0..evs.len() {
            for add in [1u64 << 32, 3 << 32, 1 << 40, 1 << 62] {
                let mut a = evs.clone();
                let mut b = evs.clone();
                a[k].1 += add;
                b[k].1 = (gap(hz) as u64 * 100).min(u32::MAX as u64);
                let want = (q.d[0])(hz, &b);
                if stopped()
                    || !cmp(pk, hz, "u32, long interval", "u64, interval over 32 bits", &want, &(q.d[1])(hz, &a), &b, &a)
                    || !cmp(pk, hz, "u32, long interval", "fugit u64, interval over 32 bits", &want, &(q.d[3])(hz, &a), &b, &a)
                {
                    return;
                }
            }
        }
    }
}

macro_rules! rates {
    ($v:ident, $P:ty; $($hz:literal),*) => { $( $v.push(fns::<$P, $hz>()); )* };
}
fn table() -> Vec<Fns> {
    let mut v = vec![];
    for pk in ALL {
        with_proto!(pk, P => { rates!(v, P; 20_000, 32_768, 38_222, 40_000, 100_000, 477_219, 1_000_000, 1_843_200, 8_000_000, 48_000_000, 168_000_000, 333_333_333, 999_999_999, 4_000_000_000);
            v.push(fns_ratio::<P, 25, 1_000_000>());
            v.push(fns_ratio::<P, 1000, 38_222_000>());
            v.push(fns_ratio::<P, 3, 3_000_000>());
        })
    }
    v
}

fn streamed(q: &Fns, n: usize) {
    let (pk, hz) = (q.pk, q.hz);
    for s in streams(pk, hz, n) {
        if stopped() || !same(q, &wide(&s)) {
            return;
        }
    }
}

/// Frames for so long that time stamps wrap around many times (or, slow clocks, far beyond 16 bits).
fn endless(q: &Fns) {
    let (pk, hz) = (q.pk, q.hz);
    let its = stream_items(pk, hz);
    for k in [1usize, its.len() - 2] {
        let mut d: Vec<Ev64> = vec![];
        while d.len() < if ck().thorough { 400_000 } else { 67_000 } {
            d.extend(wide(&its[0].evs));
            d.extend(wide(&its[k].evs));
        }
        d[0].1 = 0;
        let want = (q.d[0])(hz, &d);
        for t0 in [0u64, u32::MAX as u64 - 999_999, u64::MAX - 999_999] {
            let mut t = t0;
            let st: Vec<Ev64> = d.iter().map(|(e, x)| { t = t.wrapping_add(*x); (*e, t) }).collect();
            // a plain-integer clock does not wrap, and the first typed time stamp may not be half a range away
            let wraps = |bits: u32| t0 >> bits != 0 || t >> (bits - 1) >> 1 != 0 || t < t0;
            if stopped()
                || !(wraps(32) || cmp(pk, hz, "durations", "u32 stamps", &want, &(q.s[0])(hz, &st), &d, &st))
                || !(t < t0 || cmp(pk, hz, "durations", "u64 stamps", &want, &(q.s[1])(hz, &st), &d, &st))
                || !(t0 > u32::MAX as u64 || cmp(pk, hz, "durations", "fugit u32 stamps", &want, &(q.s[2])(hz, &st), &d, &st))
                || !cmp(pk, hz, "durations", "fugit u64 stamps", &want, &(q.s[3])(hz, &st), &d, &st)
            {
                return;
            }
        }
    }
}

/// Seven receivers in lockstep for the reachable-state search: durations with each clock type, time
/// stamps with each clock type that can tell them apart. The clock readings and the receivers fed with
/// them are carried along but do not count as part of the state.
struct Lanes<P: Pr + DecoderBuilder<u64> + DecoderBuilder<TimerInstantU32<HZ>> + DecoderBuilder<TimerInstantU64<HZ>>, const HZ: u32> {
    d32: Receiver<P, NoPin, u32, <P as Protocol>::Cmd>,
    d64: Receiver<P, NoPin, u64, <P as Protocol>::Cmd>,
    f32: Receiver<P, NoPin, TimerInstantU32<HZ>, <P as Protocol>::Cmd>,
    f64: Receiver<P, NoPin, TimerInstantU64<HZ>, <P as Protocol>::Cmd>,
    s32: Receiver<P, NoPin, u32, <P as Protocol>::Cmd>,
    s64: Receiver<P, NoPin, u64, <P as Protocol>::Cmd>,
    t32: Receiver<P, NoPin, TimerInstantU32<HZ>, <P as Protocol>::Cmd>,
    t64: Receiver<P, NoPin, TimerInstantU64<HZ>, <P as Protocol>::Cmd>,
    /// time of the last event
    now: u64,
    /// time of the last event on the typed 32-bit clock, which starts shortly before its wrap-around
    now32: u32,
    ok_s32: bool,
    ok_t32: bool,
    err: Option<Box<String>>,
}
impl<P: Pr + DecoderBuilder<u64> + DecoderBuilder<TimerInstantU32<HZ>> + DecoderBuilder<TimerInstantU64<HZ>>, const HZ: u32> Lanes<P, HZ> {
    fn new() -> Self {
        Lanes {
            d32: Receiver::new(HZ),
            d64: Receiver::new(HZ),
            f32: Receiver::new(HZ),
            f64: Receiver::new(HZ),
            s32: Receiver::new(HZ),
            s64: Receiver::new(HZ),
            t32: Receiver::new(HZ),
            t64: Receiver::new(HZ),
            now: 0,
            now32: 0,
            ok_s32: true,
            ok_t32: true,
            err: None,
        }
    }
}
impl<P: Pr + DecoderBuilder<u64> + DecoderBuilder<TimerInstantU32<HZ>> + DecoderBuilder<TimerInstantU64<HZ>>, const HZ: u32> Mach for Lanes<P, HZ> {
    fn ev(&mut self, e: bool, d: u32) -> Out {
        self.now += d as u64;
        self.now32 = self.now32.wrapping_add(d);
        self.ok_s32 &= self.now <= u32::MAX as u64;
        self.ok_t32 &= d < 1 << 31;
        let want = nout::<P::C>(self.d32.event(d, e));
        let mut bad = |n: &str, o: Out| {
            if o != want {
                self.err = Some(Box::new(format!("32-bit durations give {want:?}, {n} {o:?}")));
            }
        };
        bad("64-bit durations", nout::<P::C>(self.d64.event(d as u64, e)));
        bad("typed 32-bit durations", nout::<P::C>(self.f32.event(TimerDurationU32::from_ticks(d), e)));
        bad("typed 64-bit durations", nout::<P::C>(self.f64.event(TimerDurationU64::from_ticks(d as u64), e)));
        bad("64-bit time stamps", nout::<P::C>(self.s64.event_instant(self.now, e)));
        bad("typed 64-bit time stamps", nout::<P::C>(self.t64.event_instant(TimerInstantU64::from_ticks(self.now), e)));
        if self.ok_s32 {
            bad("32-bit time stamps", nout::<P::C>(self.s32.event_instant(self.now as u32, e)));
        }
        if self.ok_t32 {
            bad("typed 32-bit time stamps", nout::<P::C>(self.t32.event_instant(TimerInstantU32::from_ticks(self.now32), e)));
        }
        want
    }
    fn key(&self, h: &mut H2) {
        bytes(&self.d32, h);
        h.word(self.ok_s32 as u64 | (self.ok_t32 as u64) << 1 | (self.err.is_some() as u64) << 2);
    }
    fn fork(&self) -> Self {
        Lanes {
            d32: fork(&self.d32),
            d64: fork(&self.d64),
            f32: fork(&self.f32),
            f64: fork(&self.f64),
            s32: fork(&self.s32),
            s64: fork(&self.s64),
            t32: fork(&self.t32),
            t64: fork(&self.t64),
            now: self.now,
            now32: self.now32,
            ok_s32: self.ok_s32,
            ok_t32: self.ok_t32,
            err: None,
        }
    }
}
fn lanes<P: Pr + DecoderBuilder<u64> + DecoderBuilder<TimerInstantU32<HZ>> + DecoderBuilder<TimerInstantU64<HZ>>, const HZ: u32>() {
    let at = |m: &Lanes<P, HZ>, _: bool| match &m.err {
        Some(e) => Err((vec![], (**e).clone())),
        None => Ok(()),
    };
    let dist = if ck().thorough { 3 } else { 2 };
    let start = Lanes::<P, HZ>::new();
    let r = if PD.contains(&P::PK) {
        let p = PdF::new(P::PK, HZ);
        let g = PdGuide::<Lanes<P, HZ>> {
            ls: pd_letters(&p, true),
            base: base_words(P::PK),
            dist,
            merged: true,
            reset: false,
            vis: &|_| Ok(()),
            at: &at,
            p,
        };
        reach(P::PK, HZ, start, &g, if ck().thorough { 4_000_000 } else { 1_200_000 })
    } else {
        let g = McGuide::<Lanes<P, HZ>>::new(P::PK, HZ, (P::PK == Pk::Rc6).then_some(dist), false, &at);
        reach(P::PK, HZ, start, &g, if ck().thorough { 4_000_000 } else { 1_200_000 })
    };
    note(P::PK, HZ, r.0, r.1);
}

fn main() {
    let c = begin("C11");
    c.bound("14 rates from 20 kHz to 4 GHz and three typed clocks with a tick other than 1/n s; all streams of 2 (thorough 3) frame-level items; one interval of every length (to 100 kHz) or every length near each tolerance limit (above); 24 starting times incl. wrap-around inside the frame at 12 places; a backward jump at every event, alone or with a second one; intervals over 32 bits at every event; time stamps far ahead of the predecessor (every power of two up to the clock type) at every event");
    c.bound("endless time stamps: frames to 67 000 (thorough 400 000) edges, typed 32-bit clocks wrapping up to ~180 times, at every rate");
    c.assume("typed instants less than half the counter range apart");
    let th = c.thorough;
    let items = table();
    c.par("interval lengths, four clock types", &items, scan);
    c.par("frame-level streams, four clock types", &items, |q| streamed(q, if th { 3 } else { 2 }));
    c.par("time stamps, all starting points", &items, |q| stamped(q, 2));
    c.par("intervals over 32 bits", &items, long);
    c.par("time stamps far apart", &items, far);
    c.par("time stamps going back", &items, back);
    let mut items2: Vec<fn()> = vec![];
    for pk in [Pk::Denon, Pk::Sbp, Pk::Rc6, Pk::Rc5, Pk::Debug, Pk::Nec, Pk::Samsung, Pk::Nec16, Pk::Apple] {
        with_proto!(pk, P => {
            items2.push(lanes::<P, 1_000_000>);
            items2.push(lanes::<P, 40_000>);
        });
    }
    c.par("reachable states, seven clocks", &items2, |f| f());
    c.par("endless time stamps", &items, endless);
    c.finish();
}
