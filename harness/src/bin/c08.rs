//! C08 Polled reception works for every sampling phase.
use infrared::PeriodicPoll;
use irmc::*;

fn main() {
    let c = begin("C08");
    c.bound("9 protocols x 14 sampling rates 20..192 kHz (RC-6 from 40 kHz); every distinguishable sampling phase (one per interval between neighbouring edge positions, and the exact coincidences); words: base words, all 4-bit windows (thorough 8-bit), RC-5: every 5th, RC-6: every 499th; idle polls 0, 25 ms worth +0,1,2 and +1000; at 40 kHz every number of idle polls from 25 ms worth to 2^17, all within 16 ms after 2^18, 2^19 .. 2^32, and wraps of a 32-bit sample counter inside the frame; 5 rates of 1-20 MHz, 8 (thorough 64) phases");
    c.assume("ideal nominal waveform; sample k is taken at phase + k/rate; level at an exact edge time is the new level");
    let rates = [20_000u32, 22_050, 25_000, 30_000, 32_768, 36_000, 38_000, 40_000, 44_100, 50_000, 62_500, 96_000, 100_000, 192_000];
    let mut items = vec![];
    for pk in ALL {
        for f in rates {
            if pk == Pk::Rc6 && f < 40_000 {
                continue;
            }
            let mut ws = base_words(pk);
            match pk {
                Pk::Rc5 => ws.extend((0..1u64 << 13).step_by(5)),
                Pk::Rc6 => ws.extend((0..1u64 << 17).step_by(499)),
                Pk::Apple => ws.extend((0..1 << 20).step_by(9973).map(|i| valid_word(pk, i))),
                _ => ws.extend(window_words(pk, if c.thorough { 8 } else { 4 })),
            }
            ws.sort_unstable();
            ws.dedup();
            let st = if f > 50_000 && !c.thorough { 7 } else { 1 };
            let ws: Vec<u64> = ws.into_iter().step_by(st).collect();
            for ch in ws.chunks(32) {
                items.push((pk, f, ch.to_vec()));
            }
        }
    }
    c.par("all sampling phases", &items, |(pk, f, ws)| {
        with_proto!(*pk, P => {
            let g = gap(*f);
            for (i, w) in ws.iter().enumerate() {
                let mut base = PeriodicPoll::<P>::new(*f);
                for _ in 0..[0, g, g + 1, g + 2, g + 1000][i % 5] {
                    if nout(base.poll(false)) != Ok(None) {
                        ck().violate(format!("{:?} polled @ {f} Hz: idle input gives a result", P::PK), format!("kind poll\nproto {:?}\nfreq {f}\n", P::PK));
                        return;
                    }
                }
                phases::<P>(*f, *w, &base, &[0], usize::MAX);
            }
        })
    });
    // fast sampling: intervals of more than 16, 20, 24 bits worth of samples
    let mut items = vec![];
    for f in [20_000_000u32, 5_000_000, 1_000_000, 4_194_304, 10_000_019] {
        for pk in ALL {
            let ws = base_words(pk);
            for w in if c.thorough { ws } else { vec![ws[2]] } {
                items.push((pk, f, w));
            }
        }
    }
    c.par("fast sampling", &items, |(pk, f, w)| {
        with_proto!(*pk, P => {
            let mut base = PeriodicPoll::<P>::new(*f);
            for i in 0..if *f == 5_000_000 { 0 } else { gap(*f) as u64 + 17 } {
                if nout(base.poll(false)) != Ok(None) {
                    ck().violate(format!("{:?} polled @ {f} Hz: idle input gives a result", P::PK), format!("kind poll\nproto {:?}\nfreq {f}\nidle {i}\n", P::PK));
                    return;
                }
            }
            phases::<P>(*f, *w, &base, &[0], if ck().thorough { 64 } else { 8 });
        })
    });
    // the number of idle polls: every one below 2^17, the neighbourhood of every power of two and
    // of the wrap of a 32-bit sample counter, through to 2^32 and beyond
    c.par("every number of idle polls, counter wrap", &ALL.iter().rev().copied().collect::<Vec<_>>(), |pk| {
        let f = 40_000;
        with_proto!(*pk, P => {
            let w = base_words(*pk)[2];
            let (ed, total) = edges(*pk, w);
            let want = meaning(*pk, w, false).unwrap();
            // levels seen by the samples of the frame
            let mut lv = vec![];
            let (mut l, mut j) = (false, 0);
            for k in 0..total * f as u64 / 1_000_000 + 30 {
                while j < ed.len() && ed[j] * f as u64 <= 500_000 + k * 1_000_000 {
                    l = j % 2 == 0;
                    j += 1;
                }
                lv.push(l);
            }
            let near = ticks(16_000, f) as u64;
            let mut r = PeriodicPoll::<P>::new(f);
            let mut at = 0u64;
            // windows of idle counts: [from, to), step
            let mut win: Vec<(u64, u64, u64)> = vec![(gap(f) as u64, 1 << 17, 1)];
            for k in 18..=32 {
                let x = 1u64 << k;
                let len = lv.len() as u64 + 40;
                win.push((x - if k == 32 { len } else { 3 }, x + near, if k == 32 { 7 } else { 1 }));
            }
            for (from, to, step) in win {
                while at < to {
                    if at >= from && (at - from) % step == 0 {
                        if stopped() { return; }
                        let mut x = fork(&r);
                        let mut got: Vec<Out> = vec![];
                        for l in &lv {
                            let o = nout(x.poll(*l));
                            if o != Ok(None) { got.push(o); }
                        }
                        count(1, lv.len() as u64, 1);
                        if got != vec![Ok(Some(want))] {
                            ck().violate(
                                format!("{:?} polled @ {f} Hz after {at} idle polls: frame {w:#x} gives {got:?}, expected {want:?}", P::PK),
                                format!("kind poll\nproto {:?}\nfreq {f}\nword {w:#x}\nphase 500000\nidle {at}\n", P::PK),
                            );
                            return;
                        }
                    }
                    let n = if at < from { (from - at).min(1 << 24) } else { 1 };
                    for _ in 0..n {
                        if !matches!(r.poll(false), Ok(None)) {
                            ck().violate(format!("{:?} polled @ {f} Hz: idle input gives a result", P::PK), format!("kind poll\nproto {:?}\nfreq {f}\n", P::PK));
                            return;
                        }
                    }
                    at += n;
                    if n > 1 { count(1, n, 0); flush_local(); }
                }
            }
        })
    });
    c.finish();
}

/// Edge times in microseconds (rising first) and the total length.
fn edges(pk: Pk, w: u64) -> (Vec<u64>, u64) {
    let mut t = 0u64;
    let mut v = vec![0];
    if PD.contains(&pk) {
        let p = pd(pk);
        for s in p.segs() {
            let y = p.sym(s, w);
            v.push(t + y.mark as u64);
            t += y.dist() as u64;
            v.push(t);
        }
        t += p.tail as u64;
        v.push(t);
    } else {
        for u in runs(pk, w, 0).0 {
            t += u as u64 * unit(pk) as u64;
            v.push(t);
        }
    }
    (v, t)
}

fn phases<P: Pr>(f: u32, w: u64, base: &PeriodicPoll<P>, idles: &[u32], most: usize)
{
    let Some(want) = meaning(P::PK, w, false) else { return };
    let (ed, total) = edges(P::PK, w);
    // positions in 1e-6 sample periods
    let mut cuts: Vec<u64> = ed.iter().map(|t| (t * f as u64) % 1_000_000).collect();
    cuts.sort_unstable();
    cuts.dedup();
    let mut ph: Vec<u64> = vec![];
    for i in 0..cuts.len() {
        ph.push(cuts[i]);
        let nx = if i + 1 < cuts.len() { cuts[i + 1] } else { cuts[0] + 1_000_000 };
        ph.push(((cuts[i] + nx) / 2) % 1_000_000);
    }
    let ph: Vec<u64> = ph.iter().copied().step_by(ph.len().div_ceil(most).max(1)).collect();
    for idle in idles {
        for p in &ph {
            if stopped() {
                return;
            }
            let mut r = fork(base);
            let mut got: Vec<Out> = vec![];
            let mut n = 0u64;
            let mut poll = |r: &mut PeriodicPoll<P>, l: bool| {
                n += 1;
                let o = nout(r.poll(l));
                if o != Ok(None) {
                    got.push(o);
                }
            };
            for _ in 0..*idle {
                poll(&mut r, false);
            }
            // sample k at phase p + k (units 1e-6 periods); level toggles at edge times * f
            let mut k = 0u64;
            let mut lv = false;
            let mut j = 0;
            let end = total * f as u64 + 40_000_000;
            loop {
                let t = p + k * 1_000_000;
                while j < ed.len() && ed[j] * f as u64 <= t {
                    lv = j % 2 == 0;
                    j += 1;
                }
                poll(&mut r, lv);
                if t > end {
                    break;
                }
                k += 1;
            }
            if lv {
                poll(&mut r, false);
            }
            count(1, n, 1);
            sample(|| format!("{:?} @ {f} Hz word {w:#x}, phase {p}/1e6, {idle} idle polls", P::PK));
            if got != vec![Ok(Some(want))] {
                ck().violate(
                    format!("{:?} polled @ {f} Hz, phase {p}/1000000 sample, {idle} idle polls: frame {w:#x} gives {got:?}, expected {want:?}", P::PK),
                    format!("kind poll\nproto {:?}\nfreq {f}\nword {w:#x}\nphase {p}\nidle {idle}\n", P::PK),
                );
                return;
            }
        }
    }
}
