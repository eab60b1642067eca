//! C16 Receivers ignore other protocols' transmissions.
use irmc::*;

fn family(pk: Pk) -> u8 {
    match pk {
        Pk::Nec | Pk::Nec16 | Pk::Apple | Pk::Debug => 0,
        Pk::Samsung => 1,
        Pk::Sbp => 2,
        Pk::Denon => 3,
        Pk::Rc5 => 4,
        Pk::Rc6 => 5,
    }
}

fn main() {
    let c = begin("C16");
    c.bound("all ordered pairs of timing families; all valid words (NEC/Samsung 2^16, RC-5 2^13, RC-6 2^17), 10-bit windows (thorough 14) for the others; 12 frequencies from 20 kHz; base words at every frequency 20..100 kHz; frames doubled back to back, repeats interleaved; each foreign frame also after 0..3 frames of the receiver's own protocol");
    c.bound("66 200 foreign frames in a row of each protocol, 2100 (thorough 66 200) of every two protocols in turn, at 40 kHz");
    let fs: Vec<u32> = [20_000u32, 25_000, 31_250, 38_222].iter().copied().chain(RX_FREQS).collect();
    let mut items = vec![];
    for src in ALL {
        if src == Pk::Apple {
            continue; // same waveforms as raw NEC
        }
        let ws: Vec<u64> = match src {
            Pk::Nec | Pk::Samsung | Pk::Rc5 | Pk::Rc6 => {
                (0..valid_count(src)).map(|i| valid_word(src, i)).collect()
            }
            _ => window_words(src, if c.thorough { 14 } else { 10 }),
        };
        for f in &fs {
            let st = if *f == 1_000_000 || *f == 40_000 || c.thorough { 1 } else { 13 };
            let sub: Vec<u64> = ws.iter().copied().step_by(st).collect();
            for ch in sub.chunks(4096) {
                items.push((src, *f, ch.to_vec()));
            }
        }
    }
    c.par("foreign frames", &items, |(src, f, ws)| {
        for dst in ALL {
            // Nec, Apple, Debug decode the same timing as Nec16 and the raw receiver sees everything they see
            if family(dst) == family(*src) || matches!(dst, Pk::Nec | Pk::Apple | Pk::Nec16) && *f != 1_000_000 {
                continue;
            }
            go(*src, dst, *f, ws);
        }
    });
    let mut items = vec![];
    for src in ALL {
        for ch in (20_000u32..100_000).collect::<Vec<_>>().chunks(500) {
            items.push((src, ch.to_vec()));
        }
    }
    c.par("frequency sweep", &items, |(src, fs)| {
        for f in fs {
            for dst in [Pk::Debug, Pk::Samsung, Pk::Sbp, Pk::Denon, Pk::Rc5, Pk::Rc6] {
                if family(dst) != family(*src) {
                    go(*src, dst, *f, &base_words(*src));
                }
            }
        }
    });
    // many of them in a row, of one protocol or of two in turn
    let mut items = vec![];
    for a in ALL {
        for b in ALL {
            if a != Pk::Apple && b != Pk::Apple {
                items.push((a, b));
            }
        }
    }
    c.par("tens of thousands of foreign frames", &items, |(a, b)| {
        let f = 40_000;
        let one = |pk: Pk, k: usize| -> Vec<Ev> {
            let ws = base_words(pk);
            let (mut e, _) = frame(pk, f, ws[k % ws.len()], gap(f));
            if NECS.contains(&pk) && k % 2 == 1 {
                e.extend(pd_repeat(&PdF::new(pk, f), gap(f)));
            }
            if e.last().unwrap().0 { e.push((false, ticks(500, f))); }
            e
        };
        for k in 0..if a == b { 4 } else { 2 } {
            let cy = [one(*a, k), one(*b, k + 1)];
            let n = if a == b || ck().thorough { 33_100 } else { 1050 };
            for dst in ALL {
                if family(dst) == family(*a) || family(dst) == family(*b) {
                    continue;
                }
                with_proto!(dst, P => {
                    let mut r = Rx::<P>::new(f);
                    for i in 0..n {
                        if stopped() { return; }
                        for x in cy.iter().flatten() {
                            let (v, k) = outs(r.ev(x.0, x.1));
                            if let Some(Ok(Some(m))) = v[..k].iter().find(|o| matches!(o, Ok(Some(_)))) {
                                ck().violate(
                                    format!("{dst:?} receiver @ {f} Hz reports {m:?} while hearing {a:?} and {b:?} frames, after {i} rounds"),
                                    replay_evs(dst, f, &cy.concat(), &format!("the edges are repeated {} times", i + 1)),
                                );
                                return;
                            }
                        }
                        count(1, cy.iter().map(|c| c.len() as u64).sum(), 0);
                    }
                    count(0, 0, 1);
                })
            }
        }
    });
    c.finish();
}

fn go(src: Pk, dst: Pk, f: u32, ws: &[u64]) {
    let p = PD.contains(&src).then(|| PdF::new(src, f));
    with_proto!(dst, P => {
        // one receiver sees the whole batch of frames, one after the other
        let mut r = Rx::<P>::new(f);
        let mut prev: Vec<Ev> = vec![];
        for (i, w) in ws.iter().enumerate() {
            if stopped() { return; }
            // before every other frame the receiver gets one of its own protocol
            if i % 2 == 1 {
                let (mut o, _) = frame(dst, f, base_words(dst)[i / 2 % base_words(dst).len()], gap(f));
                if o.last().unwrap().0 { o.push((false, ticks(500, f))); }
                for x in &o {
                    let _ = r.ev(x.0, x.1);
                }
                count(o.len() as u64, o.len() as u64, 0);
                prev = o;
            }
            let lead = if i % 5 == 4 { ticks(8_000, f) } else { gap(f) };
            let (mut e, _) = frame(src, f, *w, lead);
            if NECS.contains(&src) && i % 7 == 0 {
                e.extend(pd_repeat(p.as_ref().unwrap(), gap(f)));
            }
            if e.last().unwrap().0 { e.push((false, ticks(500, f))); }
            count(e.len() as u64, e.len() as u64, 1);
            sample(|| format!("{dst:?} receiver @ {f} Hz hears {src:?} word {w:#x}"));
            for (j, x) in e.iter().enumerate() {
                let (v, k) = outs(r.ev(x.0, x.1));
                if let Some(Ok(Some(n))) = v[..k].iter().find(|o| matches!(o, Ok(Some(_)))) {
                    let mut h = prev.clone();
                    h.extend(&e[..=j]);
                    ck().violate(
                        format!("{dst:?} receiver @ {f} Hz reports {n:?} while hearing {src:?} frame {w:#x}"),
                        replay_evs(dst, f, &h, &format!("source {src:?} word {w:#x}")),
                    );
                    return;
                }
            }
            prev = e;
        }
    })
}
