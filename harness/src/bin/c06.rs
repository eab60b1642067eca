//! C06 NEC repeat frames repeat exactly the last complete command.
use irmc::*;

fn main() {
    let c = begin("C06");
    c.bound("5 NEC variants x {1 MHz, 40 kHz}: all sequences of 4 (thorough 5) items out of {frames A/B, cut frames, stretched frames, repeat, noise, foreign frames}; a repeat after every cut point and every one-interval corruption of a frame preceded by nothing/another frame; 300 repeats in a row; every in-tolerance repeat distance; all words of 8-bit windows");
    c.bound("every valid word of NEC, Samsung, Apple and 16-bit NEC, all 16-bit windows of the raw variant, each followed by two repeats, at 40 kHz (thorough: also 1 MHz and 31.25 kHz) on a receiver with a history");
    c.bound("long histories: every frame-level item (repeats also after a frame) 70000 times in a row, every pair 260 (thorough 2000) times, each followed at notable counts by frame, 2 repeats, cut frame, 2 repeats");
    c.assume("edges alternate; repeat distances inside a rounding band are not judged");
    let vis = |s: &Step| {
        let (a, b) = (s.imp.ok().flatten(), s.rf.ok().flatten());
        if a != b {
            Err(format!("reported {a:?}, expected {b:?}"))
        } else {
            Ok(())
        }
    };
    let fs = [1_000_000u32, 40_000];
    // sequences of items
    let mut items = vec![];
    for pk in NECS {
        for f in fs {
            let n = its(pk, f).len();
            for a in 0..n {
                for b in 0..n {
                    items.push((pk, f, a, b));
                }
            }
        }
    }
    c.par("item sequences", &items, |(pk, f, a, b)| {
        let p = PdF::new(*pk, *f);
        let its = its(*pk, *f);
        with_pd!(*pk, P => {
            let mut l = Lock::<P>::new(*f);
            let mut h = vec![];
            if its[*a].evs.iter().all(|e| l.ev(&p, &mut h, *e, &vis)) && its[*b].evs.iter().all(|e| l.ev(&p, &mut h, *e, &vis)) {
                rec::<P>(&p, &l, &its, if ck().thorough { 3 } else { 2 }, &mut h, &vis);
            }
        })
    });
    fn rec<P: Pr>(p: &PdF, l: &Lock<P>, its: &[Item], d: usize, h: &mut Vec<Ev>, vis: &Visit) {
        if d == 0 || stopped() {
            // always end with a repeat
            let n = h.len();
            let mut b = l.fork();
            let r = pd_repeat(p, gap(p.f));
            let _ = r.iter().all(|e| b.ev(p, h, *e, vis));
            sample(|| format!("{:?} @ {} Hz: {}", p.pk, p.f, show_evs(h)));
            h.truncate(n);
            count(0, 0, 1);
            return;
        }
        for it in its {
            let n = h.len();
            let mut b = l.fork();
            count(1, 0, 0);
            if it.evs.iter().all(|e| b.ev(p, h, *e, vis)) {
                rec(p, &b, its, d - 1, h, vis);
            }
            h.truncate(n);
        }
    }
    // cut and corrupted frames at every point, then repeat
    let mut items = vec![];
    for pk in NECS {
        for f in fs {
            for pre in 0..3 {
                for i in 0..=33usize {
                    items.push((pk, f, pre, i));
                }
            }
        }
    }
    c.par("every cut and corruption, then repeat", &items, |(pk, f, pre, i)| {
        let p = PdF::new(*pk, *f);
        let ws = base_words(*pk);
        let ls = pd_letters(&p, true);
        with_pd!(*pk, P => {
            let mut l = Lock::<P>::new(*f);
            let mut h = vec![];
            let mut ok = true;
            if *pre > 0 {
                ok = pd_frame(&p, ws[*pre as usize], gap(*f)).iter().all(|e| l.ev(&p, &mut h, *e, &vis));
            }
            let fr = pd_frame(&p, ws[0] ^ if *pk == Pk::Debug { 0x0F0F } else { 0 }, gap(*f));
            ok = ok && fr[..1 + 2 * i].iter().all(|e| l.ev(&p, &mut h, *e, &vis));
            if !ok { return; }
            let rep = pd_repeat(&p, gap(*f));
            let n = h.len();
            for le in &ls {
                for cont in [false, true] {
                    // corrupted here; then either silence or the rest of the frame; then 2 repeats, frame, repeat
                    let mut b = l.fork();
                    count(1, 0, 1);
                    let mut ok = b.letter(&p, &mut h, *le, &vis);
                    if cont { ok = ok && fr[(3 + 2 * i).min(fr.len() - 1)..].iter().all(|e| b.ev(&p, &mut h, *e, &vis)); }
                    else { ok = ok && b.ev(&p, &mut h, (false, ticks(500, *f)), &vis); }
                    let mut seq = rep.clone();
                    seq.extend(&rep);
                    seq.extend(pd_frame(&p, ws[2], gap(*f)));
                    seq.extend(&rep);
                    let _ = ok && seq.iter().all(|e| b.ev(&p, &mut h, *e, &vis));
                    sample(|| format!("{:?} @ {} Hz: {}", p.pk, p.f, show_evs(&h)));
                    h.truncate(n);
                }
            }
            // plain cut
            let mut b = l.fork();
            let mut seq = vec![(false, ticks(500, *f))];
            seq.extend(&rep);
            seq.extend(&rep);
            let _ = seq.iter().all(|e| b.ev(&p, &mut h, *e, &vis));
        })
    });
    // many repeats; noise between; all distances; words
    let mut items = vec![];
    for pk in NECS {
        for f in fs {
            for (i, ch) in window_words(pk, 8).chunks(512).enumerate() {
                items.push((pk, f, i, ch.to_vec()));
            }
        }
    }
    c.par("words, repeat counts, repeat distances", &items, |(pk, f, i, ws)| {
        let p = PdF::new(*pk, *f);
        with_pd!(*pk, P => {
            for (j, w) in ws.iter().enumerate() {
                let mut l = Lock::<P>::new(*f);
                let mut h = vec![];
                let mut ok = pd_frame(&p, *w, gap(*f)).iter().all(|e| l.ev(&p, &mut h, *e, &vis));
                let n = if *i == 0 && j < 3 { 300 } else { 2 };
                for k in 0..n {
                    let g = [ticks(40_000, *f), ticks(97_000, *f), u32::MAX, ticks(5_000, *f)][k % 4];
                    ok = ok && pd_repeat(&p, g).iter().all(|e| l.ev(&p, &mut h, *e, &vis));
                }
                count(1, 0, 1);
                if *i == 0 && j == 3 && ok {
                    let (lo, hi) = p.must(Cls::Repeat).unwrap();
                    let m = ticks(p.pd.repeat.unwrap().mark as u64, *f);
                    for d in lo..=hi {
                        let mut b = l.fork();
                        let n = h.len();
                        let _ = b.ev(&p, &mut h, (true, gap(*f)), &vis) && b.letter(&p, &mut h, (m, d as u32 - m), &vis);
                        count(1, 0, 1);
                        h.truncate(n);
                    }
                }
                if stopped() { return; }
            }
        })
    });
    // every command there is, then repeats
    let mut items = vec![];
    for pk in NECS {
        for f in if c.thorough { vec![40_000u32, 1_000_000, 31_250] } else { vec![40_000] } {
            for i in 0..256u64 {
                items.push((pk, f, i));
            }
        }
    }
    c.par("every valid word, then two repeats", &items, |(pk, f, i)| {
        // raw variant: 16-bit windows
        let f = *f;
        let p = PdF::new(*pk, f);
        let g = gap(f);
        let rep = pd_repeat(&p, g);
        let n = if *pk == Pk::Debug { 3 << 16 } else { valid_count(*pk) };
        let word = |k: u64| match *pk {
            Pk::Debug => (k & 0xFFFF) << (8 * (k >> 16)) | [0, 0x0040_0001, 0x0000_8000][(k >> 16) as usize] & !(0xFFFF << (8 * (k >> 16))),
            _ => valid_word(*pk, k),
        };
        with_pd!(*pk, P => {
            let mut r = Rx::<P>::new(f);
            let mut k = *i;
            while k < n {
                {
                    let w = word(k);
                    let mut got = [None; 3];
                    let mut m = 0;
                    for e in pd_frame(&p, w, g).iter().chain(&rep).chain(&rep) {
                        let (o, cnt) = outs(r.ev(e.0, e.1));
                        for o in &o[..cnt] {
                            if *o != Ok(None) {
                                if m < 3 { got[m] = o.ok().flatten(); }
                                m += 1;
                            }
                        }
                    }
                    let want = [meaning(*pk, w, false), meaning(*pk, w, true), meaning(*pk, w, true)];
                    count(1, 72, 1);
                    if m != 3 || got != want {
                        let mut evs = pd_frame(&p, w, g);
                        evs.extend(&rep);
                        evs.extend(&rep);
                        ck().violate(format!("{pk:?} @ {f} Hz: frame with word {w:#x}, two repeats: {m} reports {got:?}, expected {want:?}"), replay_evs(*pk, f, &evs, "frame, repeat, repeat"));
                        return;
                    }
                }
                k += 256;
                if stopped() { return; }
            }
        })
    });
    reach_pd("reachable states", &NECS, false, &vis, &Nothing);
    soak("long histories", &cycles(&NECS, 70_000), &Soak);
    c.finish();
}

struct Soak;
impl SoakJudge for Soak {
    fn step(&self, s: &SoakStep) -> Result<(), String> {
        let Some(rf) = s.rf else { return Ok(()) };
        let (a, b) = (s.imp.ok().flatten(), rf.ok().flatten());
        if a == b { Ok(()) } else { Err(format!("reported {a:?}, expected {b:?}")) }
    }
    /// After any number of cycles: a frame, two repeats; a cut frame, a repeat.
    fn boundary<P: Pr>(&self, c: &Cycle, rx: &Rx<P>) -> Result<(), String> {
        let p = PdF::new(c.pk, c.f);
        let ws = base_words(c.pk);
        let (mut b, mut rf) = (rx.fork(), RefPd::new());
        let mut s = pd_frame(&p, ws[1], gap(c.f));
        for _ in 0..2 {
            s.extend(pd_repeat(&p, gap(c.f)));
        }
        s.extend(&pd_frame(&p, ws[2], gap(c.f))[..40]);
        s.extend(pd_repeat(&p, gap(c.f)));
        s.extend(pd_repeat(&p, gap(c.f)));
        count(0, s.len() as u64, 0);
        for (i, e) in s.iter().enumerate() {
            let o = b.ev(e.0, e.1);
            let w = rf.ev(&p, e.0, e.1 as u64).unwrap();
            let (v, n) = outs(o);
            for o in &v[..n] {
                if o.ok().flatten() != w.ok().flatten() {
                    return Err(format!("then, in frame/repeat/repeat/cut frame/repeat/repeat, {o:?} at edge {i}, expected {w:?}"));
                }
            }
        }
        Ok(())
    }
}

fn its(pk: Pk, f: u32) -> Vec<Item> {
    let mut v = stream_items(pk, f);
    if !ck().thorough {
        v.retain(|i| {
            !["frame B stretched at 5", "burst", "frame B cut after 1 edges", "foreign nec"].contains(&i.name.as_str())
        });
    }
    v
}
