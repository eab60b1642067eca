//! C03 Frames within timing tolerance decode to exactly the transmitted word.
use irmc::*;

fn main() {
    let c = begin("C03");
    c.bound("all 2^16 NEC/Samsung words, 2^24 16-bit NEC words, 2^20 Apple words, 2^13 RC-5 words, 2^17 RC-6 words; raw NEC/Denon/Samsung-BluRay: all 16-bit windows over 4 backgrounds (thorough: all 2^32 raw NEC words)");
    c.bound("tolerance: every in-tolerance tick length of every interval of base words; all lo/nom/hi assignments of 7 consecutive intervals; uniform and alternating lo/hi over all words of the word sets");
    c.bound("frequencies: 8 representative ones; uniform nominal/lo/hi frames of base words at every frequency 20..120 kHz and a geometric sweep to 4.29 GHz");
    c.assume("lengths inside the rounding band (2.5 ticks + 0.35 %) around a tolerance limit are not judged");
    words();
    tolerance();
    sweep();
    c.finish();
}

fn expect(pk: Pk, f: u32, word: u64, evs: &[Ev], done: usize) {
    if stopped() {
        return;
    }
    let Some(want) = meaning(pk, word, false) else { return };
    with_proto!(pk, P => {
        let mut r = Rx::<P>::new(f);
        count(evs.len() as u64, evs.len() as u64, 1);
        sample(|| format!("{pk:?} @ {f} Hz word {word:#x}: {}", show_evs(evs)));
        let ev = evs.to_vec();
        for (i, e) in evs.iter().enumerate() {
            let o = tracked(P::NAME, f, &ev, || r.ev(e.0, e.1));
            let w: Out = Ok(if i == done { Some(want) } else { None });
            if o != w {
                ck().violate(
                    format!("{pk:?} @ {f} Hz word {word:#x}: edge {i} reported {o:?}, expected {w:?}"),
                    replay_evs(pk, f, &evs[..=i], &format!("word {word:#x}")),
                );
                return;
            }
        }
    })
}

/// Word trees: all words sharing a prefix share the work.
fn words() {
    let c = ck();
    // valid words through complete frames: (pk, f, first index, count)
    let mut items = vec![];
    for pk in [Pk::Nec, Pk::Samsung, Pk::Apple, Pk::Rc5, Pk::Rc6] {
        let n = valid_count(pk);
        let fs: &[u32] = if n <= 1 << 17 { &RX_FREQS } else { &[1_000_000] };
        for f in fs {
            let mut i = 0;
            while i < n {
                items.push((pk, *f, i, (n - i).min(4096)));
                i += 4096;
            }
        }
    }
    c.par("all valid words, nominal", &items, |(pk, f, a, n)| {
        if !claimable(*pk, *f) {
            return;
        }
        for i in *a..a + n {
            let w = valid_word(*pk, i);
            let (e, d) = frame(*pk, *f, w, gap(*f));
            expect(*pk, *f, w, &e, d);
        }
    });
    // 16-bit NEC and raw NEC by depth-first search with forking
    let mut items = vec![];
    for top in 0..256u64 {
        items.push((Pk::Nec16, 1_000_000u32, top));
        if c.thorough {
            items.push((Pk::Debug, 1_000_000u32, top));
        }
    }
    c.par("word trees (16-bit NEC; thorough: raw NEC)", &items, |(pk, f, first)| {
        let p = PdF::new(*pk, *f);
        with_pd!(*pk, P => {
            let mut r = Rx::<P>::new(*f);
            let _ = r.ev(true, gap(*f));
            let (m, d) = p.nom(Seg::Header, 0);
            let _ = r.ev(false, m);
            let _ = r.ev(true, d - m);
            let mut ok = true;
            for b in 0..8 {
                ok &= bit(&p, &mut r, *first, b);
            }
            if !ok { ck().violate(format!("{pk:?}: output inside a frame"), format!("proto {pk:?}\nfreq {f}\nword {first:#x}\n")); return; }
            tree::<P>(&p, &r, *first, 8);
        })
    });
    fn bit<P: Pr>(p: &PdF, r: &mut Rx<P>, w: u64, b: usize) -> bool {
        let (m, d) = p.nom(Seg::Bit(b), w);
        count(1, 2, 0);
        r.ev(false, m) == Ok(None) && r.ev(true, d - m) == Ok(None)
    }
    fn tree<P: Pr>(p: &PdF, r: &Rx<P>, w: u64, b: usize) {
        if stopped() {
            return;
        }
        for v in 0..2u64 {
            // for 16-bit NEC the top byte is the complement of the command byte
            if p.pk == Pk::Nec16 && b >= 24 && v == (w >> (b - 8)) & 1 {
                continue;
            }
            let w2 = w | v << b;
            let mut x = r.fork();
            let (m, d) = p.nom(Seg::Bit(b), w2);
            count(1, 2, 0);
            let a = x.ev(false, m);
            let o = x.ev(true, d - m);
            let want: Out = Ok(if b == 31 { meaning(p.pk, w2, false) } else { None });
            if a != Ok(None) || o != want {
                let e = pd_frame(p, w2, gap(p.f));
                ck().violate(
                    format!("{:?} @ {} Hz word {w2:#x}: bit {b} reported {a:?}/{o:?}, expected {want:?}", p.pk, p.f),
                    replay_evs(p.pk, p.f, &e[..2 * b + 5], ""),
                );
                return;
            }
            if b < 31 {
                tree(p, &x, w2, b + 1);
            } else {
                count(0, 0, 1);
            }
        }
    }
    // windows
    let mut items = vec![];
    for pk in [Pk::Debug, Pk::Denon, Pk::Sbp] {
        let ws = window_words(pk, if c.thorough { 18 } else { 16 });
        for ch in ws.chunks(8192) {
            items.push((pk, 1_000_000u32, ch.to_vec()));
        }
        let ws = window_words(pk, 8);
        for f in RX_FREQS {
            items.push((pk, f, ws.clone()));
        }
    }
    // words without the redundancy of their variant
    for pk in [Pk::Nec, Pk::Samsung, Pk::Nec16] {
        let ws = window_words(pk, 12);
        for ch in ws.chunks(8192) {
            items.push((pk, 1_000_000u32, ch.to_vec()));
            items.push((pk, 40_000, ch.to_vec()));
        }
    }
    c.par("all bit windows", &items, |(pk, f, ws)| {
        if !claimable(*pk, *f) {
            return;
        }
        let p = PdF::new(*pk, *f);
        for w in ws {
            let e = pd_frame(&p, *w, gap(*f));
            expect(*pk, *f, *w, &e, pd_done(&p));
        }
    });
}

/// Are nominal lengths safely inside the tolerance at this frequency?
fn claimable(pk: Pk, f: u32) -> bool {
    if PD.contains(&pk) {
        return PdF::new(pk, f).usable();
    }
    let us: &[u8] = if pk == Pk::Rc5 { &[1, 2] } else { &[1, 2, 3, 6] };
    us.iter().all(|u| {
        let n = ticks(unit(pk) as u64 * *u as u64, f) as u64;
        matches!(run_ranges(pk, *u, f).0, Some((l, h)) if n >= l && n <= h)
    })
}

/// The frame with interval classes scaled: `sel(i)` in {0 lo, 1 nom, 2 hi} per interval.
fn scaled(pk: Pk, f: u32, w: u64, sel: &dyn Fn(usize) -> u8, split: u8) -> Option<(Vec<Ev>, usize)> {
    let pick = |(l, h): (u64, u64), n: u64, s: u8| match s {
        0 => l,
        1 => n,
        _ => h,
    };
    if PD.contains(&pk) {
        let p = PdF::new(pk, f);
        let mut v = vec![(true, gap(f))];
        for (i, s) in p.segs.iter().enumerate() {
            let sy = p.pd.sym(*s, w);
            let (cls, _, mu, _) = p.table.iter().find(|t| t.1.dist() == sy.dist()).unwrap();
            debug_assert!(*cls != Cls::Repeat);
            let n = ticks(sy.dist() as u64, f) as u64;
            let d = pick((*mu)?, n, sel(i));
            let m = match split {
                0 => ticks(sy.mark as u64, f) as u64,
                1 => 1,
                _ => d - 1,
            }
            .min(d);
            v.push((false, m as u32));
            v.push((true, (d - m) as u32));
        }
        v.push((false, ticks(p.pd.tail as u64, f)));
        Some((v, pd_done(&p)))
    } else {
        let (r, done) = runs(pk, w, 0);
        let mut v = vec![(true, gap(f))];
        for (i, u) in r.iter().enumerate() {
            let mu = run_ranges(pk, *u, f).0?;
            let n = ticks(unit(pk) as u64 * *u as u64, f) as u64;
            v.push((i % 2 == 1, pick(mu, n, sel(i)) as u32));
        }
        Some((v, done))
    }
}
fn intervals(pk: Pk, w: u64) -> usize {
    if PD.contains(&pk) {
        pd(pk).segs().len()
    } else {
        runs(pk, w, 0).0.len()
    }
}

fn tolerance() {
    let c = ck();
    // uniform and alternating extremes over many words
    let mut items = vec![];
    for pk in ALL {
        let ws = match pk {
            Pk::Rc5 => (0..1 << 13).collect::<Vec<u64>>(),
            Pk::Rc6 => (0..1 << 17).step_by(if c.thorough { 1 } else { 5 }).collect(),
            Pk::Apple => (0..1 << 20).step_by(257).map(|i| valid_word(pk, i)).collect(),
            Pk::Nec | Pk::Samsung | Pk::Nec16 => {
                (0..1 << 16).step_by(7).map(|i| valid_word(pk, i * if pk == Pk::Nec16 { 251 } else { 1 })).collect()
            }
            _ => window_words(pk, 8),
        };
        for f in RX_FREQS {
            if claimable(pk, f) {
                for ch in ws.chunks(1024) {
                    items.push((pk, f, ch.to_vec()));
                }
            }
        }
    }
    c.par("uniform/alternating extremes", &items, |(pk, f, ws)| {
        let full = *f == 1_000_000 || ck().thorough;
        for (j, w) in ws.iter().enumerate() {
            for pat in 0..6u8 {
                if !full && (j + pat as usize) % 4 != 0 {
                    continue;
                }
                let sel = |i: usize| match pat {
                    0 => 0,
                    1 => 2,
                    2 => ((i % 2) * 2) as u8,
                    3 => 2 - ((i % 2) * 2) as u8,
                    4 => (i % 3) as u8,
                    _ => ((i / 2) % 2 * 2) as u8,
                };
                if let Some((e, d)) = scaled(*pk, *f, *w, &sel, pat % 3) {
                    expect(*pk, *f, *w, &e, d);
                }
            }
        }
    });
    // all lo/nom/hi assignments of 7 consecutive intervals
    let mut items = vec![];
    for pk in ALL {
        for f in [1_000_000u32, 100_000] {
            for w in base_words(pk) {
                if claimable(pk, f) {
                    for o in 0..intervals(pk, w) {
                        items.push((pk, f, w, o));
                    }
                }
            }
        }
    }
    c.par("all lo/nom/hi assignments of 7 intervals", &items, |(pk, f, w, o)| {
        let mut n = 3u32.pow(7);
        while n > 0 {
            n -= 1;
            let sel = |i: usize| {
                if i < *o || i >= o + 7 {
                    1
                } else {
                    (n / 3u32.pow((i - o) as u32) % 3) as u8
                }
            };
            if let Some((e, d)) = scaled(*pk, *f, *w, &sel, 0) {
                expect(*pk, *f, *w, &e, d);
            }
        }
    });
    // every tick length of every interval
    let mut items = vec![];
    for pk in ALL {
        for f in [1_000_000u32, 40_000, 38_222, 500_001, 8_000_000] {
            for w in base_words(pk) {
                if claimable(pk, f) {
                    for i in 0..intervals(pk, w) {
                        items.push((pk, f, w, i));
                    }
                }
            }
        }
    }
    c.par("every in-tolerance length of every interval", &items, |(pk, f, w, i)| {
        if PD.contains(pk) {
            let p = PdF::new(*pk, *f);
            let base = pd_frame(&p, *w, gap(*f));
            let sy = p.pd.sym(p.segs[*i], *w);
            let (_, _, mu, _) = p.table.iter().find(|t| t.1.dist() == sy.dist()).unwrap();
            let Some((l, h)) = mu else { return };
            let st = if *f > 1_000_000 { 13 } else { 1 };
            for d in (*l..=*h).step_by(st) {
                let mut e = base.clone();
                let m = e[1 + 2 * i].1;
                let m = (m as u64).min(d) as u32;
                e[1 + 2 * i].1 = m;
                e[2 + 2 * i].1 = (d - m as u64) as u32;
                expect(*pk, *f, *w, &e, pd_done(&p));
                // the split between mark and space is irrelevant
                if d % 16 == 0 {
                    e[1 + 2 * i].1 = (d / 3) as u32;
                    e[2 + 2 * i].1 = (d - d / 3) as u32;
                    expect(*pk, *f, *w, &e, pd_done(&p));
                }
            }
        } else {
            let (r, done) = runs(*pk, *w, 0);
            let (base, _) = mc_frame(*pk, *f, *w, 0, gap(*f));
            let Some((l, h)) = run_ranges(*pk, r[*i], *f).0 else { return };
            for d in l..=h {
                let mut e = base.clone();
                e[1 + i].1 = d as u32;
                expect(*pk, *f, *w, &e, done);
            }
        }
    });
}

fn sweep() {
    let c = ck();
    let mut fs: Vec<u32> = (20_000..120_000).collect();
    let mut x = 120_000f64;
    while x < 4.29e9 {
        fs.push(x as u32);
        fs.push(x as u32 / 1000 * 1000 + 999);
        x *= if c.thorough { 1.0003 } else { 1.003 };
    }
    fs.push(u32::MAX);
    let mut items = vec![];
    for pk in ALL {
        for ch in fs.chunks(500) {
            items.push((pk, ch.to_vec()));
        }
    }
    c.par("frequency sweep", &items, |(pk, fs)| {
        let ws = base_words(*pk);
        for f in fs {
            if !claimable(*pk, *f) {
                continue;
            }
            let w = ws[2 + (*f as usize) % (ws.len() - 2)];
            let (e, d) = frame(*pk, *f, w, gap(*f));
            expect(*pk, *f, w, &e, d);
            for s in [0u8, 2] {
                if let Some((e, d)) = scaled(*pk, *f, w, &|_| s, 0) {
                    expect(*pk, *f, w, &e, d);
                }
            }
        }
    });
}
