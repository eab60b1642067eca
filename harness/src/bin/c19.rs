//! C19 Pulse-distance protocols tolerate missed falling edges.
use irmc::*;

fn main() {
    let c = begin("C19");
    c.bound("7 pulse-distance protocols; every subset of missed falling edges that switches between missed and delivered at most 3 (thorough 4) times, all periodic patterns of period <= 10, all subsets of 14 consecutive edges; base words and 8-bit window words; optional earlier broken/complete frame with and without missed edges; frames preceded by 0..530 spikes; 66 200 (thorough 200 000) frames in a row under 7 patterns");
    let mut items = vec![];
    for pk in PD {
        for f in [1_000_000u32, 40_000] {
            if PdF::new(pk, f).usable() {
                let np = pats(PdF::new(pk, f).segs.len() + 1).len();
                for w in base_words(pk) {
                    for m in 0..np / 2048 + 1 {
                        items.push((pk, f, w, m));
                    }
                }
            }
        }
    }
    c.par("miss patterns on base words", &items, |(pk, f, w, m)| {
        let p = PdF::new(*pk, *f);
        for pat in pats(p.segs.len() + 1).iter().skip(m * 2048).take(2048) {
            go(&p, *w, *pat, 0);
        }
    });
    let mut items = vec![];
    for pk in PD {
        for ch in window_words(pk, 8).chunks(256) {
            items.push((pk, ch.to_vec()));
        }
    }
    c.par("few patterns on all window words", &items, |(pk, ws)| {
        let p = PdF::new(*pk, 1_000_000);
        for w in ws {
            let w = if *pk == Pk::Apple { apple_word(w & 0x1F, (w >> 17) & 0x7F, w >> 24) } else { *w };
            for pat in [!0u64, 0xAAAA_AAAA_AAAA_AAAA, 0x5555_5555_5555_5555, 0xFFFF_FFFF, 0xFFFF_FFFF_0000_0000, 0x0F0F_0F0F_0F0F_0F0F] {
                go(&p, w, pat, 0);
            }
        }
    });
    let mut items = vec![];
    for pk in PD {
        for cut in 0..=PdF::new(pk, 1_000_000).segs.len() {
            items.push((pk, cut));
        }
    }
    c.par("after a cut frame", &items, |(pk, cut)| {
        let p = PdF::new(*pk, 1_000_000);
        for pat in [!0u64, 0xAAAA_AAAA_AAAA_AAAA, 0x5555_5555_5555_5555, 0xFFFF_FFFF, 0] {
            for w in base_words(*pk) {
                go(&p, w, pat, cut + 1);
            }
        }
    });
    let mut items = vec![];
    for pk in PD {
        for n in 0..=if c.thorough { 1100usize } else { 530 } {
            items.push((pk, n));
        }
    }
    c.par("after spikes", &items, |(pk, n)| {
        let p = PdF::new(*pk, 1_000_000);
        for pat in [!0u64, 0xAAAA_AAAA_AAAA_AAAA, 1, 0] {
            go_noisy(&p, base_words(*pk)[2], pat, 0, *n);
            go_noisy(&p, base_words(*pk)[2], pat, 7, *n);
        }
    });
    let mut items = vec![];
    for pk in PD {
        for pat in [!0u64, 0xAAAA_AAAA_AAAA_AAAA, 0x5555_5555_5555_5555, 1, 1 << 1, 0xFFFF_0000_FFFF_0000, 0x4924_9249_2492_4924] {
            for f in [40_000u32, 1_000_000] {
                items.push((pk, f, pat));
            }
        }
    }
    c.par("tens of thousands of frames", &items, |(pk, f, pat)| {
        let p = PdF::new(*pk, *f);
        if !p.usable() {
            return;
        }
        let frames: Vec<_> = base_words(*pk)
            .into_iter()
            .filter_map(|w| Some((w, meaning(*pk, w, false)?, thin(&pd_frame(&p, w, gap(*f)), *pat))))
            .collect();
        let n = if ck().thorough { 200_000 } else { 66_200 };
        with_pd!(*pk, P => {
            let mut r = Rx::<P>::new(*f);
            for i in 0..n {
                if stopped() {
                    return;
                }
                let (w, want, ev) = &frames[i % frames.len()];
                count(1, ev.len() as u64, 0);
                for (k, (j, e)) in ev.iter().enumerate() {
                    let o = r.ev(e.0, e.1);
                    let x: Out = Ok(if *j == pd_done(&p) { Some(*want) } else { None });
                    if o != x && !(k == 0 && o.is_err()) {
                        ck().violate(
                            format!("{pk:?} @ {f} Hz, frame {i} (word {w:#x}), missed falling edges {pat:#x}: reported {o:?}, expected {x:?}"),
                            replay_evs(*pk, *f, &ev.iter().map(|x| x.1).collect::<Vec<_>>(), &format!("after {i} such frames")),
                        );
                        return;
                    }
                }
            }
            count(0, 0, 1);
        })
    });
    reach_pd(
        "reachable states",
        &PD,
        true,
        &|s: &Step| {
            let (a, b) = (s.imp.ok().flatten(), s.rf.ok().flatten());
            if s.is_repeat || a == b {
                Ok(())
            } else if a.is_some_and(|n| explains_pd(&PdF::new(s.pk, s.f), s.hist, &n)) {
                Err(UNJUDGED.into())
            } else {
                Err(format!("reported {a:?}, expected {b:?}"))
            }
        },
        &Nothing,
    );
    c.finish();
}

fn pats(n: usize) -> &'static [u64] {
    static M: std::sync::Mutex<std::collections::BTreeMap<usize, &'static [u64]>> =
        std::sync::Mutex::new(std::collections::BTreeMap::new());
    let mut g = M.lock().unwrap();
    g.entry(n).or_insert_with(|| Box::leak(patterns(n).into_boxed_slice()))
}

/// Bit i set: the falling edge inside segment i is missed.
fn patterns(n: usize) -> Vec<u64> {
    let mut v = std::collections::BTreeSet::new();
    let m = if n >= 64 { !0 } else { (1u64 << n) - 1 };
    v.insert(0);
    v.insert(m);
    // <= 3 switches (4 runs)
    let hi = |a: usize| if a >= 64 { 0 } else { !0u64 << a };
    for a in 0..=n {
        for b in a..=n {
            for d in b..=n {
                for inv in [0, !0u64] {
                    let x = (hi(a) ^ hi(b) ^ hi(d)) ^ inv;
                    v.insert(x & m);
                    if ck().thorough {
                        for e in d..=n {
                            v.insert((x ^ hi(e)) & m);
                        }
                    }
                }
            }
        }
    }
    for per in 1..=10usize {
        for x in 0..1u64 << per {
            let mut y = 0;
            for i in 0..n {
                if (x >> (i % per)) & 1 == 1 {
                    y |= 1 << i;
                }
            }
            v.insert(y);
        }
    }
    for x in 0..1u64 << 14 {
        v.insert(x & m);
        v.insert((x << (n - 14)) & m);
        v.insert(((x << (n / 2 - 7)) & m) ^ m);
    }
    v.into_iter().collect()
}

fn thin(evs: &[Ev], pat: u64) -> Vec<(usize, Ev)> {
    let mut out = vec![];
    let mut carry = 0u32;
    let mut seg = 0;
    for (i, e) in evs.iter().enumerate() {
        if !e.0 {
            let miss = (pat >> (seg % 64)) & 1 == 1;
            seg += 1;
            if miss {
                carry += e.1;
                continue;
            }
        }
        out.push((i, (e.0, e.1 + carry)));
        carry = 0;
    }
    out
}

fn go(p: &PdF, word: u64, pat: u64, cut: usize) {
    go_noisy(p, word, pat, cut, 0)
}
fn go_noisy(p: &PdF, word: u64, pat: u64, cut: usize, noise: usize) {
    if stopped() {
        return;
    }
    let Some(want) = meaning(p.pk, word, false) else { return };
    let fr = pd_frame(p, word, gap(p.f));
    let ev = thin(&fr, pat);
    with_pd!(p.pk, P => {
        let mut r = Rx::<P>::new(p.f);
        let mut h = vec![];
        if cut > 0 {
            // an earlier frame, broken off, its falling edges thinned out the other way
            let pre = pd_frame(p, !word & mask(p.pk), gap(p.f));
            let pre = thin(&pre[..2 * cut], !pat);
            for (_, e) in pre {
                h.push(e);
                let _ = tracked(P::NAME, p.f, &h, || r.ev(e.0, e.1));
            }
        }
        // spikes: one in two with its falling edge missed
        for i in 0..noise {
            let u = ticks(130, p.f);
            let es: &[Ev] = if i % 2 == 0 { &[(true, 2 * u)] } else { &[(true, u), (false, u)] };
            for e in es {
                h.push(*e);
                let _ = tracked(P::NAME, p.f, &h, || r.ev(e.0, e.1));
            }
        }
        count((ev.len() + noise) as u64, (ev.len() + noise) as u64, 1);
        sample(|| format!("{:?} word {word:#x} missed falling edges {pat:#x}", p.pk));
        for (k, (i, e)) in ev.iter().enumerate() {
            h.push(*e);
            let o = tracked(P::NAME, p.f, &h, || r.ev(e.0, e.1));
            let w: Out = Ok(if *i == pd_done(p) { Some(want) } else { None });
            if o != w && !(k == 0 && o.is_err()) {
                ck().violate(
                    format!("{:?} @ {} Hz word {word:#x}, missed falling edges {pat:#x}: reported {o:?}, expected {w:?}", p.pk, p.f),
                    replay_evs(p.pk, p.f, &h, ""),
                );
                return;
            }
        }
    })
}
