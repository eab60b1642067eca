//! C20 Broken frames are reported as errors exactly once; nothing else is.
use irmc::*;

fn main() {
    let c = begin("C20");
    c.bound("pulse-distance: frames of all 15-bit (thorough 17) windows of the word (36- and 48-bit words: 13, 15) over 4 backgrounds at 1 MHz, 10-bit at 40 kHz: cut short in the last bits, then whole, then a repeat");
    c.bound("same exploration as C04 for the 7 pulse-distance protocols; RC-5/RC-6: all sequences of <= 3 frame-level items, frames cut/stretched at every edge, all letter sequences up to length 5");
    c.bound("long histories: every frame-level item 66000 times in a row, every pair of items 260 (thorough 2000) times in a row, 9 protocols");
    c.assume("edges alternate; intervals inside a rounding band are not judged");
    let vis = |s: &Step| {
        let (a, b) = (s.imp.err(), s.rf.err());
        if a != b {
            Err(format!("reported error {a:?}, expected {b:?}"))
        } else {
            Ok(())
        }
    };
    explore_pd(&vis);
    // RC-5 / RC-6 never report errors
    let mut items = vec![];
    for pk in [Pk::Rc5, Pk::Rc6] {
        for f in [1_000_000u32, 40_000] {
            for a in 0..stream_items(pk, f).len() {
                items.push((pk, f, a));
            }
        }
    }
    c.par("RC item sequences", &items, |(pk, f, a)| {
        let its = stream_items(*pk, *f);
        for b in &its {
            for d in &its {
                let mut s = its[*a].evs.clone();
                s.extend(&b.evs);
                s.extend(&d.evs);
                s.push((true, gap(*f)));
                no_err(*pk, *f, &s);
            }
        }
    });
    let mut items = vec![];
    for pk in [Pk::Rc5, Pk::Rc6] {
        for f in [1_000_000u32, 40_000] {
            for w in base_words(pk) {
                let (fr, _) = frame(pk, f, w, gap(f));
                for i in 0..fr.len() {
                    items.push((pk, f, w, i));
                }
            }
        }
    }
    c.par("RC frames with two replaced intervals", &items, |(pk, f, w, i)| {
        let ls = mc_letters(*pk, *f);
        let (fr, _) = frame(*pk, *f, *w, gap(*f));
        for a in &ls {
            for j in *i + 1..fr.len() {
                for b in &ls {
                    let mut s = fr.clone();
                    s[*i].1 = *a;
                    s[j].1 = *b;
                    no_err(*pk, *f, &s);
                }
            }
        }
    });
    let mut items = vec![];
    for pk in [Pk::Rc5, Pk::Rc6] {
        for f in [1_000_000u32, 40_000] {
            for a in mc_letters(pk, f) {
                items.push((pk, f, a));
            }
        }
    }
    c.par("RC letter sequences", &items, |(pk, f, a)| {
        let ls = mc_letters(*pk, *f);
        for mut s in noise(&ls, if ck().thorough { 5 } else { 4 }) {
            s.insert(0, (false, *a));
            no_err(*pk, *f, &s);
        }
    });
    reach_pd("reachable states, pulse distance", &PD, false, &vis, &Nothing);
    reach_mc("reachable states, Manchester", true, &Nothing);
    soak("long histories", &cycles(&ALL, 66_000), &Soak);
    c.finish();
}

struct Soak;
impl SoakJudge for Soak {
    fn step(&self, s: &SoakStep) -> Result<(), String> {
        let want = match s.rf {
            Some(r) => r.err(),
            None if PD.contains(&s.pk) => return Ok(()),
            None => None,
        };
        if s.imp.err() == want { Ok(()) } else { Err(format!("reported error {:?}, expected {want:?}", s.imp.err())) }
    }
}

fn no_err(pk: Pk, f: u32, s: &[Ev]) {
    if stopped() {
        return;
    }
    with_proto!(pk, P => {
        let mut r = Rx::<P>::new(f);
        count(s.len() as u64, s.len() as u64, 1);
        sample(|| format!("{pk:?} @ {f} Hz: {}", show_evs(s)));
        for (i, e) in s.iter().enumerate() {
            let (v, n) = outs(r.ev(e.0, e.1));
            if let Some(Err(x)) = v[..n].iter().find(|o| o.is_err()) {
                ck().violate(
                    format!("{pk:?} @ {f} Hz reported {x:?}; this receiver never reports errors"),
                    replay_evs(pk, f, &s[..=i], ""),
                );
                return;
            }
        }
    })
}
