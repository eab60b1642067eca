//! Long histories: one or two building blocks repeated many times, so that any count of frames,
//! errors, repeats or edges that a receiver might keep passes every 8- and 16-bit boundary.
use crate::gen::*;
use crate::imp::*;
use crate::report::*;
use crate::spec::*;

pub struct Cycle {
    pub pk: Pk,
    pub f: u32,
    pub name: String,
    pub pre: Vec<Ev>,
    pub evs: Vec<Ev>,
    pub n: u32,
}

/// Single items past 65536, pairs of items past 256 repetitions.
pub fn cycles(pks: &[Pk], long: u32) -> Vec<Cycle> {
    let mut v = vec![];
    for &pk in pks {
        for f in [40_000u32, 1_000_000] {
            let its = stream_items(pk, f);
            let full = f == 40_000 || ck().thorough;
            for (i, a) in its.iter().enumerate() {
                let rep = a.name == "repeat";
                let n = if full { long } else { 300 };
                v.push(Cycle { pk, f, name: a.name.clone(), pre: vec![], evs: a.evs.clone(), n });
                if rep || ck().thorough {
                    v.push(Cycle { pk, f, name: format!("frame A, then {}", a.name), pre: its[0].evs.clone(), evs: a.evs.clone(), n });
                }
                if !full {
                    continue;
                }
                for (j, b) in its.iter().enumerate() {
                    if i != j {
                        let mut e = a.evs.clone();
                        e.extend(&b.evs);
                        v.push(Cycle { pk, f, name: format!("{}, {}", a.name, b.name), pre: vec![], evs: e, n: if ck().thorough { 2000 } else { 260 } });
                    }
                }
            }
        }
    }
    // longest first, for an even load
    v.sort_by_key(|c| std::cmp::Reverse(c.evs.len() as u64 * c.n as u64));
    v
}
/// Repetition counts after which probes are sent.
pub fn notable(n: u32) -> bool {
    n <= 20
        || (250..=260).contains(&n)
        || n % 1009 == 0
        || (n & (n - 1)) == 0
        || ((n + 1) & n) == 0
        || (n - 1) & (n - 2) == 0
        || n % 10_000 == 0
}

pub struct SoakStep<'a> {
    pub pk: Pk,
    pub f: u32,
    /// recent history, at least one whole cycle
    pub hist: &'a [Ev],
    pub imp: Out,
    /// reference verdict (pulse-distance protocols, outside rounding bands)
    pub rf: Option<Out>,
    pub is_repeat: bool,
}
pub trait SoakJudge: Sync {
    fn step(&self, _s: &SoakStep) -> Result<(), String> {
        Ok(())
    }
    fn boundary<P: Pr>(&self, _c: &Cycle, _rx: &Rx<P>) -> Result<(), String> {
        Ok(())
    }
}

pub fn soak<J: SoakJudge>(group: &str, cs: &[Cycle], j: &J) {
    ck().par(group, cs, |c| {
        crate::with_proto!(c.pk, P => one::<P, J>(c, j))
    });
}

fn one<P: Pr, J: SoakJudge>(c: &Cycle, j: &J) {
    let p = PD.contains(&c.pk).then(|| PdF::new(c.pk, c.f));
    let mut rf = p.is_some().then(RefPd::new);
    let mut rx = Rx::<P>::new(c.f);
    let mut hist: Vec<Ev> = vec![];
    let mut times = 0u32;
    let mut pos = 0usize;
    let fail = |w: String, times: u32, pos: usize| {
        if w == UNJUDGED {
            return;
        }
        let show = |v: &[Ev]| show_evs(v);
        ck().violate(
            format!("{:?} @ {} Hz, {} x {times} and {pos} edges: {w}", c.pk, c.f, c.name),
            format!(
                "kind edges\nproto {:?}\nfreq {}\nname {}\npre {}\ncycle {}\ntimes {times}\nedges {}\n",
                c.pk, c.f, c.name, show(&c.pre), show(&c.evs), show(&c.evs[..pos.min(c.evs.len())])
            ),
        );
    };
    let r = guard(|| {
        let mut ev = |e: Ev, rx: &mut Rx<P>, hist: &mut Vec<Ev>| -> Result<(), String> {
            hist.push(e);
            let mut rep = false;
            let mut want = None;
            if let (Some(p), Some(r)) = (&p, rf.as_mut()) {
                rep = e.0 && r.st == St::Idle && p.class(r.since + e.1 as u64) == Cls::Repeat;
                want = r.ev(p, e.0, e.1 as u64);
                if want.is_none() {
                    rf = None;
                }
            }
            let o = rx.ev(e.0, e.1);
            count(0, 1, 0);
            let (v, n) = outs(o);
            for imp in &v[..n] {
                j.step(&SoakStep { pk: c.pk, f: c.f, hist, imp: *imp, rf: want, is_repeat: rep }).map_err(|w| {
                    if w == UNJUDGED { w } else { format!("{w} (library {imp:?}, reference {want:?})") }
                })?;
            }
            Ok(())
        };
        for e in &c.pre {
            if let Err(w) = ev(*e, &mut rx, &mut hist) {
                return fail(w, 0, 0);
            }
        }
        while times < c.n && !stopped() {
            if hist.len() > 400 {
                hist.drain(..hist.len() - 200);
            }
            pos = 0;
            for e in &c.evs {
                pos += 1;
                if let Err(w) = ev(*e, &mut rx, &mut hist) {
                    return fail(w, times, pos);
                }
            }
            times += 1;
            pos = 0;
            count(1, 0, 0);
            if notable(times) {
                count(0, 0, 1);
                if let Err(w) = j.boundary::<P>(c, &rx) {
                    return fail(w, times, 0);
                }
            }
        }
        sample(|| format!("{:?} @ {} Hz: {} x {}", c.pk, c.f, c.name, c.n));
    });
    if let Err(e) = r {
        fail(e, times, pos);
    }
}
