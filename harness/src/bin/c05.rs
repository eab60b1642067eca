//! C05 Earlier input never leaks into a later frame.
use irmc::*;

fn main() {
    let c = begin("C05");
    c.bound("histories: every prefix of every frame of base words with <=1 (thorough/1 MHz word: 2) replaced/inserted/deleted interval; every prefix of frames of all other protocols; all sequences of 2 (thorough 3) frame-level items; all letter sequences up to length 4; gaps 20 ms, 25 ms, 3 s, longest; 3-4 probe words each");
    c.bound("long histories: every frame-level item 66000 times in a row, every pair of items 260 (thorough 2000) times in a row, probed at ~120 counts around powers of two and multiples of 1009");
    c.assume("edges alternate");
    let mut items: Vec<(Pk, u32, u8, usize)> = vec![];
    for pk in ALL {
        for f in [1_000_000u32, 40_000] {
            for (wi, _) in base_words(pk).iter().enumerate() {
                for i in 0..110 {
                    items.push((pk, f, 0, wi * 1000 + i));
                }
            }
        }
    }
    c.par("prefixes of frames with a deviation", &items, |(pk, f, _, x)| {
        with_proto!(*pk, P => deviations::<P>(*f, x / 1000, x % 1000))
    });
    let mut items = vec![];
    for pk in ALL {
        for f in [1_000_000u32, 40_000] {
            for other in ALL {
                items.push((pk, f, other));
            }
        }
    }
    c.par("prefixes of foreign frames", &items, |(pk, f, other)| {
        with_proto!(*pk, P => {
            let ctx = Ctx::<P>::new(*f);
            for w in base_words(*other) {
                let (e, _) = frame(*other, *f, w, gap(*f));
                let mut t = Tr::<P>::new(*f);
                for x in &e {
                    t.ev(*x);
                    ctx.probe(&t);
                }
                // the frame twice, tightly
                for x in &e {
                    t.ev((x.0, x.1.min(ticks(3000, *f))));
                    ctx.probe(&t);
                }
            }
        })
    });
    let mut items = vec![];
    for pk in ALL {
        for f in [1_000_000u32, 40_000] {
            for a in 0..stream_items(pk, f).len() {
                items.push((pk, f, a));
            }
        }
    }
    c.par("frame-level item sequences", &items, |(pk, f, a)| {
        with_proto!(*pk, P => {
            let ctx = Ctx::<P>::new(*f);
            let its = stream_items(*pk, *f);
            let mut t = Tr::<P>::new(*f);
            for e in &its[*a].evs { t.ev(*e); }
            rec(&ctx, &t, &its, if ck().thorough { 3 } else { 2 });
        });
        fn rec<P: Pr>(ctx: &Ctx<P>, t: &Tr<P>, its: &[Item], d: usize) {
            ctx.probe(t);
            if d == 0 || stopped() { return; }
            for it in its {
                let mut b = t.fork();
                for e in &it.evs { b.ev(*e); }
                rec(ctx, &b, its, d - 1);
            }
        }
    });
    let mut items = vec![];
    for pk in ALL {
        for f in [1_000_000u32, 40_000] {
            for a in letters(pk, f) {
                items.push((pk, f, a));
            }
        }
    }
    c.par("letter sequences", &items, |(pk, f, a)| {
        with_proto!(*pk, P => {
            let ctx = Ctx::<P>::new(*f);
            let ls = letters(*pk, *f);
            let mut t = Tr::<P>::new(*f);
            t.ev((true, *a));
            rec(&ctx, &t, &ls, if ck().thorough { 4 } else { 3 });
        });
        fn rec<P: Pr>(ctx: &Ctx<P>, t: &Tr<P>, ls: &[u32], d: usize) {
            ctx.probe1(t);
            if d == 0 || stopped() { return; }
            for l in ls {
                let mut b = t.fork();
                b.ev((!t.lv, *l));
                rec(ctx, &b, ls, d - 1);
            }
        }
    });
    let at = InState::new();
    reach_pd("in every reachable state, pulse distance", &PD, true, &|_| Ok(()), &at);
    reach_mc("in every reachable state, Manchester", false, &at);
    soak("long histories", &cycles(&ALL, 66_000), &Soak);
    c.finish();
}

/// A gap and a frame, in every state that the search gets to.
struct InState(Vec<(Pk, u32, Vec<(u64, Vec<Ev>, Vec<Out>)>)>);
impl InState {
    fn new() -> Self {
        let mut v = vec![];
        for pk in ALL {
            for f in [1_000_000u32, 40_000] {
                let ws = base_words(pk);
                let mut x = vec![];
                for (w, g) in [(ws[2], gap(f)), (ws[0], ticks(3_000_000, f))] {
                    let (e, _) = frame(pk, f, w, g);
                    let o = if PD.contains(&pk) {
                        with_proto!(pk, P => Rx::<P>::new(f).run(&e))
                    } else {
                        with_proto!(pk, P => { let mut r = R1::<P>::new(f); e.iter().map(|e| r.ev(e.0, e.1)).collect() })
                    };
                    x.push((w, e, o));
                }
                v.push((pk, f, x));
            }
        }
        InState(v)
    }
}
impl AtState for InState {
    fn at(&self, pk: Pk, f: u32, lv: bool, fork: &mut dyn FnMut() -> Box<dyn Dyn>) -> Result<(), (Vec<Ev>, String)> {
        let x = self.0.iter().find(|x| (x.0, x.1) == (pk, f)).unwrap();
        for (w, e, o) in &x.2 {
            let mut r = fork();
            if lv {
                let _ = r.feed((false, ticks(600, f)));
            }
            count(0, e.len() as u64, 1);
            for (j, ev) in e.iter().enumerate() {
                let got = r.feed(*ev);
                // at its very first edge the previous, broken frame may still be reported as an error
                let ok = if j == 0 { !matches!(got, Ok(Some(_))) } else { got == o[j] };
                if !ok {
                    let mut h = if lv { vec![(false, ticks(600, f))] } else { vec![] };
                    h.extend(&e[..=j]);
                    return Err((h, format!("a gap and frame {w:#x}: reports {got:?} at edge {j}, a new receiver {:?}", o[j])));
                }
            }
        }
        Ok(())
    }
}

struct Soak;
impl SoakJudge for Soak {
    fn boundary<P: Pr>(&self, c: &Cycle, rx: &Rx<P>) -> Result<(), String> {
        let ws = base_words(c.pk);
        for (k, w) in [ws[2], ws[0]].into_iter().enumerate() {
            let (e, _) = frame(c.pk, c.f, w, [gap(c.f), ticks(3_000_000, c.f)][k]);
            let (mut a, mut b) = (rx.fork(), Rx::<P>::new(c.f));
            count(0, e.len() as u64, 0);
            for (i, x) in e.iter().enumerate() {
                let (got, want) = (a.ev(x.0, x.1), b.ev(x.0, x.1));
                let ok = if i == 0 { !matches!(got, Ok(Some(_))) } else { got == want };
                if !ok {
                    return Err(format!("then a gap and frame {w:#x} reports {got:?} at edge {i}, a new receiver {want:?}"));
                }
            }
        }
        Ok(())
    }
}

fn letters(pk: Pk, f: u32) -> Vec<u32> {
    if !PD.contains(&pk) {
        return mc_letters(pk, f);
    }
    let p = PdF::new(pk, f);
    let mut v: Vec<u32> = pd_letters(&p, false).iter().flat_map(|(m, s)| [*m, *s]).collect();
    v.push(0);
    v.push(ticks(p.pd.header.mark as u64, f));
    v.push(ticks(p.pd.header.space as u64, f));
    v.sort_unstable();
    v.dedup();
    v
}

/// Receiver plus the history that led to it.
struct Tr<P: Pr> {
    rx: Rx<P>,
    h: Vec<Ev>,
    lv: bool,
    f: u32,
}
impl<P: Pr> Tr<P> {
    fn new(f: u32) -> Self {
        Tr { rx: Rx::new(f), h: vec![], lv: false, f }
    }
    fn fork(&self) -> Self {
        Tr { rx: self.rx.fork(), h: self.h.clone(), lv: self.lv, f: self.f }
    }
    fn ev(&mut self, e: Ev) {
        self.h.push(e);
        self.lv = e.0;
        count(1, 1, 0);
        let _ = tracked(P::NAME, self.f, &self.h, || self.rx.ev(e.0, e.1));
    }
}

struct Ctx<P: Pr> {
    f: u32,
    /// probe frames with what a new receiver reports for them
    probes: Vec<(u64, Vec<Ev>, Vec<Out>)>,
    _p: std::marker::PhantomData<P>,
}
impl<P: Pr> Ctx<P> {
    fn new(f: u32) -> Self {
        let mut probes = vec![];
        let gaps = [ticks(20_000, f), ticks(25_000, f), u32::MAX, ticks(3_000_000, f)];
        let mut ws = base_words(P::PK);
        let last = *ws.last().unwrap();
        if ws.len() < 4 {
            ws.push(last ^ if P::PK == Pk::Apple { 3 << 17 } else { 0 });
        }
        for (i, w) in ws.iter().enumerate() {
            let (e, _) = frame(P::PK, f, *w, gaps[i % 4]);
            let mut r = Rx::<P>::new(f);
            let o = r.run(&e);
            probes.push((*w, e, o));
        }
        Ctx { f, probes, _p: std::marker::PhantomData }
    }
    fn probe(&self, t: &Tr<P>) {
        for i in 0..self.probes.len() {
            self.run(t, i);
        }
    }
    /// Only the probes with the most / fewest one bits.
    fn probe1(&self, t: &Tr<P>) {
        self.run(t, 0);
        self.run(t, 2);
    }
    fn run(&self, t: &Tr<P>, i: usize) {
        if stopped() {
            return;
        }
        let (w, e, o) = &self.probes[i];
        let mut b = t.rx.fork();
        let mut h = t.h.clone();
        if t.lv {
            let d = ticks(600, self.f);
            h.push((false, d));
            let _ = tracked(P::NAME, self.f, &h, || b.ev(false, d));
        }
        count(0, e.len() as u64, 1);
        sample(|| format!("{:?} @ {} Hz: history {} then frame {w:#x}", P::PK, self.f, show_evs(&h)));
        for (j, x) in e.iter().enumerate() {
            h.push(*x);
            let got = tracked(P::NAME, self.f, &h, || b.ev(x.0, x.1));
            // at its very first edge the previous, broken frame may still be reported as an error
            let ok = if j == 0 { !matches!(got, Ok(Some(_))) } else { got == o[j] };
            if !ok {
                ck().violate(
                    format!("{:?} @ {} Hz: after a history of {} edges and a gap, frame {w:#x} reports {got:?} at edge {j}, a new receiver {:?}", P::PK, self.f, t.h.len(), o[j]),
                    replay_evs(P::PK, self.f, &h, &format!("probe frame {w:#x} starts at event {}", h.len() - 1 - j)),
                );
                return;
            }
        }
    }
}

/// All prefixes of frame `wi` with a deviation at interval `i` (and, at 1 MHz for the third word or
/// in thorough runs, a second one).
fn deviations<P: Pr>(f: u32, wi: usize, i: usize) {
    let w = base_words(P::PK)[wi];
    let (e, _) = frame(P::PK, f, w, gap(f));
    if i > e.len() {
        return;
    }
    let iv: Vec<u32> = e.iter().map(|x| x.1).collect();
    let ctx = Ctx::<P>::new(f);
    let ls = letters(P::PK, f);
    let mut t = Tr::<P>::new(f);
    for d in &iv[..i] {
        t.ev((!t.lv, *d));
    }
    ctx.probe(&t);
    for l in &ls {
        if stopped() {
            return;
        }
        let mut b = t.fork();
        b.ev((!b.lv, *l));
        ctx.probe(&b);
        for skip in [0usize, 1] {
            if i + skip > iv.len() {
                continue;
            }
            let mut x = b.fork();
            for (n, d) in iv[i + skip..].iter().enumerate() {
                x.ev((!x.lv, *d));
                if n % 5 == 4 || ck().thorough || (n + i + 4 >= iv.len()) {
                    ctx.probe1(&x);
                }
                if wi == 2 && f == 1_000_000 && (ck().thorough || n % 3 == 0) {
                    // second deviation, then the probe
                    for l2 in ls.iter().step_by(if ck().thorough { 1 } else { 4 }) {
                        let mut y = x.fork();
                        y.ev((!y.lv, *l2));
                        ctx.run(&y, (n + i) % ctx.probes.len());
                    }
                }
            }
            ctx.probe(&x);
        }
    }
}
