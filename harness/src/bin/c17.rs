//! C17 A directly driven decoder honours its documented contract.
use infrared::receiver::{DecoderBuilder, ProtocolDecoder, State};
use infrared::Protocol;
use irmc::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Ev(bool, u32),
    Reset,
}
type Dec<P> = <P as DecoderBuilder<u32>>::Decoder;

/// Several decoders in lockstep:
/// `d` driven by event/command/reset, `t` by event_total, `n` newly built at the last reset,
/// `u` never reset except by an explicit reset; `rf` the reference.
struct L<P: Pr> {
    d: Dec<P>,
    t: Dec<P>,
    n: Option<Dec<P>>,
    u: Dec<P>,
    /// `u` has to equal `n`
    u_ok: bool,
    rf: Option<RefPd>,
}
fn cmd<P: Pr>(d: &Dec<P>) -> Option<N> {
    let c: Option<<P as Protocol>::Cmd> = d.command();
    c.map(|c| c.n())
}
impl<P: Pr> L<P> {
    fn new(f: u32) -> Self {
        let b = || <P as DecoderBuilder<u32>>::build(f);
        L { d: b(), t: b(), n: Some(b()), u: b(), u_ok: true, rf: if PD.contains(&P::PK) { Some(RefPd::new()) } else { None } }
    }
    fn fork(&self) -> Self {
        L { d: fork(&self.d), t: fork(&self.t), n: self.n.as_ref().map(fork), u: fork(&self.u), u_ok: self.u_ok, rf: self.rf }
    }
    fn fresh(&mut self, f: u32) {
        // NEC decoders remember the last complete command: then a new decoder differs
        let mem = NECS.contains(&P::PK) && self.rf.map_or(true, |r| r.last.is_some());
        self.n = if mem { None } else { Some(<P as DecoderBuilder<u32>>::build(f)) };
    }
    fn op(&mut self, p: Option<&PdF>, f: u32, op: Op) -> Result<bool, String> {
        count(1, 4, 0);
        match op {
            Op::Reset => {
                self.d.reset();
                self.t.reset();
                self.u.reset();
                if let Some(r) = &mut self.rf {
                    r.st = St::Idle;
                    r.since = 0;
                }
                self.fresh(f);
                self.u_ok = self.n.is_some();
                for x in [&self.d, &self.t, &self.u] {
                    if let Some(c) = cmd::<P>(x) {
                        return Err(format!("command {c:?} offered right after a reset"));
                    }
                }
            }
            Op::Ev(e, dt) => {
                let s = self.d.event(e, dt);
                let c = cmd::<P>(&self.d);
                if c.is_some() && s != State::Done {
                    return Err(format!("command {c:?} offered although the last event reported {s:?}"));
                }
                // never reset by itself
                let us = self.u.event(e, dt);
                let uc = cmd::<P>(&self.u);
                if uc.is_some() && us != State::Done {
                    return Err(format!("command {uc:?} offered (decoder not reset after completion) although the last event reported {us:?}"));
                }
                // combined call
                let t = nout::<P::C>(self.t.event_total(e, dt));
                let want = match s {
                    State::Done => Ok(c),
                    State::Error(x) => Err(ne(x)),
                    _ => Ok(None),
                };
                if t != want {
                    return Err(format!("event_total gives {t:?}; event gives {s:?} with command {c:?}"));
                }
                if let Some(x) = cmd::<P>(&self.t) {
                    return Err(format!("command {x:?} still offered after event_total"));
                }
                // `u` may remember another complete command
                if let (Some(r), Some(p)) = (&self.rf, p) {
                    if e && r.st == St::Idle && p.class(r.since + dt as u64) == Cls::Repeat {
                        self.u_ok = false;
                    }
                }
                // like a new decoder
                if let Some(n) = &mut self.n {
                    let (ns, nc) = (n.event(e, dt), None::<N>.or(cmd::<P>(n)));
                    if (ns, nc) != (s, c) {
                        return Err(format!("after reset: {s:?} {c:?}, a new decoder: {ns:?} {nc:?}"));
                    }
                    if self.u_ok && (us, uc) != (s, c) {
                        return Err(format!("reset after continued use: {us:?} {uc:?}, a new decoder: {s:?} {c:?}"));
                    }
                }
                let ended = matches!(s, State::Done | State::Error(_));
                if let (Some(r), Some(p)) = (&mut self.rf, p) {
                    let before = r.st;
                    let Some(o) = r.ev(p, e, dt as u64) else { return Ok(false) };
                    let complete = before != St::Idle && r.st == St::Idle && o.is_ok() && r.last.is_some();
                    let ok = match o {
                        Err(x) => s == State::Error(match x {
                            E::Address => infrared::receiver::DecodingError::Address,
                            E::Data => infrared::receiver::DecodingError::Data,
                            E::Validation => infrared::receiver::DecodingError::Validation,
                            E::Remote | E::Clocks => infrared::receiver::DecodingError::RemoteControlError,
                        }),
                        Ok(Some(x)) => s == State::Done && c == Some(x),
                        // complete, but no command (invalid Apple frame)
                        Ok(None) if complete => c.is_none() && matches!(s, State::Done | State::Idle),
                        Ok(None) => match r.st {
                            St::Rx(_) => s == State::Receiving,
                            St::Idle => s == State::Idle || (s == State::Done && c.is_none() && p.class(0) == Cls::Bad && e),
                        },
                    };
                    if !ok {
                        return Err(format!("decoder reports {s:?} with command {c:?}; reference: {o:?}, then {:?}", r.st));
                    }
                }
                if ended {
                    self.d.reset();
                    if let Some(x) = cmd::<P>(&self.d) {
                        return Err(format!("command {x:?} offered after a reset"));
                    }
                    self.fresh(f);
                    self.u_ok = false;
                }
                if P::PK == Pk::Rc5 || P::PK == Pk::Rc6 {
                    if let State::Error(x) = s {
                        return Err(format!("error {x:?}"));
                    }
                }
            }
        }
        Ok(true)
    }
}
fn show(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Reset => "reset".to_string(),
            Op::Ev(e, d) => format!("{}{d}", if *e { 'r' } else { 'f' }),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
fn report<P: Pr>(f: u32, ops: &[Op], e: String) {
    ck().violate(
        format!("{:?} decoder @ {f} Hz: {e}", P::PK),
        format!("kind decoder\nproto {:?}\nfreq {f}\nops {}\nnote {e}\n", P::PK, show(ops)),
    );
}
fn pdf(pk: Pk, f: u32) -> Option<PdF> {
    if PD.contains(&pk) {
        Some(PdF::new(pk, f))
    } else {
        None
    }
}
/// Follow `ops`; before each position up to `k` resets may be inserted.
fn resets<P: Pr>(l: &L<P>, p: Option<&PdF>, f: u32, ops: &[Op], k: usize, step: usize, h: &mut Vec<Op>) {
    let n0 = h.len();
    let mut l = l.fork();
    for (i, o) in ops.iter().enumerate() {
        if stopped() {
            break;
        }
        if k > 0 && i % step == 0 {
            let mut b = l.fork();
            h.push(Op::Reset);
            match b.op(p, f, Op::Reset) {
                Err(e) => return report::<P>(f, h, e),
                Ok(_) => resets(&b, p, f, &ops[i..], k - 1, step, h),
            }
            h.pop();
        }
        h.push(*o);
        match l.op(p, f, *o) {
            Err(e) => return report::<P>(f, h, e),
            Ok(false) => break,
            Ok(true) => {}
        }
    }
    count(0, 0, 1);
    sample(|| format!("{:?} @ {f} Hz: {}", P::PK, show(h)));
    h.truncate(n0);
}
fn rec<P: Pr>(l: &L<P>, p: Option<&PdF>, f: u32, ls: &[u32], level: bool, d: usize, h: &mut Vec<Op>) {
    if d == 0 || stopped() {
        count(0, 0, 1);
        return;
    }
    let mut go = |o: Op, lv: bool| {
        let mut b = l.fork();
        h.push(o);
        match b.op(p, f, o) {
            Err(e) => report::<P>(f, h, e),
            Ok(false) => {}
            Ok(true) => rec(&b, p, f, ls, lv, d - 1, h),
        }
        h.pop();
    };
    go(Op::Reset, level);
    for x in ls {
        go(Op::Ev(!level, *x), !level);
    }
}

/// The lockstep as a machine for the reachable-state search; RESET stands for a call of reset.
struct LM<P: Pr> {
    l: L<P>,
    p: Option<&'static PdF>,
    f: u32,
    /// all decoders count as part of the state, not only the properly driven and the new one
    full: bool,
    err: Option<Box<String>>,
}
impl<P: Pr> Mach for LM<P> {
    fn ev(&mut self, e: bool, d: u32) -> Out {
        let op = if d == RESET { Op::Reset } else { Op::Ev(e, d) };
        if let Err(x) = self.l.op(self.p, self.f, op) {
            self.err = Some(Box::new(x));
        }
        Ok(None)
    }
    fn fork(&self) -> Self {
        LM { l: self.l.fork(), p: self.p, f: self.f, full: self.full, err: None }
    }
    fn key(&self, h: &mut H2) {
        let L { d, t, n, u, u_ok, rf: _ } = &self.l;
        bytes(d, h);
        if self.full {
            bytes(t, h);
            bytes(u, h);
        }
        if let Some(n) = n {
            bytes(n, h);
        }
        h.word(n.is_some() as u64 | (*u_ok as u64) << 1 | (self.err.is_some() as u64) << 2);
    }
    fn replay(pk: Pk, f: u32, h: &[Ev], note: &str) -> String {
        let ops: Vec<Op> = h.iter().map(|(e, d)| if *d == RESET { Op::Reset } else { Op::Ev(*e, *d) }).collect();
        format!("kind decoder\nproto {pk:?}\nfreq {f}\nops {}\nnote {note}\n", show(&ops))
    }
}
fn complain<P: Pr>(m: &LM<P>) -> Result<(), (Vec<Ev>, String)> {
    match &m.err {
        Some(e) => Err((vec![], (**e).clone())),
        None => Ok(()),
    }
}
fn reachable(pk: Pk, f: u32, full: bool) {
    let n = match (full, ck().thorough) {
        (true, false) => 0,
        (true, true) | (false, false) => 1,
        (false, true) => 2,
    };
    with_proto!(pk, P => {
        let p: Option<&'static PdF> = pdf(pk, f).map(|p| &*Box::leak(Box::new(p)));
        let start = LM::<P> { l: L::new(f), p, f, full, err: None };
        let at = |m: &LM<P>, _: bool| complain(m);
        let r = if let Some(p) = pdf(pk, f) {
            let g = PdGuide::<LM<P>> {
                ls: pd_letters(&p, true),
                base: base_words(pk),
                dist: n,
                merged: false,
                reset: true,
                vis: &|_| Ok(()),
                at: &at,
                p,
            };
            reach(pk, f, start, &g, if ck().thorough { 4_000_000 } else { 1_200_000 })
        } else {
            let mut g = McGuide::<LM<P>>::new(pk, f, (pk == Pk::Rc6).then_some(n), false, &at);
            g.reset = true;
            reach(pk, f, start, &g, if ck().thorough { 4_000_000 } else { 1_200_000 })
        };
        note(pk, f, r.0, r.1);
    })
}

fn main() {
    let c = begin("C17");
    c.bound("9 protocols x {40 kHz, 1 MHz, 48 MHz}: all sequences of 2 (thorough 3) whole/broken/foreign frames with a reset at any position; single frames with two resets anywhere; frames of base words with one interval replaced by any letter and a reset at any later position; all sequences of 5 (6) letters or resets from the start and 3 (4) inside every prefix of a frame; RC-5/RC-6: every word, state followed over the whole frame");
    c.bound("every frame-level item with a reset before, inside, after or not at all, 1000 (short ones and thorough: 66 000) times in a row; 66 000 resets");
    let mut items = vec![];
    for pk in ALL {
        for f in [40_000u32, 1_000_000, 48_000_000] {
            let n = stream_items(pk, f).len();
            for a in 0..n {
                items.push((pk, f, a));
            }
        }
    }
    let ops = |v: &[Ev]| -> Vec<Op> { v.iter().map(|(e, d)| Op::Ev(*e, *d)).collect() };
    c.par("frame sequences with a reset anywhere", &items, |(pk, f, a)| {
        let its = stream_items(*pk, *f);
        let p = pdf(*pk, *f);
        with_proto!(*pk, P => {
            for b in &its {
                let mut o = ops(&its[*a].evs);
                o.extend(ops(&b.evs));
                if c.thorough {
                    for x in &its {
                        let mut o = o.clone();
                        o.extend(ops(&x.evs));
                        resets::<P>(&L::new(*f), p.as_ref(), *f, &o, 1, 1, &mut vec![]);
                    }
                } else {
                    // followed by a complete frame
                    o.extend(ops(&its[0].evs));
                    if *pk != Pk::Debug && pd_rep(*pk) { o.extend(ops(&pd_repeat(&PdF::new(*pk, *f), gap(*f)))); }
                    resets::<P>(&L::new(*f), p.as_ref(), *f, &o, 1, 1, &mut vec![]);
                }
            }
            let mut o = ops(&its[*a].evs);
            o.extend(ops(&its[1].evs));
            resets::<P>(&L::new(*f), p.as_ref(), *f, &o, 2, if c.thorough { 1 } else { 2 }, &mut vec![]);
            resets::<P>(&L::new(*f), p.as_ref(), *f, &o[1..], 2, if c.thorough { 1 } else { 2 }, &mut vec![]);
        })
    });
    let mut items2 = vec![];
    for pk in ALL {
        for f in [40_000u32, 1_000_000] {
            for w in base_words(pk) {
                let (fr, _) = frame(pk, f, w, gap(f));
                for i in 0..fr.len() {
                    items2.push((pk, f, w, i));
                }
            }
        }
    }
    let letters = |pk: Pk, f: u32| -> Vec<u32> {
        if PD.contains(&pk) {
            let p = PdF::new(pk, f);
            let mut v: Vec<u32> = pd_letters(&p, false).iter().flat_map(|(m, s)| [*m, *s]).collect();
            v.extend(p.table.iter().map(|t| ticks(t.1.dist() as u64, f)));
            v.sort_unstable();
            v.dedup();
            v
        } else {
            mc_letters(pk, f)
        }
    };
    c.par("frames with one replaced interval and a reset", &items2, |(pk, f, w, i)| {
        let p = pdf(*pk, *f);
        let (fr, _) = frame(*pk, *f, *w, gap(*f));
        with_proto!(*pk, P => {
            for l in letters(*pk, *f) {
                let mut o = ops(&fr);
                o[*i] = Op::Ev(fr[*i].0, l);
                let (pre, post) = o.split_at(*i);
                let mut m = L::<P>::new(*f);
                let mut h = pre.to_vec();
                let mut ok = true;
                for x in pre {
                    match m.op(p.as_ref(), *f, *x) {
                        Ok(true) => {}
                        Ok(false) => { ok = false; break; }
                        Err(e) => { report::<P>(*f, &h, e); return; }
                    }
                }
                if ok {
                    let mut post = post.to_vec();
                    if matches!(post.last(), Some(Op::Ev(true, _))) { post.push(Op::Ev(false, ticks(500, *f))); }
                    post.extend(ops(&frame(*pk, *f, !*w & mask(*pk), gap(*f)).0));
                    resets::<P>(&m, p.as_ref(), *f, &post, 1, if c.thorough { 1 } else { 3 }, &mut h);
                }
                if stopped() { return; }
            }
        })
    });
    let mut items3 = vec![];
    for pk in ALL {
        for f in [40_000u32, 1_000_000] {
            for l in letters(pk, f) {
                items3.push((pk, f, l));
            }
        }
    }
    let short = |pk: Pk, f: u32| -> Vec<u32> {
        let v = letters(pk, f);
        let st = (v.len() / 14).max(1);
        let mut s: Vec<u32> = v.iter().copied().step_by(st).collect();
        if PD.contains(&pk) {
            s.extend(PdF::new(pk, f).table.iter().map(|t| ticks(t.1.dist() as u64, f)));
        } else {
            s.extend([1u64, 2, 3, 6].map(|u| ticks(unit(pk) as u64 * u, f)));
        }
        s.sort_unstable();
        s.dedup();
        s
    };
    c.par("all short sequences of edges and resets", &items3, |(pk, f, l0)| {
        let p = pdf(*pk, *f);
        with_proto!(*pk, P => {
            for first in [true, false] {
                let mut m = L::<P>::new(*f);
                let mut h = vec![Op::Ev(first, *l0)];
                match m.op(p.as_ref(), *f, h[0]) {
                    Err(e) => report::<P>(*f, &h, e),
                    Ok(false) => {}
                    Ok(true) => rec::<P>(&m, p.as_ref(), *f, &short(*pk, *f), first, if c.thorough { 5 } else { 4 }, &mut h),
                }
            }
        })
    });
    c.par("all short sequences inside a frame", &items2, |(pk, f, w, i)| {
        let p = pdf(*pk, *f);
        let (fr, _) = frame(*pk, *f, *w, gap(*f));
        with_proto!(*pk, P => {
            let mut m = L::<P>::new(*f);
            let mut h = vec![];
            for o in ops(&fr[..=*i]) {
                h.push(o);
                match m.op(p.as_ref(), *f, o) {
                    Ok(true) => {}
                    Ok(false) => return,
                    Err(e) => { report::<P>(*f, &h, e); return; }
                }
            }
            rec::<P>(&m, p.as_ref(), *f, &short(*pk, *f), fr[*i].0, if c.thorough { 4 } else { 3 }, &mut h);
        })
    });
    // Manchester frames: receiving from the first edge until completion.
    let mut items4 = vec![];
    for pk in [Pk::Rc5, Pk::Rc6] {
        for f in [40_000u32, 1_000_000] {
            for ch in 0..64u64 {
                items4.push((pk, f, ch));
            }
        }
    }
    c.par("RC-5/RC-6: state over the whole frame", &items4, |(pk, f, ch)| {
        with_proto!(*pk, P => {
            for w in (*ch..=mask(*pk)).step_by(64) {
                let (fr, done) = frame(*pk, *f, w, gap(*f));
                let mut d = <P as DecoderBuilder<u32>>::build(*f);
                for (i, (e, dt)) in fr.iter().enumerate() {
                    let s = d.event(*e, *dt);
                    count(1, 1, 0);
                    let want = if i == done { State::Done } else { State::Receiving };
                    if i <= done && s != want {
                        report::<P>(*f, &ops(&fr[..=i]), format!("decoder reports {s:?} at edge {i} of a frame, expected {want:?}"));
                        return;
                    }
                    if i == done {
                        let c = cmd::<P>(&d);
                        if c != meaning(*pk, w, false) {
                            report::<P>(*f, &ops(&fr[..=i]), format!("command {c:?}"));
                            return;
                        }
                        // stays available until the reset
                        if cmd::<P>(&d) != c { report::<P>(*f, &ops(&fr[..=i]), "command fetched twice differs".into()); return; }
                        d.reset();
                        let x = cmd::<P>(&d);
                        if x.is_some() { report::<P>(*f, &ops(&fr[..=i]), format!("command {x:?} after reset")); return; }
                        break;
                    }
                }
                count(0, 0, 1);
                if stopped() { return; }
            }
        })
    });
    let mut items = vec![];
    for f in [1_000_000u32, 40_000] {
        for pk in [Pk::Denon, Pk::Sbp, Pk::Rc6, Pk::Rc5, Pk::Debug, Pk::Nec, Pk::Samsung, Pk::Nec16, Pk::Apple] {
            // (an RC-5 or RC-6 decoder that is never reset counts time units without end)
            for full in if PD.contains(&pk) { &[true, false][..] } else { &[false] } {
                let full = *full;
                items.push((pk, f, full));
            }
        }
    }
    c.par("reachable states", &items, |(pk, f, full)| reachable(*pk, *f, *full));
    // tens of thousands of resets / frames with a reset
    let mut items = vec![];
    for pk in ALL {
        for i in 0..=stream_items(pk, 40_000).len() {
            for r in 0..4usize {
                items.push((pk, i, r));
            }
        }
    }
    c.par("tens of thousands of frames and resets", &items, |(pk, i, r)| {
        let f = 40_000;
        let its = stream_items(*pk, f);
        let p = pdf(*pk, f);
        // one item, with a reset at the start, in the middle, at the end, or none; or just resets
        let mut cy = if *i < its.len() { ops(&its[*i].evs) } else { vec![Op::Reset] };
        match r {
            0 => {}
            1 => cy.insert(0, Op::Reset),
            2 => cy.insert(cy.len() / 2, Op::Reset),
            _ => cy.push(Op::Reset),
        }
        let n = if ck().thorough || cy.len() < 12 { 66_000 } else { 1000 };
        let probe = ops(&its[0].evs);
        with_proto!(*pk, P => {
            let mut l = L::<P>::new(f);
            for k in 0..n {
                for (j, o) in cy.iter().enumerate() {
                    match l.op(p.as_ref(), f, *o) {
                        Err(e) => return report::<P>(f, &cy[..=j], format!("{e} (after {k} repetitions of {})", show(&cy))),
                        Ok(false) => return,
                        Ok(true) => {}
                    }
                }
                if notable(k) {
                    let mut b = l.fork();
                    count(0, 0, 1);
                    for o in &probe {
                        match b.op(p.as_ref(), f, *o) {
                            Err(e) => return report::<P>(f, &probe, format!("{e} (after {} repetitions of {})", k + 1, show(&cy))),
                            Ok(false) => break,
                            Ok(true) => {}
                        }
                    }
                }
                if stopped() { return; }
            }
        })
    });
    c.finish();
}
fn pd_rep(pk: Pk) -> bool {
    PD.contains(&pk) && pd(pk).repeat.is_some()
}
