//! C09 The transmitter reproduces exactly the loaded pulse train, then stays off.
use embedded_hal::PwmPin;
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender, Status};
use infrared::Protocol;
use irmc::*;
use std::cell::Cell;

thread_local! {
    static LEVEL: Cell<bool> = const { Cell::new(false) };
}
/// Output pin recording its level.
struct Out1;
impl PwmPin for Out1 {
    type Duty = u16;
    fn disable(&mut self) {
        LEVEL.with(|l| l.set(false))
    }
    fn enable(&mut self) {
        LEVEL.with(|l| l.set(true))
    }
    fn get_duty(&self) -> u16 {
        1
    }
    fn get_max_duty(&self) -> u16 {
        2
    }
    fn set_duty(&mut self, _: u16) {}
}

/// A protocol whose commands are pulse trains.
struct Toy;
impl Protocol for Toy {
    type Cmd = Vec<u32>;
}
impl<const F: u32> ProtocolEncoder<F> for Toy {
    type EncoderData = ();
    const DATA: () = ();
    fn encode(c: &Vec<u32>, b: &mut [u32]) -> usize {
        b[..c.len()].copy_from_slice(c);
        c.len()
    }
}
const F: u32 = 40_000;

/// Trains: zero lead-in, then an odd number of durations (ends with the carrier off).
fn trains(n: usize, ds: &[u32]) -> Vec<Vec<u32>> {
    let mut v = vec![vec![0u32]];
    for _ in 0..n {
        v = v.iter().flat_map(|t| ds.iter().map(move |d| { let mut x = t.clone(); x.push(*d); x })).collect();
    }
    v
}
fn wave(t: &[u32]) -> Vec<bool> {
    let mut w = vec![false; t[0] as usize];
    for (i, d) in t[1..].iter().enumerate() {
        w.resize(w.len() + *d as usize, i % 2 == 0);
    }
    w
}

/// Reference transmitter: what is being sent and how many ticks of it are done.
#[derive(Clone, Copy)]
struct Model<'a> {
    cur: Option<(&'a [bool], usize)>,
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Ph {
    Idle,
    /// loaded, no tick yet, or final edge just made: whether a load is taken is unspecified
    Edge,
    Busy,
}
impl<'a> Model<'a> {
    fn phase(&self) -> Ph {
        match self.cur {
            None => Ph::Idle,
            // up to the first edge
            Some((w, t)) if !w[..t.min(w.len())].contains(&true) => Ph::Edge,
            Some((w, t)) if t == w.len() + 1 => Ph::Edge,
            _ => Ph::Busy,
        }
    }
    fn load(&mut self, w: &'a [bool]) {
        if self.cur.is_none() {
            self.cur = Some((w, 0));
        }
    }
    fn tick(&mut self) -> bool {
        match &mut self.cur {
            None => false,
            Some((w, t)) => {
                *t += 1;
                let on = w.get(*t - 1).copied().unwrap_or(false);
                if *t >= w.len() + 2 {
                    self.cur = None;
                }
                on
            }
        }
    }
}

struct Dev<'a, const S: usize> {
    s: Sender<Out1, F, S>,
    m: Model<'a>,
    level: bool,
    /// the train being sent
    t: &'a [u32],
}
impl<'a, const S: usize> Dev<'a, S> {
    fn new() -> Self {
        LEVEL.with(|l| l.set(false));
        Dev { s: Sender::new(Out1), m: Model { cur: None }, level: false, t: &[] }
    }
    fn fork(&self) -> Self {
        Dev { s: fork(&self.s), m: self.m, level: self.level, t: self.t }
    }
    fn bad(&self, what: String, hist: &[String]) -> bool {
        ck().violate(format!("sender (buffer {S}): {what}"), format!("kind sender\nbuffer {S}\nhistory {}\n", hist.join(", ")));
        false
    }
    fn load(&mut self, t: &'a (Vec<u32>, Vec<bool>), hist: &mut Vec<String>) -> bool {
        hist.push(format!("load {:?}", t.0));
        count(1, 1, 0);
        let idle = self.m.phase() == Ph::Idle;
        LEVEL.with(|l| l.set(self.level));
        self.s.load::<Toy>(&t.0);
        let l = LEVEL.with(|l| l.get());
        if l != self.level {
            return self.bad("load changed the output".into(), hist);
        }
        self.m.load(&t.1);
        if idle {
            self.t = &t.0;
        }
        if idle && self.s.buffer() != &t.0[..] {
            return self.bad(format!("buffer() is {:?} after loading {:?}", self.s.buffer(), t.0), hist);
        }
        true
    }
    fn tick(&mut self, hist: &mut Vec<String>) -> bool {
        hist.push("tick".into());
        count(1, 1, 0);
        LEVEL.with(|l| l.set(self.level));
        self.s.tick();
        self.level = LEVEL.with(|l| l.get());
        let want = self.m.tick();
        if self.level != want {
            return self.bad(format!("output is {} after this tick, expected {}", self.level, want), hist);
        }
        if self.m.phase() == Ph::Busy && self.s.buffer() != self.t {
            return self.bad(format!("buffer() is {:?} while sending {:?}", self.s.buffer(), self.t), hist);
        }
        true
    }
}

fn main() {
    let c = begin("C09");
    c.bound("all interleavings of tick/load(3 trains) up to depth 11 (thorough 13) for 3 buffer capacities; all ordered triples (first, load attempted at every tick of it, next) of trains with 1..5 durations from {1,2,3} (third and interrupting train from a subset in quick); real protocols at 20/40 kHz and 1 MHz ticked through; pulse sender: all time-stamp increment sequences from {0,1,2,3,5,2^31,2^32-1} up to length 7 (thorough 8), 4 starting points, with a reload or reset at every point; trains of an odd number of durations (carrier left on by the last one) then idle ticks");
    c.bound("trains of every even number of durations from 64 to 264, around 512, 1024, 2048, 4096, 65 536 and of 70 000, in buffers of 128, 256, 512, 4096 and 70 000 entries, each sent whole, then a short one, then again");
    c.bound("5 trains (two with durations over 65 536 ticks) 70 000 times in a row with 0, 1, 5 idle ticks and ignored loads in between; 140 000 idle ticks; 70 000 loads of the pulse sender");
    c.assume("loads before the first edge of a train, and loads between the last edge and the following tick, are not exercised (unspecified)");
    let mut all: Vec<(Vec<u32>, Vec<bool>)> = [1, 3, 5].iter().flat_map(|n| trains(*n, &[1, 2, 3])).map(|t| { let w = wave(&t); (t, w) }).collect();
    let long: Vec<(Vec<u32>, Vec<bool>)> = [vec![0, 2, 1, 1, 2, 3, 1, 3], vec![0, 1, 1, 1, 1, 1, 1, 2], vec![0, 4, 1, 5, 2, 1, 7, 9], vec![1, 1], vec![3, 2], vec![7, 1, 2, 1], vec![2, 3, 1, 4, 2, 1]].into_iter().map(|t| { let w = wave(&t); (t, w) }).collect();
    // some of them after a pause
    for (i, a) in all.iter_mut().enumerate() {
        if i % 5 == 3 {
            a.0[0] = 1 + (i as u32 / 5) % 4;
            a.1 = wave(&a.0);
        }
    }
    // 1. interleavings
    fn inter<'a, const S: usize>(ts: &'a [(Vec<u32>, Vec<bool>)], d: &Dev<'a, S>, depth: usize, hist: &mut Vec<String>) {
        if stopped() {
            return;
        }
        if depth == 0 {
            // drain
            let mut b = d.fork();
            let n = hist.len();
            for _ in 0..24 {
                if !b.tick(hist) {
                    break;
                }
            }
            count(0, 0, 1);
            sample(|| hist.join(", "));
            hist.truncate(n);
            return;
        }
        let n = hist.len();
        let mut b = d.fork();
        if b.tick(hist) {
            inter(ts, &b, depth - 1, hist);
        }
        hist.truncate(n);
        if d.m.phase() != Ph::Edge {
            for t in ts {
                if t.0.len() > S {
                    continue;
                }
                let mut b = d.fork();
                if b.load(t, hist) {
                    inter(ts, &b, depth - 1, hist);
                }
                hist.truncate(n);
            }
        }
    }
    let ts: Vec<(Vec<u32>, Vec<bool>)> = [vec![0, 1], vec![2, 2, 1, 1], vec![0, 1, 2, 1, 1, 3]].into_iter().map(|t| { let w = wave(&t); (t, w) }).collect();
    let depth = if c.thorough { 13 } else { 11 };
    c.par("all tick/load interleavings", &[0usize, 1, 2], |k| match k {
        0 => inter::<6>(&ts, &Dev::new(), depth, &mut vec![]),
        1 => inter::<7>(&ts, &Dev::new(), depth, &mut vec![]),
        _ => inter::<40>(&ts, &Dev::new(), depth, &mut vec![]),
    });
    // 2. triples
    fn triple<'a, const S: usize>(all: &'a [(Vec<u32>, Vec<bool>)], sub: &[&'a (Vec<u32>, Vec<bool>)], a: &'a (Vec<u32>, Vec<bool>)) {
        for b in sub {
            if a.0.len() > S || b.0.len() > S {
                continue;
            }
            for at in 0..=a.1.len() {
                let mut d = Dev::<S>::new();
                let mut h = vec![];
                let mut ok = d.tick(&mut h) && d.load(a, &mut h);
                for t in 0..a.1.len() + 2 {
                    if !ok || stopped() {
                        return;
                    }
                    if t == at && d.m.phase() == Ph::Busy {
                        ok = d.load(b, &mut h);
                    }
                    ok = ok && d.tick(&mut h);
                }
                for n in all.iter().skip(at).step_by(7) {
                    if n.0.len() > S {
                        continue;
                    }
                    let mut e = d.fork();
                    let l = h.len();
                    let mut ok = e.load(n, &mut h);
                    for _ in 0..n.1.len() + 9 {
                        ok = ok && e.tick(&mut h);
                    }
                    count(0, 0, 1);
                    sample(|| h.join(", "));
                    h.truncate(l);
                }
            }
        }
    }
    let items: Vec<&(Vec<u32>, Vec<bool>)> = all.iter().chain(&long).collect();
    let sub: Vec<&(Vec<u32>, Vec<bool>)> = if c.thorough { items.iter().copied().step_by(5).collect() } else { items.iter().copied().step_by(41).collect() };
    c.par("train, interrupting load at every tick, next train", &items, |a| {
        triple::<2>(&all, &sub, a);
        triple::<4>(&all, &sub, a);
        triple::<6>(&all, &sub, a);
        triple::<8>(&all, &sub, a);
        triple::<9>(&all, &sub, a);
        triple::<64>(&all, &sub, a);
    });
    // 2b. trains that end with the carrier on: it is switched off all the same
    let odd: Vec<Vec<u32>> = [2, 4].iter().flat_map(|n| trains(*n, &[1, 2, 3])).chain([vec![0], vec![3]]).collect();
    c.par("trains ending with the carrier on", &odd, |t| {
        fn go<const S: usize>(t: &Vec<u32>, next: &Vec<u32>) {
            if t.len() > S || next.len() > S {
                return;
            }
            LEVEL.with(|l| l.set(false));
            let mut s: Sender<Out1, F, S> = Sender::new(Out1);
            for x in [t, next, t] {
                s.load::<Toy>(x);
                let w = wave(x);
                for i in 0..w.len() + 60 {
                    s.tick();
                    count(1, 1, 0);
                    let on = LEVEL.with(|l| l.get());
                    // the last edge itself may show for one tick
                    if i != w.len() && on != w.get(i).copied().unwrap_or(false) {
                        ck().violate(format!("sender (buffer {S}): train {x:?}: output is {on} after tick {}", i + 1), format!("kind sender\nbuffer {S}\nhistory load {t:?}, load {next:?}, load {t:?} each followed by many ticks\n"));
                        return;
                    }
                }
                count(0, 0, 1);
            }
        }
        for n in [vec![0, 2, 1, 3], vec![0, 1], vec![2, 2, 2]] {
            go::<1>(t, &n);
            go::<3>(t, &n);
            go::<5>(t, &n);
            go::<64>(t, &n);
        }
    });
    // 3. real protocols
    fn real<P, const G: u32, const S: usize>(w1: u64, w2: u64)
    where
        P: Tx + ProtocolEncoder<G>,
    {
        LEVEL.with(|l| l.set(false));
        let mut s: Sender<Out1, G, S> = Sender::new(Out1);
        let enc = |w: u64| {
            let mut b = [0u32; 256];
            let n = P::encode(&P::mk(w), &mut b);
            b[..n].to_vec()
        };
        let lv = || LEVEL.with(|l| l.get());
        let fail = |w: u64, what: String| {
            ck().violate(format!("{} @ {G} Hz, buffer {S}, word {w:#x}: {what}", P::NAME), format!("kind sender-real\nproto {}\nfreq {G}\nbuffer {S}\nwords {w1:#x} then {w2:#x}\n", P::NAME));
        };
        for _ in 0..3 {
            s.tick();
            if lv() {
                return fail(w1, "output on before any load".into());
            }
        }
        for w in [w1, w2, w1] {
            let t = enc(w);
            s.load::<P>(&P::mk(w));
            if s.buffer() != &t[..] {
                return fail(w, "buffer() differs from the encoded train".into());
            }
            let wv = wave(&t);
            for (i, on) in wv.iter().enumerate() {
                s.tick();
                count(1, 1, 0);
                if lv() != *on {
                    return fail(w, format!("output is {} after tick {}, expected {}", lv(), i + 1, on));
                }
                if i == wv.len() / 2 {
                    s.load::<P>(&P::mk(w2));
                }
            }
            for i in 0..200 {
                s.tick();
                if lv() {
                    return fail(w, format!("output on {i} ticks after the end"));
                }
            }
            count(0, 200, 1);
        }
    }
    let mut items = vec![];
    for pk in TX {
        let ws = base_words(pk);
        for a in &ws {
            for b in &ws {
                items.push((pk, *a, *b));
            }
        }
    }
    c.par("real protocols", &items, |(pk, a, b)| {
        with_tx!(*pk, P => {
            real::<P, 20_000, 128>(*a, *b);
            real::<P, 40_000, 68>(*a, *b);
            real::<P, 1_000_000, 200>(*a, *b);
        })
    });
    // 4. pulse sender
    struct Ps<const S: usize> {
        s: PulsedataSender<S>,
        /// train, position, time of last change, level
        m: Option<(usize, usize, u32, bool)>,
    }
    impl<const S: usize> Ps<S> {
        fn fork(&self) -> Self {
            Ps { s: fork(&self.s), m: self.m }
        }
    }
    const INC: [u32; 7] = [0, 1, 2, 3, 5, 1 << 31, u32::MAX];
    static PTS: &[&[u32]] = &[&[0, 2, 3, 1], &[0, 1], &[0, 3, 1, 1, 2, 5], &[0, u32::MAX, 1 << 31, 1]];
    fn step<const S: usize>(p: &mut Ps<S>, ts: u32, hist: &mut Vec<String>) -> bool {
        hist.push(format!("tick({ts})"));
        count(1, 1, 0);
        let st = p.s.tick(ts);
        let got = st == Status::Transmit(true);
        let mut idle = true;
        let want = match &mut p.m {
            None => false,
            Some((t, pos, last, lv)) => {
                if *pos < PTS[*t].len() {
                    idle = false;
                    if ts.wrapping_sub(*last) >= PTS[*t][*pos] {
                        *lv = !*lv;
                        *pos += 1;
                        *last = ts;
                    }
                }
                *lv
            }
        };
        if got != want || (idle && st != Status::Idle) {
            ck().violate(format!("pulse sender: status {st:?}, expected {}", if idle { "Idle".into() } else { format!("level {want}") }), format!("kind pulsesender\nhistory {}\n", hist.join(", ")));
            return false;
        }
        true
    }
    fn load<const S: usize>(p: &mut Ps<S>, t: usize, hist: &mut Vec<String>) -> bool {
        hist.push(format!("load {:?}", PTS[t]));
        count(1, 1, 0);
        p.s.load_command::<Toy, F>(&PTS[t].to_vec());
        p.m = Some((t, 0, 0, false));
        if p.s.buffer() != PTS[t] {
            ck().violate("pulse sender: buffer() differs from the loaded train", format!("kind pulsesender\nhistory {}\n", hist.join(", ")));
            return false;
        }
        true
    }
    fn rec<const S: usize>(p: &Ps<S>, ts: u32, depth: usize, reloads: usize, hist: &mut Vec<String>) {
        if stopped() {
            return;
        }
        if depth == 0 {
            let mut b = p.fork();
            let n = hist.len();
            let mut t = ts;
            for k in 0..14 {
                t = t.wrapping_add(if k % 3 == 0 { u32::MAX } else { 6 });
                if !step(&mut b, t, hist) {
                    break;
                }
            }
            count(0, 0, 1);
            sample(|| hist.join(", "));
            hist.truncate(n);
            return;
        }
        let n = hist.len();
        for i in INC {
            let mut b = p.fork();
            if step(&mut b, ts.wrapping_add(i), hist) {
                rec(&b, ts.wrapping_add(i), depth - 1, reloads, hist);
            }
            hist.truncate(n);
        }
        if reloads > 0 {
            for t in 0..PTS.len() {
                let mut b = p.fork();
                if load(&mut b, t, hist) {
                    rec(&b, ts, depth - 1, reloads - 1, hist);
                }
                hist.truncate(n);
            }
            let mut b = p.fork();
            hist.push("reset".into());
            b.s.reset();
            b.m = None;
            if b.s.buffer().is_empty() {
                rec(&b, ts, depth - 1, reloads - 1, hist);
            } else {
                ck().violate("pulse sender: buffer() is not empty after a reset", format!("kind pulsesender\nhistory {}\n", hist.join(", ")));
            }
            hist.truncate(n);
        }
    }
    let mut items = vec![];
    for t in 0..PTS.len() + 1 {
        for s in [0u32, 1, u32::MAX - 2, 1 << 31] {
            for i in INC {
                items.push((t, s, i));
            }
        }
    }
    let depth = if c.thorough { 7 } else { 5 };
    c.par("pulse sender with arbitrary time stamps", &items, |(t, s, i)| {
        go::<10>(*t, *s, *i, depth);
        go::<6>(*t, *s, *i, depth - 1);
        fn go<const S: usize>(t: usize, s: u32, i: u32, depth: usize) {
            let mut p: Ps<S> = Ps { s: PulsedataSender::new(), m: None };
            let mut h = vec![];
            if t < PTS.len() && !load(&mut p, t, &mut h) {
                return;
            }
            let ts = s.wrapping_add(i);
            if step(&mut p, s, &mut h) && step(&mut p, ts, &mut h) {
                rec(&p, ts, depth, 1, &mut h);
            }
        }
    });
    // long trains
    fn far<const S: usize>(n: usize) {
        let mk = |n: usize| -> Vec<u32> {
            (0..n).map(|i| if i == 0 { 0 } else if n > 5000 { 1 } else { 1 + (i as u32 * 7 / 3) % 5 }).collect()
        };
        // the next train is one of the usual length, then the long one again
        let mut s: Box<Sender<Out1, F, S>> = Box::new(Sender::new(Out1));
        let mut q: Box<PulsedataSender<S>> = Box::new(PulsedataSender::new());
        LEVEL.with(|l| l.set(false));
        let mut now = 0u32;
        for t in [mk(n), mk(6.min(n)), mk(n)] {
            let bad = |who: &str, what: String| {
                ck().violate(format!("{who} (buffer {S}), train of {} durations: {what}", t.len()), format!("kind {who}\nbuffer {S}\nhistory load {:?}, tick through it\n", t));
            };
            s.load::<Toy>(&t);
            let w = wave(&t);
            for i in 0..w.len() + 40 {
                s.tick();
                let on = LEVEL.with(|l| l.get());
                if on != w.get(i).copied().unwrap_or(false) {
                    return bad("sender", format!("output is {on} after tick {}", i + 1));
                }
                if i > 0 && i < w.len() && i % 61 == 1 && s.buffer() != &t[..] {
                    return bad("sender", format!("buffer() is not the train after tick {}", i + 1));
                }
            }
            q.load_command::<Toy, F>(&t);
            let mut lv = false;
            for (i, d) in t.iter().enumerate() {
                if *d > 1 {
                    let st = q.tick(now.wrapping_add(*d - 1));
                    if st != Status::Transmit(lv) {
                        return bad("pulse sender", format!("{st:?} one tick before edge {i}, expected level {lv}"));
                    }
                }
                now = now.wrapping_add(*d);
                lv = !lv;
                let st = q.tick(now);
                if st != Status::Transmit(lv) {
                    return bad("pulse sender", format!("{st:?} at edge {i}, expected level {lv}"));
                }
            }
            for _ in 0..20 {
                now = now.wrapping_add(3);
                let st = q.tick(now);
                if st != Status::Idle {
                    return bad("pulse sender", format!("{st:?} after the end"));
                }
            }
            count((w.len() + t.len()) as u64, (w.len() + 2 * t.len()) as u64, 1);
        }
    }
    let lens: Vec<usize> = (64..=264).step_by(2).chain([300, 510, 512, 514, 1022, 1024, 1026, 2046, 2048, 4094, 4096, 4098, 65_534, 65_536, 65_538, 70_000]).collect();
    c.par("long trains", &lens, |n| {
        match *n {
            0..=128 => far::<128>(*n),
            129..=256 => far::<256>(*n),
            257..=512 => far::<512>(*n),
            513..=4096 => far::<4096>(*n),
            _ => {}
        }
        if *n <= 512 {
            far::<512>(*n);
        }
        far::<70_000>(*n);
    });
    // tens of thousands of loads, ticks, rejected loads; durations over 16 bits
    let big: Vec<(Vec<u32>, Vec<bool>)> = [vec![0, 1], vec![1, 2, 1, 1], vec![0, 1, 2, 1, 1, 3], vec![0, 70_000, 66_000, 3], vec![70_000, 2, 65_536, 65_537]]
        .into_iter()
        .map(|t| { let w = wave(&t); (t, w) })
        .collect();
    let mut items = vec![];
    for t in 0..big.len() {
        for idle in [0u32, 1, 5] {
            for rej in [false, true] {
                items.push((t, idle, rej));
            }
        }
    }
    c.par("tens of thousands of loads", &items, |(t, idle, rej)| {
        go::<6>(&big, *t, *idle, *rej);
        go::<64>(&big, *t, *idle, *rej);
        fn go<const S: usize>(big: &[(Vec<u32>, Vec<bool>)], t: usize, idle: u32, rej: bool) {
            let mut d = Dev::<S>::new();
            let mut h = vec![];
            let cy = &big[t];
            let n = if cy.1.len() > 1000 { 4 } else { 70_000 };
            for k in 0..n {
                h.clear();
                h.push(format!("{k} times: load {:?}, transmit, {idle} idle ticks;", cy.0));
                if stopped() || !d.load(cy, &mut h) {
                    return;
                }
                while d.m.cur.is_some() {
                    if h.len() > 200 {
                        h.truncate(2);
                        h.push("...".into());
                    }
                    if !d.tick(&mut h) {
                        return;
                    }
                    // loads in mid-transmission are ignored
                    if rej && d.m.phase() == Ph::Busy && (k < 4 || k % 16 == 0) && !d.load(&big[(t + 1) % 2], &mut h) {
                        return;
                    }
                }
                for _ in 0..idle {
                    if !d.tick(&mut h) {
                        return;
                    }
                }
            }
            // a long pause
            for _ in 0..140_000 {
                h.clear();
                if !d.tick(&mut h) {
                    return;
                }
            }
            let _ = d.load(&big[1], &mut h);
            for _ in 0..9 {
                if !d.tick(&mut h) {
                    return;
                }
            }
            count(0, 0, 1);
        }
    });
    c.par("tens of thousands of loads, pulse sender", &(0..PTS.len()).collect::<Vec<_>>(), |t| {
        let mut p: Ps<8> = Ps { s: PulsedataSender::new(), m: None };
        let (mut h, mut ts) = (vec![], 0u32);
        for k in 0..70_000u32 {
            h.clear();
            h.push(format!("{k} loads;"));
            // every other time the train is not finished
            let n = if k % 2 == 0 { 3 } else { PTS[*t].len() + 2 };
            if stopped() || !load(&mut p, *t, &mut h) {
                return;
            }
            // a load starts over: the lead-in of zero passes at the next tick
            for j in 0..n {
                ts = ts.wrapping_add(if j == 0 && k == 0 { 0 } else { PTS[*t].get(j).copied().unwrap_or(7) });
                if !step(&mut p, ts, &mut h) {
                    return;
                }
            }
        }
        count(0, 0, 1);
    });
    c.finish();
}
