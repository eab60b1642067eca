//! Explicit-state reachability: every state that a receiver, in step with a reference, can get into
//! by histories of any length over an alphabet of intervals. A state is the receiver's memory plus the
//! reference's state; the search goes on until no letter leads to a new one.
use crate::gen::*;
use crate::imp::*;
use crate::report::*;
use crate::spec::*;
use infrared::receiver::NoPin;
use infrared::{Protocol, Receiver};
use std::collections::{HashMap, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};

/// Something that takes edges.
pub trait Mach: Sized {
    fn ev(&mut self, edge: bool, dt: u32) -> Out;
    fn fork(&self) -> Self {
        crate::imp::fork(self)
    }
    /// Everything that later behaviour depends on.
    fn key(&self, h: &mut H2) {
        bytes(self, h)
    }
    fn replay(pk: Pk, f: u32, h: &[Ev], note: &str) -> String {
        replay_evs(pk, f, h, note)
    }
}
/// Stands for the length of an event that is not an edge but a call of reset.
pub const RESET: u32 = 0xFFFF_FF00;
impl<P: Pr> Mach for Rx<P> {
    #[inline]
    fn ev(&mut self, edge: bool, dt: u32) -> Out {
        Rx::ev(self, edge, dt)
    }
}
/// One receiver with 32-bit ticks.
pub struct R1<P: Pr>(pub Receiver<P, NoPin, u32, <P as Protocol>::Cmd>);
impl<P: Pr> R1<P> {
    pub fn new(f: u32) -> Self {
        R1(Receiver::new(f))
    }
}
impl<P: Pr> Mach for R1<P> {
    #[inline]
    fn ev(&mut self, edge: bool, dt: u32) -> Out {
        nout(self.0.event(dt, edge))
    }
}

/// Two independent 64-bit lanes.
#[derive(Clone, Copy)]
pub struct H2(u64, u64);
impl H2 {
    #[inline]
    pub fn word(&mut self, w: u64) {
        self.0 = (self.0.rotate_left(23) ^ w).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.1 = (self.1.rotate_left(29) ^ w).wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
    }
}
impl Hasher for H2 {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.word(u64::from_le_bytes(x) ^ (c.len() as u64) << 59);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.word(x)
    }
    fn write_u32(&mut self, x: u32) {
        self.word(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.word(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.word(x as u64)
    }
}
/// The memory of a value. Bytes between fields may differ between equal values; that only makes the
/// search visit a state more than once.
pub fn bytes<M>(m: &M, h: &mut H2) {
    let p = m as *const M as *const u8;
    let n = std::mem::size_of::<M>();
    let mut i = 0;
    // volatile: padding has no defined value, any will do
    unsafe {
        if p as usize % 4 == 0 {
            while i + 8 <= n {
                let a = std::ptr::read_volatile(p.add(i) as *const u32) as u64;
                let b = std::ptr::read_volatile(p.add(i + 4) as *const u32) as u64;
                h.word(a | b << 32);
                i += 8;
            }
        }
        while i < n {
            h.word(std::ptr::read_volatile(p.add(i)) as u64);
            i += 1;
        }
    }
}
/// Fingerprint of receiver and reference.
fn key<M: Mach, R: Hash>(m: &M, r: &R) -> u128 {
    let mut h = H2(0x243F_6A88_85A3_08D3, 0x1319_8A2E_0370_7344);
    m.key(&mut h);
    r.hash(&mut h);
    h.word(0x5851_F42D);
    let (a, b) = (h.0 ^ h.0 >> 31, h.1 ^ h.1 >> 29);
    (a as u128) << 64 | b as u128
}
#[derive(Default)]
pub struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u128(&mut self, x: u128) {
        self.0 = x as u64 ^ (x >> 64) as u64
    }
}

/// A reference that walks along, judges, and knows which letters make sense.
pub trait Guide<M: Mach>: Sync {
    type R: Clone + Hash;
    fn init(&self) -> Self::R;
    /// Events of letter `l` in this state; None: not explored here.
    fn letter(&self, r: &Self::R, l: usize) -> Option<([Ev; 2], usize)>;
    fn letters(&self) -> usize;
    /// Ok(false): nothing can be said from here on. `hist` ends with this event; it is complete only if `full`.
    fn step(&self, r: &mut Self::R, e: Ev, o: Out, hist: &[Ev]) -> Result<bool, String>;
    /// Judge a state by itself; on failure also the events tried in it.
    fn state(&self, _m: &M, _r: &Self::R) -> Result<(), (Vec<Ev>, String)> {
        Ok(())
    }
}

/// Breadth-first, up to `cap` states. Returns (states, whether all were visited).
pub fn reach<M: Mach, G: Guide<M>>(pk: Pk, f: u32, m: M, g: &G, cap: usize) -> (usize, bool) {
    let mut seen: HashMap<u128, (), BuildHasherDefault<Id>> = HashMap::default();
    let mut par: Vec<(u32, u16)> = vec![(0, 0)];
    let mut q: VecDeque<(M, G::R, u32)> = VecDeque::new();
    let r = g.init();
    seen.insert(key(&m, &r), ());
    let trace = |par: &[(u32, u16)], id: u32| -> Vec<Ev> {
        let mut ls = vec![];
        let mut x = id;
        while x != 0 {
            ls.push(par[x as usize].1 as usize);
            x = par[x as usize].0;
        }
        let mut r = g.init();
        let mut h = vec![];
        let mut m2 = q_init::<M>(&m);
        for l in ls.iter().rev() {
            let (e, n) = g.letter(&r, *l).expect("letter of a visited state");
            for e in &e[..n] {
                h.push(*e);
                let o = m2.ev(e.0, e.1);
                let _ = g.step(&mut r, *e, o, &h);
            }
        }
        h
    };
    q.push_back((m.fork(), r, 0));
    let n = g.letters();
    let mut hist: Vec<Ev> = vec![];
    let mut level = 0u64;
    while let Some((m, r, id)) = q.pop_front() {
        if stopped() {
            return (seen.len(), false);
        }
        if let Err((ev, w)) = g.state(&m, &r) {
            let mut h = trace(&par, id);
            let k = h.len();
            h.extend(ev);
            ck().violate(format!("{pk:?} @ {f} Hz, after {k} edges, {w}"), M::replay(pk, f, &h, &format!("state reached after {k} edges")));
            return (seen.len(), false);
        }
        for l in 0..n {
            let Some((evs, k)) = g.letter(&r, l) else { continue };
            let (mut a, mut b) = (m.fork(), r.clone());
            let mut alive = true;
            for (i, e) in evs[..k].iter().enumerate() {
                hist.clear();
                hist.extend(&evs[..=i]);
                // (should the library panic, the group's handler reports it)
                let o = a.ev(e.0, e.1);
                count(0, 1, 0);
                let (v, no) = outs(o);
                let b0 = b.clone();
                for (j, o) in v[..no].iter().enumerate() {
                    let mut c = b0.clone();
                    let mut res = g.step(&mut c, *e, *o, &hist);
                    if matches!(&res, Err(w) if w != UNJUDGED) {
                        let mut h = trace(&par, id);
                        h.extend(&hist);
                        c = b0.clone();
                        res = g.step(&mut c, *e, *o, &h);
                        if let Err(w) = &res {
                            if w != UNJUDGED {
                                ck().violate(format!("{pk:?} @ {f} Hz: {w}"), M::replay(pk, f, &h, &format!("last event: library {o:?}")));
                                return (seen.len(), false);
                            }
                        }
                    }
                    alive &= res == Ok(true);
                    if j == 0 {
                        b = c;
                    }
                }
                if !alive {
                    break;
                }
            }
            if !alive {
                continue;
            }
            if seen.len() < cap && seen.insert(key(&a, &b), ()).is_none() {
                let nid = par.len() as u32;
                par.push((id, l as u16));
                count(1, 0, 0);
                q.push_back((a, b, nid));
                level += 1;
                if level % 20_011 == 1 {
                    sample(|| format!("{pk:?} @ {f} Hz: state {nid}: {}", show_evs(&trace(&par, nid))));
                }
            }
        }
        count(0, 0, 1);
    }
    let c = seen.len() < cap;
    (seen.len(), c)
}
fn q_init<M: Mach>(m: &M) -> M {
    m.fork()
}

// ---------------------------------------------------------------------------------------------
// Pulse-distance protocols

/// Guide for pulse-distance receivers: the reference decoder; words within `dist` bits of a base word.
pub struct PdGuide<'a, M> {
    pub p: PdF,
    pub ls: Vec<(u32, u32)>,
    pub base: Vec<u64>,
    pub dist: u32,
    /// also letters without the falling edge
    pub merged: bool,
    /// also calls of reset
    pub reset: bool,
    pub vis: &'a (dyn Fn(&Step) -> Result<(), String> + Sync + 'a),
    pub at: &'a (dyn Fn(&M, bool) -> Result<(), (Vec<Ev>, String)> + Sync + 'a),
}
impl<M: Mach> Guide<M> for PdGuide<'_, M> {
    type R = RefPd;
    fn init(&self) -> RefPd {
        RefPd::new()
    }
    fn letters(&self) -> usize {
        self.ls.len() * if self.merged { 2 } else { 1 } + self.reset as usize
    }
    #[inline]
    fn letter(&self, r: &RefPd, l: usize) -> Option<([Ev; 2], usize)> {
        let n = self.ls.len();
        if self.reset && l + 1 == self.letters() {
            return Some(([(true, RESET), (true, 0)], 1));
        }
        let (m, s) = self.ls[l % n];
        if let St::Rx(i) = r.st {
            if let Seg::Bit(b) = self.p.segs[i] {
                let c = self.p.class(m as u64 + s as u64);
                if c == Cls::One || c == Cls::Zero {
                    let w = r.word | ((c == Cls::One) as u64) << b;
                    let mk = (1u64 << (b + 1)) - 1;
                    if !self.base.iter().any(|x| ((x ^ w) & mk).count_ones() <= self.dist) {
                        return None;
                    }
                }
            }
        }
        if l < n {
            Some(([(false, m), (true, s)], 2))
        } else if m as u64 + s as u64 <= u32::MAX as u64 {
            Some(([(true, m + s), (true, 0)], 1))
        } else {
            None
        }
    }
    #[inline]
    fn step(&self, r: &mut RefPd, e: Ev, o: Out, hist: &[Ev]) -> Result<bool, String> {
        let p = &self.p;
        if e.1 == RESET {
            r.st = St::Idle;
            r.since = 0;
            return Ok(true);
        }
        let rep = e.0 && r.st == St::Idle && p.class(r.since + e.1 as u64) == Cls::Repeat;
        let Some(rf) = r.ev(p, e.0, e.1 as u64) else { return Ok(false) };
        (self.vis)(&Step { pk: p.pk, f: p.f, hist, imp: o, rf, is_repeat: rep })?;
        Ok(true)
    }
    fn state(&self, m: &M, _: &RefPd) -> Result<(), (Vec<Ev>, String)> {
        // before anything came in, the level is taken to be high as well
        (self.at)(m, true)
    }
}

pub const REACH: &str = "reachable states: breadth-first search over one letter per class of intervals, states merged when receiver bytes and reference agree; words collected within 3 bits (thorough 4 where the word has at most 32 bits; one or two fewer where every state is probed at length) of the base words; run to closure at 40 kHz and 1 MHz unless an outcome says (bounded)";

pub fn note(pk: Pk, f: u32, n: usize, closed: bool) {
    ck().bound(REACH);
    if std::env::var("IRMC_VERBOSE").is_ok() {
        println!("  {pk:?} @ {f} Hz: {n} reachable states, {}", if closed { "all" } else { "search bounded" });
    }
    ck().outcome(format!("{pk:?} @ {f} Hz: reachable states{}", if closed { "" } else { " (bounded)" }), n as u64);
}

/// All reachable states of the 7 pulse-distance receivers.
pub fn reach_pd(
    group: &str,
    pks: &[Pk],
    merged: bool,
    vis: &(dyn Fn(&Step) -> Result<(), String> + Sync),
    at: &dyn AtState,
) {
    let mut items = vec![];
    for f in [40_000u32, 1_000_000] {
        for pk in pks {
            items.push((*pk, f));
        }
    }
    // longest first
    items.sort_by_key(|(pk, _)| std::cmp::Reverse(nbits(*pk)));
    ck().par(group, &items, |(pk, f)| {
        crate::with_pd!(*pk, P => {
            let p = PdF::new(*pk, *f);
            let g = PdGuide::<Rx<P>> {
                ls: pd_letters(&p, true),
                base: base_words(*pk),
                dist: if ck().thorough && nbits(*pk) <= 32 { 4 } else { 3 } - at.fewer(),
                merged,
                reset: false,
                vis,
                at: &|m: &Rx<P>, lv| at.at(*pk, *f, lv, &mut || Box::new(m.fork())),
                p,
            };
            let (n, closed) = reach(*pk, *f, Rx::<P>::new(*f), &g, cap(at));
            note(*pk, *f, n, closed);
        })
    });
}

/// A receiver behind a pointer.
pub trait Dyn {
    fn feed(&mut self, e: Ev) -> Out;
    fn split<'a>(&self) -> Box<dyn Dyn + 'a>
    where
        Self: 'a;
}
impl<M: Mach> Dyn for M {
    fn split<'a>(&self) -> Box<dyn Dyn + 'a>
    where
        Self: 'a,
    {
        Box::new(self.fork())
    }
    fn feed(&mut self, e: Ev) -> Out {
        self.ev(e.0, e.1)
    }
}
/// What to try in every reachable state; `lv` is the level of the signal, `fork` makes a copy of the
/// receiver. On failure: the events tried.
pub trait AtState: Sync {
    /// how many bits fewer the words may differ from a base word
    fn fewer(&self) -> u32 {
        0
    }
    fn at(&self, _pk: Pk, _f: u32, _lv: bool, _fork: &mut dyn FnMut() -> Box<dyn Dyn>) -> Result<(), (Vec<Ev>, String)> {
        Ok(())
    }
}
/// More states than any receiver without memory of its past has.
fn cap(at: &dyn AtState) -> usize {
    match (ck().thorough, at.fewer()) {
        (true, _) => 12_000_000,
        (_, 0) => 3_000_000,
        _ => 700_000,
    }
}
pub struct Nothing;
impl AtState for Nothing {}

// ---------------------------------------------------------------------------------------------
// Manchester protocols

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Parse {
    /// time units heard
    t: u8,
    /// level of the first half of the current bit
    first: bool,
    word: u32,
}
/// All frames that may be under way, one per rising edge they could have begun with.
#[derive(Clone, Hash)]
pub struct RefMc {
    lv: bool,
    set: Vec<Parse>,
}
/// What time unit `t` of a frame is.
enum Slot {
    Fixed(bool),
    /// first half of bit n of the word (None: a mode bit), second unit of it?
    First(Option<u8>, bool),
    Second,
}
fn slot(pk: Pk, t: u8) -> Slot {
    if pk == Pk::Rc5 {
        // second half of the first start bit, then 13 bits
        if t == 0 {
            return Slot::Fixed(true);
        }
        let (b, h) = ((t - 1) / 2, (t - 1) % 2);
        return if h == 0 { Slot::First(Some(12 - b), false) } else { Slot::Second };
    }
    match t {
        0..=5 => Slot::Fixed(true),
        6..=7 => Slot::Fixed(false),
        8 => Slot::Fixed(true),
        9 => Slot::Fixed(false),
        10..=15 if t % 2 == 0 => Slot::First(None, false),
        10..=15 => Slot::Second,
        16 => Slot::First(Some(16), false),
        17 => Slot::First(Some(16), true),
        18 | 19 => Slot::Second,
        _ if t % 2 == 0 => Slot::First(Some(15 - (t - 20) / 2), false),
        _ => Slot::Second,
    }
}
/// The middle of the last bit.
fn done_at(pk: Pk) -> u8 {
    if pk == Pk::Rc5 { 26 } else { 51 }
}
impl RefMc {
    /// The words of frames complete at the edge that ends a run of `u` units (0: no run of a frame).
    fn edge(&mut self, pk: Pk, u: u8, out: &mut Vec<u32>) {
        let lv = self.lv;
        out.clear();
        self.set.retain_mut(|p| {
            if u == 0 {
                return false;
            }
            for _ in 0..u {
                let ok = match slot(pk, p.t) {
                    Slot::Fixed(l) => l == lv,
                    Slot::First(b, false) => {
                        p.first = lv;
                        if let Some(b) = b {
                            // RC-5: one is low-high, RC-6: one is high-low
                            p.word |= ((lv == (pk == Pk::Rc6)) as u32) << b;
                        }
                        true
                    }
                    Slot::First(_, true) => p.first == lv,
                    Slot::Second => p.first != lv,
                };
                p.t += 1;
                if !ok || p.t > done_at(pk) {
                    return false;
                }
            }
            if p.t == done_at(pk) {
                out.push(p.word);
                return false;
            }
            // the level changes here
            match slot(pk, p.t) {
                Slot::Fixed(l) => l != lv,
                Slot::First(_, true) => false,
                Slot::Second => p.first == lv,
                _ => true,
            }
        });
        self.lv = !lv;
        if self.lv {
            self.set.push(Parse { t: 0, first: false, word: 0 });
        }
        self.set.sort_unstable();
        self.set.dedup();
    }
}

pub struct McGuide<'a, M> {
    pub pk: Pk,
    pub f: u32,
    pub ls: Vec<u32>,
    cls: Vec<(u8, (u64, u64))>,
    /// base words, and how many bits a frame may differ from one
    words: Option<(Vec<u32>, u32)>,
    pub judge: bool,
    /// also calls of reset
    pub reset: bool,
    pub at: &'a (dyn Fn(&M, bool) -> Result<(), (Vec<Ev>, String)> + Sync + 'a),
}
impl<'a, M> McGuide<'a, M> {
    /// `dist`: only words within so many bits of a base word.
    pub fn new(pk: Pk, f: u32, dist: Option<u32>, judge: bool, at: &'a (dyn Fn(&M, bool) -> Result<(), (Vec<Ev>, String)> + Sync + 'a)) -> Self {
        let us: &[u8] = if pk == Pk::Rc5 { &[1, 2] } else { &[1, 2, 3, 6] };
        McGuide {
            pk,
            f,
            ls: mc_letters(pk, f),
            cls: us.iter().map(|u| (*u, run_ranges(pk, *u, f).1)).collect(),
            words: dist.map(|d| (base_words(pk).iter().map(|w| *w as u32).collect(), d)),
            judge,
            reset: false,
            at,
        }
    }
    fn units(&self, d: u32) -> u8 {
        self.cls.iter().find(|(_, r)| (r.0..=r.1).contains(&(d as u64))).map_or(0, |x| x.0)
    }
}
impl<M: Mach> Guide<M> for McGuide<'_, M> {
    type R = RefMc;
    fn init(&self) -> RefMc {
        RefMc { lv: false, set: vec![] }
    }
    fn letters(&self) -> usize {
        self.ls.len() + self.reset as usize
    }
    #[inline]
    fn letter(&self, r: &RefMc, l: usize) -> Option<([Ev; 2], usize)> {
        if l == self.ls.len() {
            return Some(([(true, RESET), (true, 0)], 1));
        }
        let d = self.ls[l];
        if let Some((base, dist)) = &self.words {
            // only frames with a word close to a base word
            let mut c = r.clone();
            c.edge(self.pk, self.units(d), &mut vec![]);
            let n = if self.pk == Pk::Rc5 { 13 } else { 17 };
            for p in &c.set {
                let known = match p.t {
                    t if self.pk == Pk::Rc5 => t as u32 / 2,
                    0..=16 => 0,
                    17..=21 => 1,
                    t => 1 + (t as u32 - 20) / 2,
                };
                let mk = ((1u32 << n) - 1) & !(((1u64 << (n - known)) - 1) as u32);
                if !base.iter().any(|b| ((b ^ p.word) & mk).count_ones() <= *dist) {
                    return None;
                }
            }
        }
        Some(([(!r.lv, d), (false, 0)], 1))
    }
    fn step(&self, r: &mut RefMc, e: Ev, o: Out, hist: &[Ev]) -> Result<bool, String> {
        if e.1 == RESET {
            r.set.clear();
            return Ok(true);
        }
        let u = self.units(e.1);
        let mut done = vec![];
        r.edge(self.pk, u, &mut done);
        if !self.judge {
            return Ok(true);
        }
        if let Err(e) = o {
            return Err(format!("reported error {e:?}"));
        }
        if let Ok(Some(n)) = o {
            if !done.iter().any(|w| meaning(self.pk, *w as u64, false) == Some(n)) && !explains(self.pk, self.f, hist, &n) {
                return Err(format!("reported {n:?}, but the edges are not a well-formed frame with that meaning"));
            }
        }
        Ok(true)
    }
    fn state(&self, m: &M, r: &RefMc) -> Result<(), (Vec<Ev>, String)> {
        (self.at)(m, r.lv)
    }
}

/// All reachable states of the RC-5 and RC-6 receivers.
pub fn reach_mc(group: &str, judge: bool, at: &dyn AtState) {
    let items = [(Pk::Rc6, 1_000_000u32), (Pk::Rc6, 40_000), (Pk::Rc5, 1_000_000), (Pk::Rc5, 40_000)];
    ck().par(group, &items, |(pk, f)| {
        if *pk == Pk::Rc5 { go::<infrared::protocol::Rc5>(*f, judge, at) } else { go::<infrared::protocol::Rc6>(*f, judge, at) }
    });
    fn go<P: Pr>(f: u32, judge: bool, at: &dyn AtState) {
        let pk = P::PK;
        let dist = (pk == Pk::Rc6).then(|| if ck().thorough { 4 } else { 3 } - at.fewer());
        let cap = cap(at);
        let at = |m: &R1<P>, lv| at.at(pk, f, lv, &mut || Box::new(m.fork()));
        let g = McGuide::<R1<P>>::new(pk, f, dist, judge, &at);
        let (n, closed) = reach(pk, f, R1::<P>::new(f), &g, cap);
        note(pk, f, n, closed);
    }
}
