//! Alphabets, word sets and edge-stream generators.
use crate::imp::*;
use crate::report::*;
use crate::spec::*;

/// Frequencies used by runtime-configurable receivers.
pub const RX_FREQS: [u32; 8] =
    [40_000, 38_222, 100_000, 500_001, 1_000_000, 8_000_000, 48_000_000, 168_000_000];

pub fn gap(f: u32) -> u32 {
    ticks(25_000, f)
}

/// A nominally timed pulse-distance frame. Starts with the rising edge of the leader (`lead` ticks
/// after the previous event) and ends with the falling edge of the closing mark.
pub fn pd_frame(p: &PdF, word: u64, lead: u32) -> Vec<Ev> {
    let mut v = vec![(true, lead)];
    for s in &p.segs {
        let (m, d) = p.nom(*s, word);
        v.push((false, m));
        v.push((true, d - m));
    }
    v.push((false, ticks(p.pd.tail as u64, p.f)));
    v
}
/// Index (in `pd_frame`) of the event that completes the frame.
pub fn pd_done(p: &PdF) -> usize {
    2 * p.segs.len()
}
pub fn pd_repeat(p: &PdF, lead: u32) -> Vec<Ev> {
    let r = p.pd.repeat.unwrap();
    let m = ticks(r.mark as u64, p.f);
    let d = ticks(r.dist() as u64, p.f);
    vec![(true, lead), (false, m), (true, d - m), (false, ticks(p.pd.tail as u64, p.f))]
}
/// A nominally timed Manchester frame (same conventions).
pub fn mc_frame(pk: Pk, f: u32, word: u64, mode: u8, lead: u32) -> (Vec<Ev>, usize) {
    let (r, done) = runs(pk, word, mode);
    let mut v = vec![(true, lead)];
    for (i, u) in r.iter().enumerate() {
        v.push((i % 2 == 1, ticks(unit(pk) as u64 * *u as u64, f)));
    }
    (v, done)
}
/// Any protocol: (events, index of completing event).
pub fn frame(pk: Pk, f: u32, word: u64, lead: u32) -> (Vec<Ev>, usize) {
    if PD.contains(&pk) {
        let p = PdF::new(pk, f);
        let v = pd_frame(&p, word, lead);
        (v, pd_done(&p))
    } else {
        mc_frame(pk, f, word, 0, lead)
    }
}

/// A handful of structurally different words.
pub fn base_words(pk: Pk) -> Vec<u64> {
    let m = mask(pk);
    match pk {
        Pk::Nec => vec![nec_word(pk, 0, 0), nec_word(pk, 0xFF, 0xFF), nec_word(pk, 0x5A, 0x2C)],
        Pk::Samsung => vec![nec_word(pk, 0, 0), nec_word(pk, 0xFF, 0xFF), nec_word(pk, 0x5A, 0x2C)],
        Pk::Nec16 => vec![nec_word(pk, 0, 0), nec_word(pk, 0xFFFF, 0xFF), nec_word(pk, 0xA55A, 0x2C)],
        Pk::Apple => vec![apple_word(0, 0, 0), apple_word(0x1F, 0x7F, 0xFF), apple_word(0x0E, 0x2E, 0x9B)],
        _ => vec![0, m, 0xAAAA_AAAA_AAAA & m, 0x5555_5555_5555 & m],
    }
}

/// Words every bit of which, every pair of neighbouring bits of which, etc. take all values:
/// all `w`-bit windows at every offset (step `w/2`) over four backgrounds.
pub fn window_words(pk: Pk, w: usize) -> Vec<u64> {
    let n = nbits(pk);
    let m = mask(pk);
    let mut v = vec![];
    let w = w.min(n);
    let mut off = 0;
    loop {
        for bg in [0u64, !0, 0xAAAA_AAAA_AAAA_AAAA, 0x5555_5555_5555_5555] {
            let wm = ((1u64 << w) - 1) << off;
            for x in 0..1u64 << w {
                v.push(((bg & !wm) | x << off) & m);
            }
        }
        if off + w >= n {
            break;
        }
        off = (off + (w / 2).max(1)).min(n - w);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Words a transmitter of the protocol would actually send, enumerated by index.
pub fn valid_count(pk: Pk) -> u64 {
    match pk {
        Pk::Nec | Pk::Samsung => 1 << 16,
        Pk::Nec16 => 1 << 24,
        Pk::Apple => 1 << 20,
        Pk::Rc5 => 1 << 13,
        Pk::Rc6 => 1 << 17,
        _ => mask(pk) + 1,
    }
}
pub fn valid_word(pk: Pk, i: u64) -> u64 {
    match pk {
        Pk::Nec | Pk::Samsung => nec_word(pk, i & 0xFF, i >> 8),
        Pk::Nec16 => nec_word(pk, i & 0xFFFF, i >> 16),
        Pk::Apple => apple_word(i & 0x1F, (i >> 5) & 0x7F, i >> 12),
        _ => i,
    }
}

/// Letters of the pulse-distance alphabet: (mark, space) in ticks.
pub fn pd_letters(p: &PdF, with_edges: bool) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = vec![];
    let mut add = |m: u32, d: u64| {
        let m = (m as u64).min(d) as u32;
        v.push((m, (d - m as u64) as u32));
    };
    for (_, s, mu, ma) in &p.table {
        let m = ticks(s.mark as u64, p.f);
        add(m, ticks(s.dist() as u64, p.f) as u64);
        if let Some((l, h)) = mu {
            if with_edges {
                add(m, *l);
                add(m, *h);
            }
        }
        add(m, ma.1 + 1);
        if ma.0 > 0 {
            add(m, ma.0 - 1);
        }
    }
    let z = ticks(p.pd.zero.mark as u64, p.f);
    add(0, 0);
    add(z, z as u64);
    add(0, 1);
    add(z, z as u64 + gap(p.f) as u64);
    // longest possible intervals, and sums that wrap around 32 bits into a valid symbol
    let one = ticks(p.pd.one.dist() as u64, p.f);
    let hdr = ticks(p.pd.header.dist() as u64, p.f);
    v.push((z, u32::MAX));
    v.push((u32::MAX, u32::MAX));
    v.push((u32::MAX - 9, one + 10));
    v.push((u32::MAX - 9, hdr + 10));
    v.push((one + 10, u32::MAX - 9));
    v.sort_unstable();
    v.dedup();
    v.retain(|(m, s)| p.class(*m as u64 + *s as u64) != Cls::Unsure);
    v
}

/// What a visitor sees after each event.
pub struct Step<'a> {
    pub pk: Pk,
    pub f: u32,
    pub hist: &'a [Ev],
    pub imp: Out,
    /// reference verdict, pulse-distance protocols only
    pub rf: Out,
    /// the event was a repeat frame (idle and repeat distance)
    pub is_repeat: bool,
}
/// What a judge says of a step that is legitimate although the reference decoder went elsewhere:
/// the branch ends there.
pub const UNJUDGED: &str = "";
pub type Visit<'a> = dyn Fn(&Step) -> Result<(), String> + Sync + 'a;

/// Lockstep of the real receiver and the reference decoder.
pub struct Lock<P: Pr> {
    pub rx: Rx<P>,
    pub rf: RefPd,
    pub last: Ev,
}
impl<P: Pr> Lock<P> {
    pub fn new(f: u32) -> Self {
        Lock { rx: Rx::new(f), rf: RefPd::new(), last: (false, 0) }
    }
    #[inline]
    pub fn fork(&self) -> Self {
        Lock { rx: self.rx.fork(), rf: self.rf, last: self.last }
    }
    /// Feed one event. False: stop this branch (violation or no claim possible).
    #[inline]
    pub fn ev(&mut self, p: &PdF, hist: &mut Vec<Ev>, e: Ev, vis: &Visit) -> bool {
        hist.push(e);
        let idle = self.rf.st == St::Idle;
        let rep = e.0 && idle && p.class(self.rf.since + e.1 as u64) == Cls::Repeat;
        let imp = tracked(P::NAME, p.f, hist, || self.rx.ev(e.0, e.1));
        count(0, 1, 0);
        let Some(rf) = self.rf.ev(p, e.0, e.1 as u64) else { return false };
        let (v, n) = outs(imp);
        for imp in v[..n].iter().copied() {
            let st = Step { pk: p.pk, f: p.f, hist, imp, rf, is_repeat: rep };
            if let Err(w) = vis(&st) {
                if w != UNJUDGED {
                    ck().violate(
                        format!("{:?} @ {} Hz: {w}", p.pk, p.f),
                        replay_evs(p.pk, p.f, hist, &format!("last event: library {imp:?}, reference {rf:?}")),
                    );
                }
                return false;
            }
        }
        true
    }
    #[inline]
    pub fn letter(&mut self, p: &PdF, hist: &mut Vec<Ev>, l: (u32, u32), vis: &Visit) -> bool {
        self.ev(p, hist, (false, l.0), vis) && self.ev(p, hist, (true, l.1), vis)
    }
}

/// Deviation-bounded exploration around one frame: starting at segment `i`, follow the nominal
/// frame of `word`, and at up to `k` places replace, insert or delete a segment. Every complete
/// path is followed by a gap and a probe frame.
pub struct DevPd<'a> {
    pub p: &'a PdF,
    pub letters: &'a [(u32, u32)],
    pub word: u64,
    pub probe: &'a [Ev],
    pub vis: &'a Visit<'a>,
    pub structural: bool,
}
impl DevPd<'_> {
    pub fn nominal(&self, i: usize) -> (u32, u32) {
        let (m, d) = self.p.nom(self.p.segs[i], self.word);
        (m, d - m)
    }
    fn close<P: Pr>(&self, mut l: Lock<P>, hist: &mut Vec<Ev>) {
        let n = hist.len();
        let t = ticks(self.p.pd.tail as u64, self.p.f);
        let mut ok = l.ev(self.p, hist, (false, t), self.vis);
        for e in self.probe {
            if !ok {
                break;
            }
            ok = l.ev(self.p, hist, *e, self.vis);
        }
        count(0, 0, 1);
        sample(|| format!("{:?} @ {} Hz: {}", self.p.pk, self.p.f, show_evs(hist)));
        hist.truncate(n);
    }
    /// All continuations from segment i with exactly <= k further deviations.
    pub fn go<P: Pr>(&self, mut l: Lock<P>, mut i: usize, k: usize, hist: &mut Vec<Ev>) {
        let n0 = hist.len();
        loop {
            if stopped() {
                break;
            }
            if k > 0 {
                self.deviate(&l, i, k, hist);
            }
            if i == self.p.segs.len() {
                self.close(l, hist);
                break;
            }
            count(1, 0, 0);
            if !l.letter(self.p, hist, self.nominal(i), self.vis) {
                break;
            }
            i += 1;
        }
        hist.truncate(n0);
    }
    /// All continuations whose first deviation happens exactly at segment i.
    pub fn deviate<P: Pr>(&self, l: &Lock<P>, i: usize, k: usize, hist: &mut Vec<Ev>) {
        let n = hist.len();
        let end = i == self.p.segs.len();
        if !end && self.structural {
            self.go(l.fork(), i + 1, k - 1, hist); // delete
        }
        for le in self.letters {
            if stopped() {
                return;
            }
            count(1, 0, 0);
            let mut b = l.fork();
            if b.letter(self.p, hist, *le, self.vis) {
                if !end {
                    if self.structural {
                        self.go(b.fork(), i, k - 1, hist); // insert
                    }
                    self.go(b, i + 1, k - 1, hist); // replace
                } else {
                    self.go(b, i, k - 1, hist);
                }
            }
            hist.truncate(n);
        }
    }
    /// Feed the nominal frame up to (not including) segment i.
    pub fn prefix<P: Pr>(&self, i: usize, lead: u32) -> Option<(Lock<P>, Vec<Ev>)> {
        let mut l = Lock::<P>::new(self.p.f);
        let mut h = vec![];
        if !l.ev(self.p, &mut h, (true, lead), self.vis) {
            return None;
        }
        for j in 0..i {
            if !l.letter(self.p, &mut h, self.nominal(j), self.vis) {
                return None;
            }
        }
        Some((l, h))
    }
}

/// The whole pulse-distance exploration shared by C04 and C20.
pub fn explore_pd(vis: &Visit) {
    let c = ck();
    // group 0: all windows of the word, whole frames and frames that break off in the last bits
    let mut items = vec![];
    for pk in PD {
        for (f, n) in [(1_000_000u32, if c.thorough { 17 } else { 15 }), (40_000, 10)] {
            let ws = window_words(pk, if nbits(pk) > 32 && n > 10 { n - 2 } else { n });
            for ch in ws.chunks(4096) {
                items.push((pk, f, ch.to_vec()));
            }
        }
    }
    c.par("frames of all bit windows, whole and cut short", &items, |(pk, f, ws)| {
        let p = PdF::new(*pk, *f);
        if !p.usable() {
            return;
        }
        let rep = if p.pd.repeat.is_some() { pd_repeat(&p, gap(*f)) } else { vec![(true, gap(*f)), (false, 1)] };
        crate::with_pd!(*pk, P => {
            for (i, w) in ws.iter().enumerate() {
                let fr = pd_frame(&p, *w, gap(*f));
                // cut before the last 0..4 bits, at the falling edge
                let cut = fr.len() - 1 - 2 * (i % 5);
                let mut l = Lock::<P>::new(*f);
                let mut h = vec![];
                count(1, 0, 1);
                let _ = fr[..cut].iter().chain(&fr).chain(&rep).all(|e| l.ev(&p, &mut h, *e, vis));
                if stopped() { return; }
            }
        })
    });
    // group 1: deviations
    let k = 2;
    let mut items = vec![];
    for pk in PD {
        for f in [1_000_000u32, 40_000, 48_000_000] {
            if !PdF::new(pk, f).usable() {
                continue;
            }
            let quickset = f == 1_000_000 || c.thorough;
            for (wi, w) in base_words(pk).into_iter().enumerate() {
                let kk = if quickset && (wi == 2 || c.thorough) { k } else { 1 };
                for i in 0..=PdF::new(pk, f).segs.len() {
                    items.push((pk, f, w, i, kk));
                }
            }
        }
    }
    c.par("frames with <=2 replaced/inserted/deleted segments", &items, |(pk, f, w, i, k)| {
        let p = PdF::new(*pk, *f);
        let letters = pd_letters(&p, *k < 2 || c.thorough);
        let probe = pd_frame(&p, !*w & mask(*pk), gap(*f));
        let d = DevPd { p: &p, letters: &letters, word: *w, probe: &probe, vis, structural: true };
        with_pd_go(&d, *pk, *i, *k);
    });
    // group 2: every single interval length at every position
    let mut items = vec![];
    for pk in PD {
        for f in [1_000_000u32, 40_000] {
            let p = PdF::new(pk, f);
            if !p.usable() {
                continue;
            }
            for i in 0..=p.segs.len() {
                for w in [base_words(pk)[2]] {
                    items.push((pk, f, w, i));
                }
            }
        }
    }
    c.par("every length of one interval, at every position", &items, |(pk, f, w, i)| {
        let p = PdF::new(*pk, *f);
        let top = ticks(16_000, *f);
        let m = ticks(p.pd.zero.mark as u64, *f);
        let letters: Vec<(u32, u32)> = (0..top)
            .map(|d| (m.min(d), d - m.min(d)))
            .chain((0..top).step_by(7).map(|d| (d, 0)))
            .chain((0..top).step_by(5).map(|d| (d / 2, d - d / 2)))
            .collect();
        let d = DevPd { p: &p, letters: &letters, word: *w, probe: &[], vis, structural: false };
        with_pd_go(&d, *pk, *i, 1);
    });
    // group 3: all short sequences of letters
    let depth = if c.thorough { 5 } else { 4 };
    let mut items = vec![];
    for pk in PD {
        for f in [1_000_000u32, 40_000] {
            let p = PdF::new(pk, f);
            if !p.usable() {
                continue;
            }
            for l in pd_letters(&p, true) {
                items.push((pk, f, l));
            }
        }
    }
    c.par("all short letter sequences", &items, |(pk, f, l0)| {
        let p = PdF::new(*pk, *f);
        let letters = pd_letters(&p, false);
        crate::with_pd!(*pk, P => {
            fn rec<P: Pr>(p: &PdF, l: &Lock<P>, ls: &[(u32, u32)], d: usize, h: &mut Vec<Ev>, vis: &Visit) {
                if d == 0 || stopped() { count(0, 0, 1); sample(|| format!("{:?} @ {} Hz: {}", p.pk, p.f, show_evs(h))); return; }
                let n = h.len();
                for le in ls {
                    let mut b = l.fork();
                    count(1, 0, 0);
                    if b.letter(p, h, *le, vis) { rec(p, &b, ls, d - 1, h, vis); }
                    h.truncate(n);
                }
            }
            let mut l = Lock::<P>::new(*f);
            let mut h = vec![];
            if l.ev(&p, &mut h, (true, 0), vis) && l.letter(&p, &mut h, *l0, vis) {
                rec::<P>(&p, &l, &letters, depth - 1, &mut h, vis);
            }
        })
    });
    // group 4: histories of whole frames, broken frames, repeats, noise
    let depth = if c.thorough { 4 } else { 3 };
    let mut items = vec![];
    for pk in PD {
        for f in [1_000_000u32, 40_000] {
            if PdF::new(pk, f).usable() {
                for a in 0..stream_items(pk, f).len() {
                    items.push((pk, f, a));
                }
            }
        }
    }
    c.par("all sequences of whole/broken/repeat/foreign frames", &items, |(pk, f, a)| {
        let its = stream_items(*pk, *f);
        let p = PdF::new(*pk, *f);
        crate::with_pd!(*pk, P => {
            fn rec<P: Pr>(p: &PdF, l: &Lock<P>, its: &[Item], d: usize, h: &mut Vec<Ev>, vis: &Visit) {
                if d == 0 || stopped() { count(0, 0, 1); sample(|| format!("{:?} @ {} Hz: {}", p.pk, p.f, show_evs(h))); return; }
                for it in its { one::<P>(p, l, it, its, d, h, vis); }
            }
            fn one<P: Pr>(p: &PdF, l: &Lock<P>, it: &Item, its: &[Item], d: usize, h: &mut Vec<Ev>, vis: &Visit) {
                let n = h.len();
                let mut b = l.fork();
                count(1, 0, 0);
                if it.evs.iter().all(|e| b.ev(p, h, *e, vis)) { rec(p, &b, its, d - 1, h, vis); }
                h.truncate(n);
            }
            let mut h = vec![];
            one::<P>(&p, &Lock::<P>::new(*f), &its[*a], &its, depth, &mut h, vis);
        })
    });
}

fn with_pd_go(d: &DevPd, pk: Pk, i: usize, k: usize) {
    crate::with_pd!(pk, P => {
        if let Some((l, mut h)) = d.prefix::<P>(i, gap(d.p.f)) {
            d.deviate(&l, i, k, &mut h);
        }
    })
}

/// A building block of edge streams. Starts with a rising and ends with a falling edge, so any two
/// can be concatenated.
#[derive(Clone, Debug)]
pub struct Item {
    pub name: String,
    pub evs: Vec<Ev>,
}

/// Structurally different building blocks for a receiver of `pk` at `f`.
pub fn stream_items(pk: Pk, f: u32) -> Vec<Item> {
    let g = gap(f);
    let mut v: Vec<Item> = vec![];
    let mut add = |n: &str, evs: Vec<Ev>| {
        debug_assert!(evs[0].0 && !evs.last().unwrap().0 && evs.len() % 2 == 0);
        v.push(Item { name: n.into(), evs });
    };
    let closed = |mut e: Vec<Ev>| {
        if e.last().unwrap().0 {
            e.push((false, ticks(500, f)));
        }
        e
    };
    let ws = base_words(pk);
    let (fa, done) = frame(pk, f, ws[2], g);
    let (fb, _) = frame(pk, f, ws[1], g);
    add("frame A", closed(fa.clone()));
    add("frame B", closed(fb.clone()));
    let tight = frame(pk, f, ws[2], ticks(3000, f)).0;
    add("frame A after 3 ms", closed(tight));
    for cut in [1usize, 3, 2 + done / 2, done - 1, done] {
        let mut e = fb[..cut].to_vec();
        if e.last().unwrap().0 {
            e.push((false, ticks(500, f)));
        }
        add(&format!("frame B cut after {cut} edges"), e);
    }
    for at in [2usize, 5, done / 2, done - 2] {
        let mut e = closed(fb.clone());
        e[at].1 = e[at].1 * 3 / 2 + 3;
        e[at - 1].1 = e[at - 1].1 * 3 / 2 + 3;
        add(&format!("frame B stretched at {at}"), e);
    }
    {
        let mut e = closed(fb.clone());
        e[done / 2].1 = 0;
        add("frame B with zero interval", e);
    }
    if PD.contains(&pk) {
        // the same distances between rising edges, divided in extreme ways
        let mut z = closed(fa.clone());
        for i in 1..=done / 2 {
            let (m, n) = (z[2 * i - 1].1, z[2 * i].1);
            (z[2 * i - 1].1, z[2 * i].1) = if i % 3 == 1 { (0, m + n) } else { (m + n, 0) };
        }
        add("frame A with zero marks and spaces", z);
    }
    add("spike", vec![(true, g), (false, ticks(60, f).max(1))]);
    add("zero spike", vec![(true, 0), (false, 0)]);
    add("burst", vec![(true, ticks(889, f)), (false, ticks(889, f)), (true, ticks(560, f)), (false, ticks(560, f))]);
    if NECS.contains(&pk) {
        let p = PdF::new(pk, f);
        add("repeat", pd_repeat(&p, g));
    }
    if pk == Pk::Apple {
        add("wrong parity", closed(frame(pk, f, ws[2] ^ (1 << 30), g).0));
        add("wrong vendor", closed(frame(pk, f, ws[2] ^ (3 << 6), g).0));
    }
    let other = if pk == Pk::Rc5 { Pk::Nec } else { Pk::Rc5 };
    add("foreign frame", closed(frame(other, f, base_words(other)[2], g).0));
    if pk == Pk::Nec || pk == Pk::Samsung {
        let o2 = if pk == Pk::Nec { Pk::Samsung } else { Pk::Nec };
        add("foreign nec", closed(frame(o2, f, base_words(o2)[2], g).0));
    }
    v
}

/// All sequences of `n` items, concatenated (the last one followed by a gap edge so that every
/// pending error surfaces).
pub fn streams(pk: Pk, f: u32, n: usize) -> Vec<Vec<Ev>> {
    let its = stream_items(pk, f);
    let mut out: Vec<Vec<Ev>> = vec![];
    let mut idx = vec![0usize; n];
    loop {
        let mut s: Vec<Ev> = vec![];
        for i in &idx {
            s.extend_from_slice(&its[*i].evs);
        }
        s.push((true, gap(f)));
        s.push((false, ticks(560, f)));
        out.push(s);
        let mut k = 0;
        loop {
            if k == n {
                return out;
            }
            idx[k] += 1;
            if idx[k] < its.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
    }
}

/// Alternating random-free noise: all interval sequences of length `n` over `alpha`, first edge
/// rising.
pub fn noise(alpha: &[u32], n: usize) -> Vec<Vec<Ev>> {
    let mut out = vec![vec![]];
    for i in 0..n {
        let mut nx = Vec::with_capacity(out.len() * alpha.len());
        for s in &out {
            for a in alpha {
                let mut t: Vec<Ev> = s.clone();
                t.push((i % 2 == 0, *a));
                nx.push(t);
            }
        }
        out = nx;
    }
    out
}

/// Letters for Manchester receivers: interval lengths in ticks.
pub fn mc_letters(pk: Pk, f: u32) -> Vec<u32> {
    let mut v = vec![0, 1, gap(f), u32::MAX];
    let top = if pk == Pk::Rc5 { 3 } else { 7 };
    for u in 1..=top {
        v.push(ticks(unit(pk) as u64 * u, f));
    }
    for u in [1u8, 2, 3, 6] {
        if pk == Pk::Rc5 && u > 2 {
            continue;
        }
        let (mu, ma) = run_ranges(pk, u, f);
        if let Some((l, h)) = mu {
            v.push(l as u32);
            v.push(h as u32);
        }
        v.push(ma.1 as u32 + 1);
        v.push((ma.0 as u32).saturating_sub(1));
    }
    v.sort_unstable();
    v.dedup();
    v
}
