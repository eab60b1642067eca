//! Independent reference: published waveforms, tolerances and reference decoders.
//!
//! Nothing here is derived from the crate under test; all figures are microseconds from the
//! public protocol descriptions (and, for tolerances, from the statements in properties.jsonl).

/// Protocols under test.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Pk {
    Nec,
    Nec16,
    Samsung,
    Apple,
    Debug,
    Denon,
    Sbp,
    Rc5,
    Rc6,
}
pub const ALL: [Pk; 9] =
    [Pk::Nec, Pk::Nec16, Pk::Samsung, Pk::Apple, Pk::Debug, Pk::Denon, Pk::Sbp, Pk::Rc5, Pk::Rc6];
pub const PD: [Pk; 7] =
    [Pk::Nec, Pk::Nec16, Pk::Samsung, Pk::Apple, Pk::Debug, Pk::Denon, Pk::Sbp];
pub const NECS: [Pk; 5] = [Pk::Nec, Pk::Nec16, Pk::Samsung, Pk::Apple, Pk::Debug];

/// Normalised command: every field of every command type fits.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct N {
    pub pk: Pk,
    /// address / device id / raw bits
    pub a: u64,
    /// command
    pub b: u32,
    /// page (Apple) / start bits (RC-5)
    pub c: u32,
    /// repeat (NEC family) / toggle (RC) / valid (SBP)
    pub f: bool,
}

/// Errors, normalised.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum E {
    Address,
    Data,
    Validation,
    Remote,
    /// receivers with different clock types disagree, see `outs`
    Clocks,
}
pub type Out = Result<Option<N>, E>;

/// A pulse-distance symbol: mark + space, judged by the distance between rising edges.
#[derive(Clone, Copy, Debug)]
pub struct Sym {
    pub mark: u32,
    pub space: u32,
    pub tol: u32,
}
impl Sym {
    pub const fn dist(&self) -> u32 {
        self.mark + self.space
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Seg {
    Header,
    Bit(usize),
    Pause,
}

/// Description of a pulse-distance protocol.
#[derive(Clone, Debug)]
pub struct Pd {
    pub header: Sym,
    pub repeat: Option<Sym>,
    pub zero: Sym,
    pub one: Sym,
    pub pause: Option<(usize, Sym)>,
    pub nbits: usize,
    pub tail: u32,
    /// broken frames are reported as errors
    pub errs: bool,
}

pub fn pd(pk: Pk) -> Pd {
    let s = |mark, space, tol| Sym { mark, space, tol };
    match pk {
        Pk::Nec | Pk::Nec16 | Pk::Apple | Pk::Debug => Pd {
            header: s(9000, 4500, 7),
            repeat: Some(s(9000, 2250, 7)),
            zero: s(560, 560, 25),
            one: s(560, 1690, 12),
            pause: None,
            nbits: 32,
            tail: 560,
            errs: true,
        },
        Pk::Samsung => Pd {
            header: s(4500, 4500, 7),
            repeat: Some(s(4500, 2250, 7)),
            zero: s(560, 560, 25),
            one: s(560, 1690, 12),
            pause: None,
            nbits: 32,
            tail: 560,
            errs: true,
        },
        Pk::Denon => Pd {
            header: s(3400, 1600, 8),
            repeat: None,
            zero: s(480, 360, 10),
            one: s(480, 1200, 10),
            pause: None,
            nbits: 48,
            tail: 480,
            errs: false,
        },
        Pk::Sbp => Pd {
            header: s(4500, 4500, 5),
            repeat: None,
            zero: s(500, 500, 10),
            one: s(500, 1500, 10),
            pause: Some((16, s(500, 4500, 5))),
            nbits: 36,
            tail: 500,
            errs: true,
        },
        _ => panic!("not a pulse distance protocol"),
    }
}

impl Pd {
    /// The segments of a frame in order.
    pub fn segs(&self) -> Vec<Seg> {
        let mut v = vec![Seg::Header];
        for i in 0..self.nbits {
            if let Some((at, _)) = self.pause {
                if at == i {
                    v.push(Seg::Pause);
                }
            }
            v.push(Seg::Bit(i));
        }
        v
    }
    pub fn sym(&self, seg: Seg, word: u64) -> Sym {
        match seg {
            Seg::Header => self.header,
            Seg::Pause => self.pause.unwrap().1,
            Seg::Bit(i) => {
                if (word >> i) & 1 == 1 {
                    self.one
                } else {
                    self.zero
                }
            }
        }
    }
}

pub fn mask(pk: Pk) -> u64 {
    match pk {
        Pk::Denon => (1 << 48) - 1,
        Pk::Sbp => (1 << 36) - 1,
        Pk::Rc5 => (1 << 13) - 1,
        Pk::Rc6 => (1 << 17) - 1,
        _ => (1 << 32) - 1,
    }
}
pub fn nbits(pk: Pk) -> usize {
    mask(pk).count_ones() as usize
}

/// What a complete frame carrying `word` means. Bit i of the word is the i-th transmitted bit for
/// pulse-distance protocols. RC-5: 13 bits after the first start bit, first transmitted = bit 12.
/// RC-6: bit 16 = toggle, bits 15..0 = address, command (mode 0).
pub fn meaning(pk: Pk, word: u64, rep: bool) -> Option<N> {
    let n = |a: u64, b: u64, c: u64, f: bool| Some(N { pk, a, b: b as u32, c: c as u32, f });
    let byte = |sh: u32| (word >> sh) & 0xFF;
    match pk {
        Pk::Nec | Pk::Samsung => n(byte(0), byte(16), 0, rep),
        Pk::Nec16 => n(word & 0xFFFF, byte(16), 0, rep),
        Pk::Apple => {
            if (word >> 5) & 0x7FF != 0x43F || word.count_ones() % 2 == 0 {
                None
            } else {
                n(byte(24), (word >> 17) & 0x7F, word & 0x1F, rep)
            }
        }
        Pk::Debug => n(word, 0, 0, false),
        Pk::Denon => n(word, 0, 0, false),
        Pk::Sbp => {
            let cmd = (word >> 20) & 0xFF;
            let inv = (word >> 28) & 0xFF;
            n(word & 0xFFFF, cmd, 0, cmd ^ inv == 0xFF)
        }
        Pk::Rc5 => n((word >> 6) & 0x1F, word & 0x3F, 2 | (word >> 12) & 1, (word >> 11) & 1 == 1),
        Pk::Rc6 => n((word >> 8) & 0xFF, word & 0xFF, 0, (word >> 16) & 1 == 1),
    }
}

/// A word of an Apple frame built from its fields.
pub fn apple_word(page: u64, cmd: u64, dev: u64) -> u64 {
    let w = (page & 0x1F) | (0x43F << 5) | ((cmd & 0x7F) << 17) | ((dev & 0xFF) << 24);
    if w.count_ones() % 2 == 0 {
        w | 1 << 16
    } else {
        w
    }
}
/// A NEC-family word for (address, command).
pub fn nec_word(pk: Pk, a: u64, c: u64) -> u64 {
    let cm = (c & 0xFF) << 16 | (!c & 0xFF) << 24;
    match pk {
        Pk::Nec => (a & 0xFF) | (!a & 0xFF) << 8 | cm,
        Pk::Samsung => (a & 0xFF) | (a & 0xFF) << 8 | cm,
        _ => (a & 0xFFFF) | cm,
    }
}

// ---------------------------------------------------------------------------------------------
// Manchester protocols

pub const RC5_UNIT: u32 = 889;
pub const RC6_UNIT: u32 = 444;

pub fn unit(pk: Pk) -> u32 {
    if pk == Pk::Rc5 {
        RC5_UNIT
    } else {
        RC6_UNIT
    }
}

/// Waveform of a Manchester frame as level runs, in time units, starting with the first mark.
/// Returns (runs, index of the run whose *start* edge completes the frame). Runs alternate
/// mark, space, mark, ...; trailing space is not included.
/// `mode`: RC-6 mode bits.
pub fn runs(pk: Pk, word: u64, mode: u8) -> (Vec<u8>, usize) {
    let mut lv: Vec<bool> = vec![];
    let done_half;
    match pk {
        Pk::Rc5 => {
            // 1 = space, mark; 0 = mark, space. First bit is always 1.
            for i in 0..14 {
                let b = i == 0 || (word >> (13 - i)) & 1 == 1;
                lv.push(!b);
                lv.push(b);
            }
            lv.remove(0);
            done_half = lv.len() - 1;
        }
        Pk::Rc6 => {
            lv.extend([true; 6]);
            lv.extend([false; 2]);
            // start bit and mode; 1 = mark, space
            for b in [true, mode & 4 != 0, mode & 2 != 0, mode & 1 != 0] {
                lv.push(b);
                lv.push(!b);
            }
            let t = (word >> 16) & 1 == 1;
            lv.extend([t, t, !t, !t]);
            for i in (0..16).rev() {
                let b = (word >> i) & 1 == 1;
                lv.push(b);
                lv.push(!b);
            }
            done_half = lv.len() - 1;
        }
        _ => panic!(),
    }
    let mut r: Vec<u8> = vec![];
    let mut done = 0;
    let mut prev = None;
    for (i, l) in lv.iter().enumerate() {
        if prev == Some(*l) {
            *r.last_mut().unwrap() += 1;
        } else {
            r.push(1);
            prev = Some(*l);
        }
        if i == done_half {
            done = r.len() - 1;
        }
    }
    if prev == Some(false) {
        r.pop();
    }
    (r, done)
}

// ---------------------------------------------------------------------------------------------
// Tolerances. All arithmetic is exact: quantities are in 1e-6 ticks.

/// Rounding allowance: 2.5 ticks plus 0.35 % of the nominal length.
fn slack(us: u64, f: u64) -> i128 {
    2_500_000 + (us as i128 * f as i128) * 35 / 10_000
}

/// Inclusive tick ranges (must, may) of an interval of nominally `us` microseconds with tolerance
/// (`lo` %, `hi` %) at `f` Hz. `must` is None if rounding leaves nothing certain.
pub fn ranges(us: u32, lo: u32, hi: u32, f: u32) -> (Option<(u64, u64)>, (u64, u64)) {
    let x = us as i128 * f as i128;
    let s = slack(us as u64, f as u64);
    let a = x * (100 - lo as i128) / 100;
    let b = x * (100 + hi as i128) / 100;
    let up = |v: i128| -> u64 { if v <= 0 { 0 } else { ((v + 999_999) / 1_000_000) as u64 } };
    let dn = |v: i128| -> u64 { if v <= 0 { 0 } else { (v / 1_000_000) as u64 } };
    let (ml, mh) = (up(a + s), dn(b - s));
    let must = if ml <= mh { Some((ml, mh)) } else { None };
    (must, (up(a - s).max(1), dn(b + s)))
}

/// Nearest tick count.
pub fn ticks(us: u64, f: u32) -> u32 {
    ((us as u128 * f as u128 + 500_000) / 1_000_000) as u32
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cls {
    Header,
    Repeat,
    Pause,
    Zero,
    One,
    Bad,
    /// inside a rounding band: no claim either way
    Unsure,
}

/// A pulse-distance protocol at a concrete frequency.
#[derive(Clone, Debug)]
pub struct PdF {
    pub pk: Pk,
    pub f: u32,
    pub pd: Pd,
    pub segs: Vec<Seg>,
    pub table: Vec<(Cls, Sym, Option<(u64, u64)>, (u64, u64))>,
}
impl PdF {
    pub fn new(pk: Pk, f: u32) -> Self {
        let pd = pd(pk);
        let mut table = vec![];
        let mut add = |c, s: Sym| {
            let (mu, ma) = ranges(s.dist(), s.tol, s.tol, f);
            table.push((c, s, mu, ma));
        };
        add(Cls::Header, pd.header);
        if let Some(r) = pd.repeat {
            add(Cls::Repeat, r);
        }
        if let Some((_, p)) = pd.pause {
            add(Cls::Pause, p);
        }
        add(Cls::Zero, pd.zero);
        add(Cls::One, pd.one);
        PdF { pk, f, segs: pd.segs(), pd, table }
    }
    pub fn class(&self, d: u64) -> Cls {
        let mut hit = Cls::Bad;
        for (c, _, mu, ma) in &self.table {
            if d >= ma.0 && d <= ma.1 {
                match mu {
                    Some((l, h)) if d >= *l && d <= *h && hit == Cls::Bad => hit = *c,
                    _ => return Cls::Unsure,
                }
            }
        }
        hit
    }
    /// Nominal rising-edge distance in ticks of a segment.
    pub fn nom(&self, seg: Seg, word: u64) -> (u32, u32) {
        let s = self.pd.sym(seg, word);
        (ticks(s.mark as u64, self.f), ticks(s.dist() as u64, self.f))
    }
    pub fn must(&self, c: Cls) -> Option<(u64, u64)> {
        self.table.iter().find(|t| t.0 == c).and_then(|t| t.2)
    }
    /// All symbols can be told apart and their nominal lengths are safely inside tolerance.
    pub fn usable(&self) -> bool {
        self.table.iter().all(|(c, s, _, _)| self.class(ticks(s.dist() as u64, self.f) as u64) == *c)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum St {
    Idle,
    Rx(usize),
}

/// Reference decoder for pulse-distance protocols.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct RefPd {
    pub st: St,
    pub word: u64,
    /// word of the most recently started data frame, if it was received completely
    pub last: Option<u64>,
    pub since: u64,
}
impl Default for RefPd {
    fn default() -> Self {
        Self::new()
    }
}
impl RefPd {
    pub fn new() -> Self {
        RefPd { st: St::Idle, word: 0, last: None, since: 0 }
    }
    /// Returns None when the interval falls into a rounding band (no claim).
    #[inline]
    pub fn ev(&mut self, p: &PdF, edge: bool, dt: u64) -> Option<Out> {
        self.since += dt;
        if !edge {
            return Some(Ok(None));
        }
        let c = p.class(self.since);
        self.since = 0;
        if c == Cls::Unsure {
            return None;
        }
        Some(match self.st {
            St::Idle => match c {
                Cls::Header => {
                    self.st = St::Rx(1);
                    self.word = 0;
                    self.last = None;
                    Ok(None)
                }
                Cls::Repeat => Ok(self.last.and_then(|w| meaning(p.pk, w, true))),
                _ => Ok(None),
            },
            St::Rx(i) => {
                let ok = match (p.segs[i], c) {
                    (Seg::Bit(b), Cls::One) => {
                        self.word |= 1 << b;
                        true
                    }
                    (Seg::Bit(_), Cls::Zero) => true,
                    (Seg::Pause, Cls::Pause) => true,
                    _ => false,
                };
                if !ok {
                    self.st = St::Idle;
                    if !p.pd.errs {
                        Ok(None)
                    } else if p.pk == Pk::Sbp && matches!(p.segs[i], Seg::Bit(b) if b < 16) {
                        Err(E::Address)
                    } else {
                        Err(E::Data)
                    }
                } else if i + 1 == p.segs.len() {
                    self.st = St::Idle;
                    self.last = Some(self.word);
                    Ok(meaning(p.pk, self.word, false))
                } else {
                    self.st = St::Rx(i + 1);
                    Ok(None)
                }
            }
        })
    }
}

/// One edge event: (rising, ticks since the previous event)
pub type Ev = (bool, u32);

/// Tolerance in % of a Manchester run of `u` units.
pub fn run_tol(pk: Pk, u: u8) -> (u32, u32) {
    match (pk, u) {
        (Pk::Rc5, 1) => (12, 12),
        (Pk::Rc5, _) => (10, 10),
        (_, 6) => (6, 12),
        _ => (12, 12),
    }
}
/// "may" tolerance: what a reported frame may at most deviate.
pub fn run_ranges(pk: Pk, u: u8, f: u32) -> (Option<(u64, u64)>, (u64, u64)) {
    let (l, h) = run_tol(pk, u);
    let (must, _) = ranges(unit(pk) * u as u32, l, h, f);
    let (_, may) = ranges(unit(pk) * u as u32, if u == 6 { 12 } else { l }, h, f);
    (must, may)
}

/// Does the end of `hist`, taken by itself, spell a well-formed frame meaning `cmd`, whatever came
/// before? (pulse-distance protocols)
pub fn explains_pd(p: &PdF, hist: &[Ev], cmd: &N) -> bool {
    if !matches!(hist.last(), Some((true, _))) {
        return false;
    }
    let mut segs = p.segs.iter().rev();
    let mut seg = segs.next();
    let (mut word, mut d, mut open) = (0u64, 0u64, false);
    // walk back, one rising-edge distance at a time
    for (i, e) in hist.iter().enumerate().rev() {
        d += e.1 as u64;
        if i > 0 && !hist[i - 1].0 {
            continue;
        }
        let Some(s) = seg else { break };
        let may = |c: Cls| p.table.iter().any(|t| t.0 == c && d >= t.3 .0 && d <= t.3 .1);
        match s {
            Seg::Header if !may(Cls::Header) => return false,
            Seg::Pause if !may(Cls::Pause) => return false,
            Seg::Bit(b) => match (may(Cls::Zero), may(Cls::One)) {
                (false, false) => return false,
                (true, true) => open = true,
                (_, one) => word |= (one as u64) << b,
            },
            _ => (),
        }
        seg = segs.next();
        d = 0;
    }
    seg.is_none() && (open || meaning(p.pk, word, false) == Some(*cmd))
}

/// Does the end of `hist` spell a well-formed frame meaning `cmd`? (RC-5 / RC-6)
pub fn explains(pk: Pk, f: u32, hist: &[Ev], cmd: &N) -> bool {
    let (word, modes): (u64, std::ops::Range<u8>) = match pk {
        Pk::Rc5 => (
            (cmd.a & 0x1F) << 6
                | (cmd.b as u64 & 0x3F)
                | (cmd.c as u64 & 1) << 12
                | (cmd.f as u64) << 11,
            0..1,
        ),
        _ => ((cmd.a & 0xFF) << 8 | (cmd.b as u64 & 0xFF) | (cmd.f as u64) << 16, 0..8),
    };
    if meaning(pk, word, false) != Some(*cmd) {
        return false;
    }
    for mode in modes {
        let (r, done) = runs(pk, word, mode);
        // events: rising start edge, then the end of runs 0..done-1
        let need = done + 1;
        if hist.len() < need {
            continue;
        }
        let tail = &hist[hist.len() - need..];
        if !tail[0].0 {
            continue;
        }
        let ok = tail[1..].iter().zip(&r).enumerate().all(|(i, (e, u))| {
            let (_, may) = run_ranges(pk, *u, f);
            e.0 == (i % 2 == 1) && (e.1 as u64) >= may.0 && (e.1 as u64) <= may.1
        });
        if ok {
            return true;
        }
    }
    false
}
