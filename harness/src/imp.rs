//! Adapters around the public API of the crate under test.
use crate::spec::*;
use infrared::protocol::*;
use infrared::receiver::{DecoderBuilder, DecodingError, NoPin};
use fugit::{TimerDurationU32, TimerDurationU64, TimerInstantU32, TimerInstantU64};
use infrared::{Protocol, Receiver};

pub trait Norm {
    fn n(&self) -> N;
}
impl Norm for nec::NecCommand {
    fn n(&self) -> N {
        N { pk: Pk::Nec, a: self.addr as u64, b: self.cmd as u32, c: 0, f: self.repeat }
    }
}
impl Norm for nec::SamsungNecCommand {
    fn n(&self) -> N {
        N { pk: Pk::Samsung, a: self.addr as u64, b: self.cmd as u32, c: 0, f: self.repeat }
    }
}
impl Norm for nec::Nec16Command {
    fn n(&self) -> N {
        N { pk: Pk::Nec16, a: self.addr as u64, b: self.cmd as u32, c: 0, f: self.repeat }
    }
}
impl Norm for nec::AppleNecCommand {
    fn n(&self) -> N {
        N {
            pk: Pk::Apple,
            a: self.device_id as u64,
            b: self.command as u32,
            c: self.command_page as u32,
            f: self.repeat,
        }
    }
}
impl Norm for nec::NecDebugCmd {
    fn n(&self) -> N {
        N { pk: Pk::Debug, a: self.bits as u64, b: 0, c: 0, f: false }
    }
}
impl Norm for rc5::Rc5Command {
    fn n(&self) -> N {
        N {
            pk: Pk::Rc5,
            a: self.addr as u64,
            b: self.cmd as u32,
            c: self.start as u32,
            f: self.toggle,
        }
    }
}
impl Norm for rc6::Rc6Command {
    fn n(&self) -> N {
        N { pk: Pk::Rc6, a: self.addr as u64, b: self.cmd as u32, c: 0, f: self.toggle }
    }
}
impl Norm for denon::DenonCommand {
    fn n(&self) -> N {
        N { pk: Pk::Denon, a: self.bits, b: 0, c: 0, f: false }
    }
}
impl Norm for sbp::SbpCommand {
    fn n(&self) -> N {
        N { pk: Pk::Sbp, a: self.address as u64, b: self.command as u32, c: 0, f: self.valid }
    }
}

pub fn ne(e: DecodingError) -> E {
    match e {
        DecodingError::Address => E::Address,
        DecodingError::Data => E::Data,
        DecodingError::Validation => E::Validation,
        DecodingError::RemoteControlError => E::Remote,
    }
}
#[inline]
fn raw<C: Norm>(r: Result<Option<C>, DecodingError>) -> Out {
    match r {
        Ok(o) => Ok(o.map(|c| c.n())),
        Err(e) => Err(ne(e)),
    }
}
pub fn nout<C: Norm>(r: Result<Option<C>, DecodingError>) -> Out {
    match r {
        Ok(None) => Ok(None),
        Ok(Some(c)) => {
            let n = c.n();
            crate::report::tally(if n.f && !matches!(n.pk, Pk::Rc5 | Pk::Rc6 | Pk::Sbp) { 1 } else { 0 });
            Ok(Some(n))
        }
        Err(e) => {
            let e = ne(e);
            crate::report::tally(2 + e as usize);
            Err(e)
        }
    }
}

/// A receivable protocol.
pub trait Pr:
    DecoderBuilder<u32>
    + DecoderBuilder<u64>
    + DecoderBuilder<TimerInstantU32<1_000_000>>
    + DecoderBuilder<TimerInstantU64<1_000_000>>
    + DecoderBuilder<TimerInstantU32<40_000>>
    + DecoderBuilder<TimerInstantU64<40_000>>
    + Protocol<Cmd = Self::C>
    + 'static
{
    type C: Norm;
    const PK: Pk;
    const NAME: &'static str;
}
macro_rules! pr {
    ($($t:ty, $c:ty, $k:ident;)*) => { $(
        impl Pr for $t { type C = $c; const PK: Pk = Pk::$k; const NAME: &'static str = stringify!($k); }
    )* }
}
pr! {
    Nec, nec::NecCommand, Nec;
    Nec16, nec::Nec16Command, Nec16;
    SamsungNec, nec::SamsungNecCommand, Samsung;
    AppleNec, nec::AppleNecCommand, Apple;
    NecDebug, nec::NecDebugCmd, Debug;
    Denon, denon::DenonCommand, Denon;
    Sbp, sbp::SbpCommand, Sbp;
    Rc5, rc5::Rc5Command, Rc5;
    Rc6, rc6::Rc6Command, Rc6;
}

/// Run `$body` with `$P` bound to the protocol type of `$pk`.
#[macro_export]
macro_rules! with_proto {
    ($pk:expr, $P:ident => $body:expr) => {
        match $pk {
            $crate::Pk::Nec => { type $P = ::infrared::protocol::Nec; $body }
            $crate::Pk::Nec16 => { type $P = ::infrared::protocol::Nec16; $body }
            $crate::Pk::Samsung => { type $P = ::infrared::protocol::SamsungNec; $body }
            $crate::Pk::Apple => { type $P = ::infrared::protocol::AppleNec; $body }
            $crate::Pk::Debug => { type $P = ::infrared::protocol::NecDebug; $body }
            $crate::Pk::Denon => { type $P = ::infrared::protocol::Denon; $body }
            $crate::Pk::Sbp => { type $P = ::infrared::protocol::Sbp; $body }
            $crate::Pk::Rc5 => { type $P = ::infrared::protocol::Rc5; $body }
            $crate::Pk::Rc6 => { type $P = ::infrared::protocol::Rc6; $body }
        }
    };
}
/// Same, pulse-distance protocols only.
#[macro_export]
macro_rules! with_pd {
    ($pk:expr, $P:ident => $body:expr) => {
        match $pk {
            $crate::Pk::Nec => { type $P = ::infrared::protocol::Nec; $body }
            $crate::Pk::Nec16 => { type $P = ::infrared::protocol::Nec16; $body }
            $crate::Pk::Samsung => { type $P = ::infrared::protocol::SamsungNec; $body }
            $crate::Pk::Apple => { type $P = ::infrared::protocol::AppleNec; $body }
            $crate::Pk::Debug => { type $P = ::infrared::protocol::NecDebug; $body }
            $crate::Pk::Denon => { type $P = ::infrared::protocol::Denon; $body }
            $crate::Pk::Sbp => { type $P = ::infrared::protocol::Sbp; $body }
            _ => unreachable!(),
        }
    };
}

thread_local! {
    static DIFF: std::cell::Cell<[Out; 4]> = const { std::cell::Cell::new([Ok(None); 4]) };
}
/// The outputs behind the result just returned by `Rx::ev`: one, unless the clock types disagree.
#[inline]
pub fn outs(o: Out) -> ([Out; 4], usize) {
    if o == Err(E::Clocks) {
        (DIFF.with(|x| x.get()), 4)
    } else {
        ([o; 4], 1)
    }
}
/// What a receiver with 32-bit tick durations reports.
pub fn run32<P: Pr>(f: u32, evs: &[Ev]) -> Vec<Out> {
    let mut r: R<P, u32> = Receiver::new(f);
    evs.iter().map(|(e, d)| nout(r.event(*d, *e))).collect()
}
type R<P, M> = Receiver<P, NoPin, M, <P as Protocol>::Cmd>;
/// The event-driven receiver: 32-bit and 64-bit tick durations and, at 40 kHz and 1 MHz, typed
/// instants, in lock step, so that every check judges all clock types. Should they disagree,
/// `Err(E::Clocks)` is returned, which equals no specified output, and `outs` gives all of them.
pub struct Rx<P: Pr> {
    a: R<P, u32>,
    b: R<P, u64>,
    t: Typed<P>,
}
enum Typed<P: Pr> {
    None,
    M1(R<P, TimerInstantU32<1_000_000>>, R<P, TimerInstantU64<1_000_000>>),
    K40(R<P, TimerInstantU32<40_000>>, R<P, TimerInstantU64<40_000>>),
}

impl<P: Pr> Rx<P> {
    #[inline]
    pub fn new(f: u32) -> Self {
        Rx {
            a: Receiver::new(f),
            b: Receiver::new(f),
            t: match f {
                1_000_000 => Typed::M1(Receiver::new(f), Receiver::new(f)),
                40_000 => Typed::K40(Receiver::new(f), Receiver::new(f)),
                _ => Typed::None,
            },
        }
    }
    #[inline]
    pub fn ev(&mut self, edge: bool, dt: u32) -> Out {
        let a = nout(self.a.event(dt, edge));
        let b = raw(self.b.event(dt.into(), edge));
        let (c, d) = match &mut self.t {
            Typed::None => (a, a),
            Typed::M1(x, y) => (
                raw(x.event(TimerDurationU32::from_ticks(dt), edge)),
                raw(y.event(TimerDurationU64::from_ticks(dt.into()), edge)),
            ),
            Typed::K40(x, y) => (
                raw(x.event(TimerDurationU32::from_ticks(dt), edge)),
                raw(y.event(TimerDurationU64::from_ticks(dt.into()), edge)),
            ),
        };
        if a == b && a == c && a == d {
            return a;
        }
        DIFF.with(|x| x.set([a, b, c, d]));
        Err(E::Clocks)
    }
    /// Snapshot for branching. The receiver types own no resources (the crate is no_std without
    /// alloc), so a bitwise copy is an independent receiver in the same state.
    #[inline]
    pub fn fork(&self) -> Self {
        fork(self)
    }
    pub fn run(&mut self, evs: &[Ev]) -> Vec<Out> {
        evs.iter().map(|(e, d)| self.ev(*e, *d)).collect()
    }
}

#[inline]
pub fn fork<T>(t: &T) -> T {
    assert!(!std::mem::needs_drop::<T>(), "type owns resources, cannot be forked bitwise");
    unsafe { std::ptr::read(t) }
}

pub fn show_evs(evs: &[Ev]) -> String {
    evs.iter().map(|(e, d)| format!("{}{}", if *e { 'r' } else { 'f' }, d)).collect::<Vec<_>>().join(" ")
}

/// Replay text for an edge sequence against an event-driven receiver.
pub fn replay_evs(pk: Pk, f: u32, evs: &[Ev], note: &str) -> String {
    format!("kind edges\nproto {pk:?}\nfreq {f}\nedges {}\nnote {note}\n", show_evs(evs))
}

/// A protocol that can be sent; `mk` builds the command that a frame with this word carries.
pub trait Tx: Pr {
    fn mk(word: u64) -> <Self as Protocol>::Cmd;
    /// Same command as received by way of a repeat frame, where the protocol has such.
    fn mk_rep(word: u64) -> Option<<Self as Protocol>::Cmd> {
        let _ = word;
        None
    }
}
impl Tx for Nec {
    fn mk(w: u64) -> nec::NecCommand {
        nec::NecCommand { addr: w as u8, cmd: (w >> 16) as u8, repeat: false }
    }
    fn mk_rep(w: u64) -> Option<nec::NecCommand> {
        let mut c = Self::mk(w);
        c.repeat = true;
        Some(c)
    }
}
impl Tx for SamsungNec {
    fn mk(w: u64) -> nec::SamsungNecCommand {
        nec::SamsungNecCommand { addr: w as u8, cmd: (w >> 16) as u8, repeat: false }
    }
    fn mk_rep(w: u64) -> Option<nec::SamsungNecCommand> {
        let mut c = Self::mk(w);
        c.repeat = true;
        Some(c)
    }
}
impl Tx for Nec16 {
    fn mk(w: u64) -> nec::Nec16Command {
        nec::Nec16Command { addr: w as u16, cmd: (w >> 16) as u8, repeat: false }
    }
    fn mk_rep(w: u64) -> Option<nec::Nec16Command> {
        let mut c = Self::mk(w);
        c.repeat = true;
        Some(c)
    }
}
impl Tx for AppleNec {
    fn mk(w: u64) -> nec::AppleNecCommand {
        nec::AppleNecCommand {
            command_page: (w & 0x1F) as u8,
            command: ((w >> 17) & 0x7F) as u8,
            device_id: (w >> 24) as u8,
            repeat: false,
        }
    }
    fn mk_rep(w: u64) -> Option<nec::AppleNecCommand> {
        let mut c = Self::mk(w);
        c.repeat = true;
        Some(c)
    }
}
impl Tx for NecDebug {
    fn mk(w: u64) -> nec::NecDebugCmd {
        nec::NecDebugCmd { bits: w as u32 }
    }
}
impl Tx for Rc5 {
    fn mk(w: u64) -> rc5::Rc5Command {
        rc5::Rc5Command {
            addr: ((w >> 6) & 0x1F) as u8,
            cmd: (w & 0x3F) as u8,
            start: 2 | ((w >> 12) & 1) as u8,
            toggle: (w >> 11) & 1 == 1,
        }
    }
}
impl Tx for Rc6 {
    fn mk(w: u64) -> rc6::Rc6Command {
        rc6::Rc6Command { addr: (w >> 8) as u8, cmd: w as u8, toggle: (w >> 16) & 1 == 1 }
    }
}
pub const TX: [Pk; 7] = [Pk::Nec, Pk::Nec16, Pk::Samsung, Pk::Apple, Pk::Debug, Pk::Rc5, Pk::Rc6];

/// Run `$body` with `$P` bound to the sendable protocol type of `$pk`.
#[macro_export]
macro_rules! with_tx {
    ($pk:expr, $P:ident => $body:expr) => {
        match $pk {
            $crate::Pk::Nec => { type $P = ::infrared::protocol::Nec; $body }
            $crate::Pk::Nec16 => { type $P = ::infrared::protocol::Nec16; $body }
            $crate::Pk::Samsung => { type $P = ::infrared::protocol::SamsungNec; $body }
            $crate::Pk::Apple => { type $P = ::infrared::protocol::AppleNec; $body }
            $crate::Pk::Debug => { type $P = ::infrared::protocol::NecDebug; $body }
            $crate::Pk::Rc5 => { type $P = ::infrared::protocol::Rc5; $body }
            $crate::Pk::Rc6 => { type $P = ::infrared::protocol::Rc6; $body }
            _ => unreachable!(),
        }
    };
}

pub type Enc<P> = fn(&<P as Protocol>::Cmd, &mut [u32]) -> usize;

/// Encoder entry points of `$P` at every frequency of the list. Instantiated in the binaries (not
/// in the library) so that a compile-time failure is attributed to the right check.
#[macro_export]
macro_rules! enc_table {
    (@ $P:ty; $($f:literal),*) => {{
        let v: Vec<(u32, $crate::Enc<$P>)> = vec![
            $( ($f, <$P as ::infrared::sender::ProtocolEncoder<$f>>::encode as $crate::Enc<$P>) ),*
        ];
        v
    }};
    ($P:ty) => {
        $crate::enc_table!(@ $P;
            20_000, 20_001, 20_011, 20_500, 21_000, 22_050, 22_999, 23_456, 24_000, 24_999, 25_000, 26_999,
            27_777, 30_000, 31_250, 32_000, 32_768, 33_333, 36_000, 38_000, 38_222, 40_000, 41_999, 44_100,
            48_000, 50_000, 62_500, 65_535, 76_800, 100_000, 125_000, 192_000, 250_000, 318_136, 318_137,
            333_333, 477_218, 477_219, 500_000, 500_001, 999_999, 1_000_000, 1_000_001, 1_843_200, 2_000_000,
            3_579_545, 4_000_000, 4_194_304, 7_372_800, 8_000_000, 9_673_360, 9_673_361, 10_000_000, 11_059_200,
            12_000_000, 16_000_000, 24_000_000, 32_000_000, 48_000_000, 64_000_000, 72_000_000, 84_000_000,
            100_000_000, 125_000_000, 168_000_000, 216_000_000, 318_000_000, 477_000_000, 480_000_000,
            600_000_000, 999_999_999, 1_000_000_000, 2_000_000_000, 4_000_000_000, 4_294_967_295,
            16_934_400, 19_200_000, 26_999_999, 33_333_333, 66_666_667, 147_456_789)
    };
}
