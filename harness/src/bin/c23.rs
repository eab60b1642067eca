//! C23 Front-ends drive any protocol decoder by its contract.
use embedded_hal::digital::v2::InputPin;
use fugit::{TimerDurationU32, TimerDurationU64, TimerInstantU32, TimerInstantU64};
use infrared::cmd::AnyCommand;
use infrared::receiver::time::{InfraMonotonic, PulseSpans};
use infrared::receiver::{DecoderBuilder, DecodingError, Error, MultiReceiver, NoPin, ProtocolDecoder, State};
use infrared::{BufferInputReceiver, PeriodicPoll, Protocol, ProtocolId, Receiver};
use irmc::*;
use std::cell::{Cell, RefCell};

/// Clock types and how their values look as plain numbers.
trait Mo: InfraMonotonic + 'static {
    fn d(x: u64) -> Self::Duration;
    fn t(x: u64) -> Self::Instant;
    fn n(d: Self::Duration) -> u64;
    const BITS: u32;
}
macro_rules! mo {
    ($($t:ty, $d:ty, $i:expr, $mk:expr, $mt:expr, $n:expr, $b:expr;)*) => { $(impl Mo for $t {
        fn d(x: u64) -> $d { ($mk)(x) }
        fn t(x: u64) -> <$t as InfraMonotonic>::Instant { ($mt)(x) }
        fn n(d: $d) -> u64 { ($n)(d) }
        const BITS: u32 = $b;
    })* };
}
mo! {
    u32, u32, 0, |x: u64| x as u32, |x: u64| x as u32, |d: u32| d as u64, 32;
    u64, u64, 0, |x| x, |x| x, |d| d, 64;
    TimerInstantU32<40_000>, TimerDurationU32<40_000>, 0, |x: u64| TimerDurationU32::from_ticks(x as u32), |x: u64| TimerInstantU32::from_ticks(x as u32), |d: TimerDurationU32<40_000>| d.ticks() as u64, 32;
    TimerInstantU64<40_000>, TimerDurationU64<40_000>, 0, TimerDurationU64::from_ticks, TimerInstantU64::from_ticks, |d: TimerDurationU64<40_000>| d.ticks(), 64;
}

/// What the scripted decoder is told and asked.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Call {
    Ev(u8, bool, u64),
    Cmd(u8),
    Reset(u8),
}
/// What it answers to an event.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum A {
    Idle,
    Rcv,
    Done(bool),
    Err(DecodingError),
}
const ANS: [A; 8] = [
    A::Rcv,
    A::Done(true),
    A::Err(DecodingError::Data),
    A::Done(false),
    A::Idle,
    A::Err(DecodingError::Address),
    A::Err(DecodingError::Validation),
    A::Err(DecodingError::RemoteControlError),
];
thread_local! {
    static LOG: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
    static SCRIPT: RefCell<Vec<A>> = const { RefCell::new(vec![]) };
    static BUILT: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
    static PIN: Cell<bool> = const { Cell::new(true) };
}

/// A user-defined protocol, number `K`: answers according to the script, which starts at entry K for
/// the K-th protocol so that the slots of a multi-receiver differ.
struct Mock<const K: u8>;
#[derive(Debug, PartialEq, Clone, Copy)]
struct MockCmd(u8, u32);
#[derive(Debug, PartialEq, Clone, Copy)]
struct Conv(u32);
impl From<MockCmd> for Conv {
    fn from(c: MockCmd) -> Conv {
        Conv(c.1 + 1000)
    }
}
impl From<MockCmd> for AnyCommand {
    fn from(c: MockCmd) -> AnyCommand {
        AnyCommand { protocol: ProtocolId::from(c.0 + 1), raw: 7, address: c.0 as u32, command: c.1, repeat: c.1 % 2 == 1 }
    }
}
impl<const K: u8> Protocol for Mock<K> {
    type Cmd = MockCmd;
}
struct MockDec<M: InfraMonotonic, const K: u8> {
    k: usize,
    last: Option<u32>,
    spans: PulseSpans<M>,
}
impl<M: Mo, const K: u8> DecoderBuilder<M> for Mock<K> {
    type Decoder = MockDec<M, K>;
    fn build(freq: u32) -> Self::Decoder {
        BUILT.with(|b| b.borrow_mut().push(freq));
        MockDec { k: 0, last: None, spans: PulseSpans::new(freq, &[0; 8], &[0; 8]) }
    }
}
fn answer(k: usize, proto: u8) -> A {
    SCRIPT.with(|s| {
        let s = s.borrow();
        s[(k + proto as usize) % s.len()]
    })
}
impl<M: Mo, const K: u8> ProtocolDecoder<Mock<K>, M> for MockDec<M, K> {
    fn event(&mut self, edge: bool, dt: M::Duration) -> State {
        LOG.with(|l| l.borrow_mut().push(Call::Ev(K, edge, M::n(dt))));
        let a = answer(self.k, K);
        self.last = if a == A::Done(true) { Some(self.k as u32) } else { None };
        self.k += 1;
        match a {
            A::Idle => State::Idle,
            A::Rcv => State::Receiving,
            A::Done(_) => State::Done,
            A::Err(e) => State::Error(e),
        }
    }
    fn command(&self) -> Option<MockCmd> {
        LOG.with(|l| l.borrow_mut().push(Call::Cmd(K)));
        self.last.map(|n| MockCmd(K, n))
    }
    fn reset(&mut self) {
        LOG.with(|l| l.borrow_mut().push(Call::Reset(K)));
        self.last = None;
    }
    fn spans(&self) -> &PulseSpans<M> {
        &self.spans
    }
}

struct Pin;
impl InputPin for Pin {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        PIN.with(|p| Ok(p.get()))
    }
    fn is_low(&self) -> Result<bool, u8> {
        PIN.with(|p| Ok(!p.get()))
    }
}

type Res = Result<Option<u32>, DecodingError>;
fn map<C>(r: Result<Option<C>, DecodingError>, f: fn(C) -> u32) -> Res {
    r.map(|o| o.map(f))
}
fn mape<C>(r: Result<Option<C>, Error<u8>>, f: fn(C) -> u32) -> Res {
    match r {
        Ok(o) => Ok(o.map(f)),
        Err(Error::Address) => Err(DecodingError::Address),
        Err(Error::Data) => Err(DecodingError::Data),
        Err(Error::Validation) => Err(DecodingError::Validation),
        Err(Error::RemoteControlError) => Err(DecodingError::RemoteControlError),
        Err(Error::Hal(x)) => Ok(Some(0xDEAD_0000 + x as u32)),
    }
}
fn plain(c: MockCmd) -> u32 {
    c.1
}
fn conv(c: Conv) -> u32 {
    c.0 - 1000
}

/// Does the log of decoder `k` show the contract for these edges?
fn contract(k: u8, evs: &[(bool, u64)]) -> Result<(), String> {
    LOG.with(|l| {
        let l = l.borrow();
        let mut it = l.iter().filter(|c| matches!(c, Call::Ev(x, _, _) | Call::Cmd(x) | Call::Reset(x) if *x == k)).peekable();
        for (i, (e, d)) in evs.iter().enumerate() {
            match it.next() {
                Some(Call::Ev(_, x, y)) if x == e && y == d => {}
                o => return Err(format!("edge {i} ({e}, {d}) reached the decoder as {o:?}")),
            }
            let (mut fetched, mut reset) = (false, false);
            while let Some(c) = it.next_if(|c| !matches!(c, Call::Ev(..))) {
                match c {
                    Call::Cmd(_) if !reset => fetched = true,
                    Call::Reset(_) => reset = true,
                    _ => {}
                }
            }
            let (wf, wr) = match answer(i, k) {
                A::Done(_) => (true, true),
                A::Err(_) => (false, true),
                _ => (false, false),
            };
            if wf && !fetched {
                return Err(format!("the command completed at edge {i} is not fetched before the reset"));
            }
            if wr != reset {
                return Err(format!("after edge {i} the decoder is {}reset", if reset { "" } else { "not " }));
            }
        }
        match it.next() {
            None => Ok(()),
            Some(c) => Err(format!("the decoder gets a further call {c:?}")),
        }
    })
}
fn expect(k: u8, i: usize) -> Res {
    match answer(i, k) {
        A::Done(true) => Ok(Some(i as u32)),
        A::Err(e) => Err(e),
        _ => Ok(None),
    }
}

fn clear() {
    LOG.with(|l| l.borrow_mut().clear());
    BUILT.with(|l| l.borrow_mut().clear());
}
fn bad(front: &str, evs: &[(bool, u64)], what: String) {
    let s = SCRIPT.with(|s| format!("{:?}", s.borrow()));
    ck().violate(format!("{front}, decoder answers {s}: {what}"), format!("kind mock\nfront {front}\nscript {s}\nedges {evs:?}\n"));
}
fn verdict(front: &str, f: u32, ks: &[u8], evs: &[(bool, u64)], got: &[Res]) {
    count(evs.len() as u64, evs.len() as u64, 1);
    let want: Vec<Res> = (0..evs.len()).map(|i| expect(0, i)).collect();
    for r in &want {
        match r {
            Ok(None) => {}
            Ok(Some(_)) => tally(0),
            Err(e) => tally(2 + ne(*e) as usize),
        }
    }
    if got != want {
        return bad(front, evs, format!("reports {got:?}, expected {want:?}"));
    }
    for k in ks {
        if let Err(e) = contract(*k, evs) {
            return bad(front, evs, e);
        }
    }
    if let Some(x) = BUILT.with(|b| b.borrow().iter().find(|x| **x != f).copied()) {
        bad(front, evs, format!("the decoder is built for {x} Hz instead of {f} Hz"));
    }
}

fn clock<M: Mo>(name: &str, evs: &[(bool, u64)]) {
    let f = 40_000;
    let cut: Vec<(bool, u64)> = evs.iter().map(|(e, d)| (*e, if M::BITS == 32 { *d & 0xFFFF_FFFF } else { *d })).collect();
    let evs = &cut[..];
    macro_rules! run {
        ($n:expr, $r:expr, |$x:ident, $e:ident, $d:ident| $b:expr) => {{
            clear();
            let mut $x = $r;
            let got: Vec<Res> = evs.iter().map(|(e, d)| { let ($e, $d) = (*e, *d); $b }).collect();
            verdict(&format!("{} ({name})", $n), f, &[0], evs, &got);
            if stopped() { return; }
        }};
    }
    run!("Receiver::event", Receiver::<Mock<0>, NoPin, M>::new(f), |r, e, d| map(r.event(M::d(d), e), plain));
    run!("Receiver::event_edge", Receiver::<Mock<0>, u8, M>::with_input(f, 3), |r, e, d| map(r.event_edge(M::d(d), e), plain));
    run!("Receiver::event, converted command", Receiver::<Mock<0>, NoPin, M, Conv>::new(f), |r, e, d| map(r.event(M::d(d), e), conv));
    run!("pin-driven Receiver::event", Receiver::<Mock<0>, Pin, M>::with_pin(f, Pin), |r, e, d| { PIN.with(|p| p.set(!e)); mape(r.event(M::d(d)), plain) });
    run!("pin-driven Receiver::event, converted command", Receiver::<Mock<0>, Pin, M, Conv>::with_pin(f, Pin), |r, e, d| { PIN.with(|p| p.set(!e)); mape(r.event(M::d(d)), conv) });
    run!("built Receiver", infrared::receiver().protocol::<Mock<0>>().frequency(f).monotonic::<M>().build(), |r, e, d| map(r.event(M::d(d), e), plain));
    run!("built pin-driven Receiver", infrared::receiver().monotonic::<M>().pin(Pin).frequency(f).protocol::<Mock<0>>().build(), |r, e, d| { PIN.with(|p| p.set(!e)); mape(r.event(M::d(d)), plain) });
    // time stamps: the sum of the intervals stays inside the type
    let mut t = 0u64;
    let fits = evs.iter().all(|(_, d)| { t = t.checked_add(*d).unwrap_or(u64::MAX); t < if M::BITS == 32 { u32::MAX as u64 } else { u64::MAX } });
    if fits {
        let mut t = 0;
        run!("Receiver::event_instant", Receiver::<Mock<0>, NoPin, M>::new(f), |r, e, d| { t += d; map(r.event_instant(M::t(t), e), plain) });
        let mut t = 0;
        run!("pin-driven Receiver::event_instant", Receiver::<Mock<0>, Pin, M>::with_pin(f, Pin), |r, e, d| { t += d; PIN.with(|p| p.set(!e)); mape(r.event_instant(M::t(t)), plain) });
    }
    // several protocols side by side
    macro_rules! multi {
        ($n:literal, $t:ty, $ks:expr) => {{
            clear();
            let mut r = MultiReceiver::<$n, $t, Pin, M>::new(f, Pin);
            let mut got: Vec<Res> = vec![];
            for (i, (e, d)) in evs.iter().enumerate() {
                let x = if i % 2 == 0 { r.event_generic(M::d(*d), *e) } else { PIN.with(|p| p.set(!*e)); r.event(M::d(*d)).unwrap_or_default() };
                for (k, o) in x.iter().enumerate() {
                    let w = match expect(k as u8, i) { Ok(o) => o, Err(_) => None };
                    let ok = match (o, w) {
                        (None, None) => true,
                        (Some(a), Some(n)) => a.protocol == ProtocolId::from(k as u8 + 1) && a.raw == 7 && a.address == k as u32 && a.command == n && a.repeat == (n % 2 == 1),
                        _ => false,
                    };
                    if !ok {
                        return bad(&format!("MultiReceiver of {} ({name})", $n), evs, format!("slot {k} is {o:?} at edge {i}, expected command {w:?}"));
                    }
                }
                got.push(expect(0, i));
            }
            verdict(&format!("MultiReceiver of {} ({name})", $n), f, $ks, evs, &got);
            if stopped() { return; }
        }};
    }
    multi!(2, (Mock<0>, Mock<1>), &[0, 1]);
    multi!(3, (Mock<0>, Mock<1>, Mock<2>), &[0, 1, 2]);
    multi!(4, (Mock<0>, Mock<1>, Mock<2>, Mock<3>), &[0, 1, 2, 3]);
    multi!(5, (Mock<0>, Mock<1>, Mock<2>, Mock<3>, Mock<4>), &[0, 1, 2, 3, 4]);
    multi!(6, (Mock<0>, Mock<1>, Mock<2>, Mock<3>, Mock<4>, Mock<5>), &[0, 1, 2, 3, 4, 5]);
    // buffers: edges alternate, rising first
    if evs.iter().enumerate().all(|(i, (e, _))| *e == (i % 2 == 0)) {
        let buf: Vec<M::Duration> = evs.iter().map(|(_, d)| M::d(*d)).collect();
        let want: Vec<u32> = (0..evs.len()).filter_map(|i| expect(0, i).ok().flatten()).collect();
        for way in 0..3 {
            clear();
            let mut r = BufferInputReceiver::<Mock<0>, M>::with_frequenzy(f);
            let mut rc = BufferInputReceiver::<Mock<0>, M, Conv>::with_frequenzy(f);
            let got: Vec<u32> = match way {
                0 => r.iter(&buf).take(evs.len() + 10).map(plain).collect(),
                1 => rc.iter(&buf).take(evs.len() + 10).map(conv).collect(),
                _ => r.iter_with::<Mock<0>, M, MockCmd>(f, &buf).take(evs.len() + 10).map(plain).collect(),
            };
            if got != want {
                return bad(&format!("buffer iterator {way} ({name})"), evs, { let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count(); format!("yields {} commands, expected {}, first difference at {i}: {:?}, expected {:?}", got.len(), want.len(), got.get(i), want.get(i)) });
            }
            let w: Vec<Res> = (0..evs.len()).map(|i| expect(0, i)).collect();
            verdict(&format!("buffer iterator {way} ({name})"), f, &[0], evs, &w);
        }
    }
}

/// `m`: durations are taken modulo this.
fn polled(m: u64, evs: &[(bool, u64)]) {
    // durations are numbers of polls, at least one; a receiver starts out seeing the idle level
    let mut want = vec![];
    let mut lv = false;
    let mut acc = 0u64;
    for (e, d) in evs {
        let d = d % m + 1;
        acc += d;
        if *e != lv {
            want.push((*e, acc));
            acc = 0;
            lv = *e;
        }
    }
    let f = 40_000;
    for way in 0..5 {
        clear();
        let mut got: Vec<Res> = vec![];
        let mut spurious = false;
        macro_rules! go {
            ($r:expr, |$x:ident, $l:ident| $b:expr) => {{
                let mut $x = $r;
                let mut lv = false;
                for (e, d) in evs {
                    let d = d % m + 1;
                    for k in 1..=d {
                        let $l = if k == d { *e } else { lv };
                        let n = LOG.with(|l| l.borrow().len());
                        let o: Res = $b;
                        if LOG.with(|l| l.borrow().len()) > n { got.push(o) } else if o != Ok(None) { spurious = true }
                    }
                    lv = *e;
                }
            }};
        }
        match way {
            0 => go!(PeriodicPoll::<Mock<0>>::new(f), |r, l| map(r.poll(l), plain)),
            1 => go!(PeriodicPoll::<Mock<0>, NoPin, Conv>::new(f), |r, l| map(r.poll(l), conv)),
            2 => go!(PeriodicPoll::<Mock<0>, Pin>::with_pin(f, Pin), |r, l| { PIN.with(|p| p.set(!l)); mape(r.poll(), plain) }),
            3 => go!(PeriodicPoll::<Mock<0>, u8>::with_input(f, 1), |r, l| map(r.poll_base(l), plain)),
            _ => go!(infrared::receiver().frequency(f).pin(Pin).protocol::<Mock<0>>().build_polled(), |r, l| { PIN.with(|p| p.set(!l)); mape(r.poll(), plain) }),
        }
        let name = format!("polled receiver {way}");
        if spurious {
            return bad(&name, evs, "reports something although the level has not changed".into());
        }
        verdict(&name, f, &[0], &want, &got);
        if stopped() {
            return;
        }
    }
}

fn main() {
    let c = begin("C23");
    let th = c.thorough;
    let n = if th { 7 } else { 6 };
    c.bound(format!("a scripted decoder behind every front-end: all 8^{n} sequences of answers (idle, receiving, done with and without command, each error) with alternating edges, all 8^{} with every edge pattern; 32/64-bit and typed clocks; durations 0, 1, 2^31, 2^32-1 and beyond; polled with 1..5 polls between edges; 2..6 decoders in a multi-receiver", n - 3 + th as usize));
    c.bound("every duration from 0 to 69 999 (thorough 199 999), around powers of two and 4000 larger ones at rising and falling edges, every clock; 1..2999 polls between edges, every 61st (thorough 13th) number to 140 000 and those around powers of two to 2^22 (thorough 2^24); decoders built for every frequency 0..120 000 Hz (thorough 2 MHz), around every power of two and every MHz");
    c.bound("all sequences of 1 and 2 answers repeated to 66 500 (thorough 140 000) edges");
    let all = |n: usize| -> Vec<Vec<A>> {
        let mut v = vec![vec![]];
        for _ in 0..n {
            v = v.iter().flat_map(|s: &Vec<A>| ANS.iter().map(move |a| { let mut x = s.clone(); x.push(*a); x })).collect();
        }
        v
    };
    let durs: [[u64; 8]; 4] = [
        [3, 1, 0, 1000, 2, 77, 5, 9],
        [0, 0, 0, 0, 1, 1, 0, 2],
        [u32::MAX as u64, 1, 1 << 31, 0, u32::MAX as u64 - 1, 6, 7, 8],
        [(1 << 32) + 5, 12, 1 << 40, 1, 1 << 33, 3, 4, 5],
    ];
    let chunk = |v: Vec<Vec<A>>| -> Vec<Vec<Vec<A>>> { v.chunks(64).map(|c| c.to_vec()).collect() };
    let run = |s: &Vec<A>, evs: &[(bool, u64)]| {
        SCRIPT.with(|x| *x.borrow_mut() = s.clone());
        clock::<u32>("u32", evs);
        clock::<u64>("u64", evs);
        clock::<TimerInstantU32<40_000>>("typed, 32 bits", evs);
        clock::<TimerInstantU64<40_000>>("typed, 64 bits", evs);
        polled(5, evs);
        sample(|| format!("answers {s:?} edges {:?}", &evs[..evs.len().min(40)]));
    };
    c.par("answers", &chunk(all(n)), |ss| {
        for (i, s) in ss.iter().enumerate() {
            if stopped() {
                return;
            }
            // one more edge than answers: the script starts over, as after a reset
            let d = &durs[if i % 8 < 5 { 0 } else { i % 4 }];
            let evs: Vec<(bool, u64)> = (0..=s.len()).map(|k| (k % 2 == 0, d[k % 8])).collect();
            run(s, &evs);
        }
    });
    c.par("edge patterns", &chunk(all(n - 3 + th as usize)), |ss| {
        for s in ss {
            for pat in 0..1u32 << (s.len() + 1) {
                if stopped() {
                    return;
                }
                let d = &durs[pat as usize % 4];
                let evs: Vec<(bool, u64)> = (0..=s.len()).map(|k| (pat >> k & 1 == 1, d[k])).collect();
                run(s, &evs);
            }
        }
    });
    // many decoder frequencies
    let mut fs: Vec<u32> = vec![20_000, 38_222, 1_000_000, 48_000_000];
    fs.extend(0..=if th { 2_000_000 } else { 120_000u32 });
    fs.extend((0..32).flat_map(|k| { let x = 1u32 << k; [x.wrapping_sub(1), x, x + 1, x / 2 * 3] }));
    fs.extend((1..=4_294).flat_map(|k| [k * 1_000_000u32, k * 1_000_000 - 7]));
    fs.push(u32::MAX);
    c.par("frequencies", &fs, |f| {
        SCRIPT.with(|x| *x.borrow_mut() = vec![A::Idle]);
        clear();
        let _ = Receiver::<Mock<0>>::new(*f);
        let _ = Receiver::<Mock<0>, u8>::with_input(*f, 1);
        let _ = Receiver::<Mock<0>, Pin>::with_pin(*f, Pin);
        let _ = PeriodicPoll::<Mock<0>>::new(*f);
        let _ = PeriodicPoll::<Mock<0>, Pin>::with_pin(*f, Pin);
        let _ = MultiReceiver::<6, (Mock<0>, Mock<1>, Mock<2>, Mock<3>, Mock<4>, Mock<5>), ()>::new(*f, ());
        let _ = MultiReceiver::<5, (Mock<0>, Mock<1>, Mock<2>, Mock<3>, Mock<4>), ()>::new(*f, ());
        let _ = MultiReceiver::<4, (Mock<0>, Mock<1>, Mock<2>, Mock<3>), ()>::new(*f, ());
        let _ = MultiReceiver::<3, (Mock<0>, Mock<1>, Mock<2>), ()>::new(*f, ());
        let _ = MultiReceiver::<2, (Mock<0>, Mock<1>), ()>::new(*f, ());
        let mut b = BufferInputReceiver::<Mock<0>>::with_frequenzy(*f);
        let _ = b.iter(&[]).next();
        let mut b = BufferInputReceiver::<Mock<0>>::new();
        let _ = b.iter_with::<Mock<1>, u64, MockCmd>(*f, &[]).next();
        let _ = infrared::receiver().frequency(*f).protocol::<Mock<0>>().build();
        let _ = infrared::receiver().frequency(*f).protocol::<Mock<0>>().build_polled();
        count(27, 27, 14);
        verdict("constructors", *f, &[], &[], &[]);
    });
    // every duration, at either edge
    let mut ds: Vec<u64> = (0..if th { 200_000 } else { 70_000 }).collect();
    ds.extend((17..64).flat_map(|k| { let x = 1u64 << k; [x - 2, x - 1, x, x + 1, x + x / 2, x / 5 * 4] }));
    ds.extend((1..1000u64).flat_map(|k| [k * 65_536, k * 1_000_000, k * 4_294_967, k << 32]));
    let cs: Vec<Vec<u64>> = ds.chunks(500).map(|c| c.to_vec()).collect();
    c.par("durations", &cs, |ds| {
        for s in [vec![A::Rcv], vec![A::Idle, A::Idle, A::Done(true)]] {
            SCRIPT.with(|x| *x.borrow_mut() = s.clone());
            for d in ds {
                if stopped() {
                    return;
                }
                let v = [7, *d, 5, 1, *d, *d, 2];
                for up in [0, 1] {
                    let evs: Vec<(bool, u64)> = v.iter().enumerate().map(|(k, d)| (k % 2 == up, *d)).collect();
                    clock::<u32>("u32", &evs);
                    clock::<u64>("u64", &evs);
                    clock::<TimerInstantU32<40_000>>("typed, 32 bits", &evs);
                    clock::<TimerInstantU64<40_000>>("typed, 64 bits", &evs);
                }
            }
        }
    });
    let mut ds: Vec<u64> = (1..if th { 9000 } else { 3000 }).chain((3000..140_000).step_by(if th { 13 } else { 61 })).collect();
    ds.extend((12..if th { 25 } else { 23 }).flat_map(|k| { let x = 1u64 << k; [x - 2, x - 1, x, x + 1, x + x / 2] }));
    c.par("polls between edges", &ds, |d| {
        SCRIPT.with(|x| *x.borrow_mut() = vec![A::Rcv, A::Idle, A::Done(true)]);
        let v = [*d, 2, 9, *d, 1, *d, 3];
        let evs: Vec<(bool, u64)> = v.iter().enumerate().map(|(k, d)| (k % 2 == 0, *d - 1)).collect();
        polled(1 << 40, &evs);
    });
    let mut long: Vec<Vec<A>> = all(1);
    long.extend(all(2).into_iter().filter(|s| s[0] != s[1] || th));
    c.par("long streams", &long, |s| {
        let n = if th { 140_000 } else { 66_500 };
        let evs: Vec<(bool, u64)> = (0..n).map(|k| (k % 2 == 0, durs[0][k % 8] % 10)).collect();
        run(s, &evs);
    });
    c.finish();
}
