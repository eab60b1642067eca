//! C21 Every way of constructing a receiver gives the same receiver.
use embedded_hal::digital::v2::InputPin;
use fugit::{TimerDurationU32, TimerDurationU64, TimerInstantU32, TimerInstantU64};
use infrared::cmd::{AddressCommand, AnyCommand};
use infrared::protocol::*;
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{Builder, DecoderBuilder, Error, MultiReceiver, NoPin};
use infrared::remotecontrol::{Button, RemoteControlModel};
use infrared::{BufferInputReceiver, PeriodicPoll, Protocol, Receiver};
use irmc::*;
use std::cell::Cell;
mod orders;

thread_local! {
    static ACT: Cell<bool> = const { Cell::new(false) };
    /// pins created minus pins dropped
    static ALIVE: Cell<i64> = const { Cell::new(0) };
}
#[derive(Debug)]
pub struct Pin {
    id: u32,
}
impl Pin {
    pub fn new(id: u32) -> Pin {
        ALIVE.with(|a| a.set(a.get() + 1));
        Pin { id }
    }
}
impl Drop for Pin {
    fn drop(&mut self) {
        ALIVE.with(|a| a.set(a.get() - 1));
    }
}
impl InputPin for Pin {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> {
        Ok(!ACT.with(|a| a.get()))
    }
    fn is_low(&self) -> Result<bool, ()> {
        Ok(ACT.with(|a| a.get()))
    }
}
/// A pin that is replaced by a later `pin` call and must not be used.
pub struct Wrong;
impl InputPin for Wrong {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> {
        Ok(false)
    }
    fn is_low(&self) -> Result<bool, ()> {
        Ok(false)
    }
}
/// A protocol that is replaced by a later `protocol` call.
pub type Other = Denon;

type Feed = Box<dyn FnMut(bool, u32) -> Out>;
fn perr(e: Error<()>) -> E {
    match e {
        Error::Address => E::Address,
        Error::Data => E::Data,
        Error::Validation => E::Validation,
        Error::RemoteControlError => E::Remote,
        Error::Hal(()) => panic!("harness: pin cannot fail"),
    }
}
fn pout<C: Norm>(r: Result<Option<C>, Error<()>>) -> Out {
    r.map(|o| o.map(|c| c.n())).map_err(perr)
}
fn act(e: bool) {
    ACT.with(|a| a.set(e));
}

/// Clock types driven with tick counts.
pub trait Clk: InfraMonotonic {
    fn d(t: u32) -> Self::Duration;
    fn i(t: u64) -> Self::Instant;
}
/// Running time stamp for a receiver fed with time stamps.
struct Clock(u64);
impl Clock {
    fn at<M: Clk>(&mut self, d: u32) -> M::Instant {
        self.0 += d as u64;
        M::i(self.0)
    }
}
impl Clk for u32 {
    fn d(t: u32) -> u32 {
        t
    }
    fn i(t: u64) -> u32 {
        assert!(t < 1 << 32, "harness: stream too long for 32-bit time stamps");
        t as u32
    }
}
impl Clk for u64 {
    fn d(t: u32) -> u64 {
        t as u64
    }
    fn i(t: u64) -> u64 {
        t
    }
}
impl<const HZ: u32> Clk for TimerInstantU32<HZ> {
    fn d(t: u32) -> TimerDurationU32<HZ> {
        TimerDurationU32::from_ticks(t)
    }
    fn i(t: u64) -> TimerInstantU32<HZ> {
        TimerInstantU32::from_ticks(t as u32)
    }
}
impl<const HZ: u32> Clk for TimerInstantU64<HZ> {
    fn d(t: u32) -> TimerDurationU64<HZ> {
        TimerDurationU64::from_ticks(t as u64)
    }
    fn i(t: u64) -> TimerInstantU64<HZ> {
        TimerInstantU64::from_ticks(t)
    }
}

struct Way {
    name: String,
    feed: Feed,
}
fn way(name: impl Into<String>, feed: impl FnMut(bool, u32) -> Out + 'static) -> Way {
    Way { name: name.into(), feed: Box::new(feed) }
}

/// All event-driven constructions of a receiver for `P` at `f`. `dflt`: those that rely on the
/// default frequency (f is 1 MHz then).
fn ways<P: Pr + DecoderBuilder<u64>>(f: u32, dflt: bool) -> Vec<Way> {
    let mut v = vec![];
    macro_rules! nopin {
        ($t:expr, $M:ty) => {
            for (n, k) in $t {
                let mut r: Receiver<P, NoPin, $M, <P as Protocol>::Cmd> = k(f);
                v.push(way(format!("builder {n}"), move |e, d| nout(r.event(<$M as Clk>::d(d), e))));
                let mut r: Receiver<P, NoPin, $M, <P as Protocol>::Cmd> = k(f);
                let mut c = Clock(0);
                v.push(way(format!("builder {n}, time stamps"), move |e, d| nout(r.event_instant(c.at::<$M>(d), e))));
            }
        };
    }
    macro_rules! pinned {
        ($t:expr, $M:ty) => {
            for (n, k) in $t {
                let mut r: Receiver<P, Pin, $M, <P as Protocol>::Cmd> = k(f);
                v.push(way(format!("builder {n}"), move |e, d| {
                    act(e);
                    pout(r.event(<$M as Clk>::d(d)))
                }));
                let mut r: Receiver<P, Pin, $M, <P as Protocol>::Cmd> = k(f);
                let mut c = Clock(0);
                v.push(way(format!("builder {n}, time stamps"), move |e, d| {
                    act(e);
                    pout(r.event_instant(c.at::<$M>(d)))
                }));
            }
        };
    }
    if dflt {
        nopin!(orders::rx_p::<P>(), u32);
        nopin!(orders::rx_pm::<P, u32>(), u32);
        nopin!(orders::rx_pm::<P, u64>(), u64);
        pinned!(orders::rx_pn::<P>(), u32);
        pinned!(orders::rx_pmn::<P, u32>(), u32);
        pinned!(orders::rx_pmn::<P, u64>(), u64);
        let mut r = Builder::default().protocol::<P>().build();
        v.push(way("Builder::default", move |e, d| nout(r.event(d, e))));
        return v;
    }
    nopin!(orders::rx_pf::<P>(), u32);
    nopin!(orders::rx_pfm::<P, u32>(), u32);
    nopin!(orders::rx_pfm::<P, u64>(), u64);
    pinned!(orders::rx_pfn::<P>(), u32);
    pinned!(orders::rx_pfmn::<P, u32>(), u32);
    pinned!(orders::rx_pfmn::<P, u64>(), u64);
    let mut r = Receiver::<P, NoPin>::with_input(f, NoPin);
    v.push(way("Receiver::with_input(NoPin)", move |e, d| nout(r.event(d, e))));
    let mut r = Receiver::<P, &str>::with_input(f, "x");
    v.push(way("Receiver::with_input(custom)", move |e, d| nout(r.event_edge(d, e))));
    let mut r = Receiver::<P, Pin>::with_pin(f, Pin::new(1));
    v.push(way("Receiver::with_pin", move |e, d| {
        act(e);
        pout(r.event(d))
    }));
    let mut r = Receiver::<P, Pin>::with_pin(f, Pin::new(1));
    let mut c = Clock(0);
    v.push(way("Receiver::with_pin, time stamps", move |e, d| {
        act(e);
        pout(r.event_instant(c.at::<u32>(d)))
    }));
    let mut r = Receiver::<P, Pin>::with_pin(f, Pin::new(1));
    v.push(way("Receiver::with_pin, event_edge", move |e, d| {
        act(!e);
        nout(r.event_edge(d, e))
    }));
    let mut r = Receiver::<P, Pin>::with_input(f, Pin::new(1));
    v.push(way("Receiver::with_input(pin)", move |e, d| {
        act(e);
        pout(r.event(d))
    }));
    let mut r = Receiver::<P, NoPin, u64, <P as Protocol>::Cmd>::new(f);
    v.push(way("Receiver::new, u64", move |e, d| nout(r.event(d as u64, e))));
    let mut r = Receiver::<P, Pin, u64, <P as Protocol>::Cmd>::with_pin(f, Pin::new(1));
    v.push(way("Receiver::with_pin, u64", move |e, d| {
        act(e);
        pout(r.event(d as u64))
    }));
    v
}

fn fugits<P, const HZ: u32>() -> Vec<Way>
where
    P: Pr + DecoderBuilder<TimerInstantU32<HZ>> + DecoderBuilder<TimerInstantU64<HZ>>,
{
    let mut v = vec![];
    macro_rules! both {
        ($M:ty, $with:ident) => {
            for (n, k) in orders::rx_pfm::<P, $M>() {
                let mut r = k(HZ);
                v.push(way(format!("builder {n}, {}", stringify!($M)), move |e, d| nout(r.event(<$M as Clk>::d(d), e))));
            }
            for (n, k) in orders::rx_pfmn::<P, $M>() {
                let mut r = k(HZ);
                v.push(way(format!("builder {n}, {}", stringify!($M)), move |e, d| {
                    act(e);
                    pout(r.event(<$M as Clk>::d(d)))
                }));
                let mut r = k(HZ);
                let mut c = Clock(0);
                v.push(way(format!("builder {n}, {}, time stamps", stringify!($M)), move |e, d| {
                    act(e);
                    pout(r.event_instant(c.at::<$M>(d)))
                }));
            }
            let mut r = Receiver::<P, Pin, $M, <P as Protocol>::Cmd>::$with(Pin::new(3));
            v.push(way(format!("Receiver::{}, {}", stringify!($with), stringify!($M)), move |e, d| {
                act(e);
                pout(r.event(<$M as Clk>::d(d)))
            }));
            let mut r = Receiver::<P, Pin, $M, <P as Protocol>::Cmd>::$with(Pin::new(3));
            let mut c = Clock(0);
            v.push(way(format!("Receiver::{}, {}, time stamps", stringify!($with), stringify!($M)), move |e, d| {
                act(e);
                pout(r.event_instant(c.at::<$M>(d)))
            }));
            let mut r = Receiver::<P, NoPin, $M, <P as Protocol>::Cmd>::new(HZ);
            let mut c = Clock(0);
            v.push(way(format!("Receiver::new, {}, time stamps", stringify!($M)), move |e, d| nout(r.event_instant(c.at::<$M>(d), e))));
            let mut r = Receiver::<P, NoPin, $M, <P as Protocol>::Cmd>::new(HZ);
            v.push(way(format!("Receiver::new, {}", stringify!($M)), move |e, d| nout(r.event(<$M as Clk>::d(d), e))));
            let mut r = Receiver::<P, Pin, $M, <P as Protocol>::Cmd>::with_pin(HZ, Pin::new(3));
            v.push(way(format!("Receiver::with_pin, {}", stringify!($M)), move |e, d| {
                act(e);
                pout(r.event(<$M as Clk>::d(d)))
            }));
        };
    }
    both!(TimerInstantU32<HZ>, with_fugit);
    both!(TimerInstantU64<HZ>, with_fugit64);
    v
}

fn remotes<P: Pr + DecoderBuilder<u64>, R: RemoteControlModel<Cmd = <P as Protocol>::Cmd> + 'static>(f: u32) -> Vec<Way>
where
    <P as Protocol>::Cmd: AddressCommand + Norm,
{
    let mut v = vec![];
    for (n, k) in orders::rx_pfr::<P, R>() {
        let mut r: Receiver<P, NoPin, u32, Button<R>> = k(f);
        v.push(way(format!("builder {n}"), move |e, d| r.event(d, e).map(|o| o.map(|b| b.command().n())).map_err(ne)));
    }
    for (n, k) in orders::rx_pfnr::<P, R>() {
        let mut r: Receiver<P, Pin, u32, Button<R>> = k(f);
        v.push(way(format!("builder {n}"), move |e, d| {
            act(e);
            r.event(d).map(|o| o.map(|b| b.command().n())).map_err(perr)
        }));
        let mut r: Receiver<P, Pin, u32, Button<R>> = k(f);
        let mut c = Clock(0);
        v.push(way(format!("builder {n}, time stamps"), move |e, d| {
            act(e);
            r.event_instant(c.at::<u32>(d)).map(|o| o.map(|b| b.command().n())).map_err(perr)
        }));
    }
    for (n, k) in orders::rx_pfmnr::<P, R, u64>() {
        let mut r: Receiver<P, Pin, u64, Button<R>> = k(f);
        v.push(way(format!("builder {n}"), move |e, d| {
            act(e);
            r.event(d as u64).map(|o| o.map(|b| b.command().n())).map_err(perr)
        }));
    }
    v
}

/// Polled constructions; the feed is called once per poll (duration ignored).
fn polled<P: Pr + DecoderBuilder<u64>>(f: u32, dflt: bool) -> Vec<Way> {
    let mut v = vec![];
    let mut nopin = |t: Vec<(&'static str, fn(u32) -> PeriodicPoll<P>)>| {
        for (n, k) in t {
            let mut r = k(f);
            v.push(way(format!("polled builder {n}"), move |e, _| nout(r.poll(e))));
        }
    };
    if dflt {
        nopin(orders::po_p::<P>());
    } else {
        nopin(orders::po_pf::<P>());
        nopin(orders::po_pfm::<P, u32>());
        nopin(orders::po_pfm::<P, u64>());
    }
    let mut pinned = |t: Vec<(&'static str, fn(u32) -> PeriodicPoll<P, Pin>)>| {
        for (n, k) in t {
            let mut r = k(f);
            v.push(way(format!("polled builder {n}"), move |e, _| {
                act(e);
                pout(r.poll())
            }));
        }
    };
    if dflt {
        pinned(orders::po_pn::<P>());
        return v;
    }
    pinned(orders::po_pfn::<P>());
    pinned(orders::po_pfmn::<P, u32>());
    pinned(orders::po_pfmn::<P, u64>());
    let mut r = PeriodicPoll::<P>::with_input(f, NoPin);
    v.push(way("PeriodicPoll::with_input(NoPin)", move |e, _| nout(r.poll(e))));
    let mut r = PeriodicPoll::<P, &str>::with_input(f, "x");
    v.push(way("PeriodicPoll::with_input(custom)", move |e, _| nout(r.poll_base(e))));
    let mut r = PeriodicPoll::<P, Pin>::with_pin(f, Pin::new(2));
    v.push(way("PeriodicPoll::with_pin", move |e, _| {
        act(e);
        pout(r.poll())
    }));
    let mut r = PeriodicPoll::<P, Pin>::with_pin(f, Pin::new(2));
    v.push(way("PeriodicPoll::with_pin, poll_base", move |e, _| {
        act(!e);
        nout(r.poll_base(e))
    }));
    let mut r = PeriodicPoll::<P, Pin>::with_input(f, Pin::new(2));
    v.push(way("PeriodicPoll::with_input(pin)", move |e, _| {
        act(e);
        pout(r.poll())
    }));
    v
}
fn polled_remote<P: Pr, R: RemoteControlModel<Cmd = <P as Protocol>::Cmd> + 'static>(f: u32) -> Vec<Way>
where
    <P as Protocol>::Cmd: AddressCommand + Norm,
{
    orders::po_pfnr::<P, R>()
        .into_iter()
        .map(|(n, k)| {
            let mut r: PeriodicPoll<P, Pin, Button<R>> = k(f);
            way(format!("polled builder {n}"), move |e, _| {
                act(e);
                r.poll().map(|o| o.map(|b| b.command().n())).map_err(perr)
            })
        })
        .collect()
}

/// One long stream that pins down the receiver: frames uniformly stretched by every factor in
/// 85..115 % (which crosses every tolerance limit), the frame-level items, repeats.
fn signal(pk: Pk, f: u32, step: usize) -> Vec<Ev> {
    let mut s = vec![];
    for it in stream_items(pk, f) {
        s.extend(&it.evs);
    }
    let w = base_words(pk)[2];
    let (fr, _) = frame(pk, f, w, gap(f));
    for k in (850..1150u64).step_by(step) {
        let mut t: Vec<Ev> = fr.iter().map(|(e, d)| (*e, ((*d as u64 * k + 500) / 1000) as u32)).collect();
        t[0].1 = gap(f);
        if t.last().unwrap().0 {
            t.push((false, ticks(500, f).max(1)));
        }
        if NECS.contains(&pk) {
            t.extend(pd_repeat(&PdF::new(pk, f), gap(f)));
        }
        s.extend(t);
    }
    s
}

fn compare(pk: Pk, f: u32, s: &[Ev], base: &[Out], ways: Vec<Way>, label: &str) {
    for mut w in ways {
        if stopped() {
            return;
        }
        for (i, (e, d)) in s.iter().enumerate() {
            let got = (w.feed)(*e, *d);
            if got != base[i] {
                ck().violate(
                    format!("{pk:?} @ {f} Hz{label}: constructed by {}: edge {i} reports {got:?}, Receiver::new: {:?}", w.name, base[i]),
                    replay_evs(pk, f, &s[..=i], &format!("constructed by {} (order of builder calls: p protocol, f frequency, m monotonic, n pin, r remote; capitals are calls overridden later){label}", w.name)),
                );
                return;
            }
        }
        sample(|| format!("{pk:?} @ {f} Hz{label}: {} ways' edges, e.g. {}", s.len(), w.name));
        count(s.len() as u64, s.len() as u64, 1);
    }
}
fn compare_polled(pk: Pk, f: u32, s: &[Ev], base: &[Out], ways: Vec<Way>, label: &str) {
    for mut w in ways {
        if stopped() {
            return;
        }
        let mut n = 0;
        let mut level = false;
        for (i, (e, d)) in s.iter().enumerate() {
            for k in 0..*d {
                let last = k + 1 == *d;
                if last {
                    level = *e;
                }
                n += 1;
                let got = (w.feed)(level, 0);
                let want = if last { base[i] } else { Ok(None) };
                if got != want {
                    ck().violate(
                        format!("{pk:?} polled @ {f} Hz{label}: constructed by {}: at edge {i} reports {got:?}, expected {want:?}", w.name),
                        replay_evs(pk, f, &s[..=i], &format!("polled, constructed by {}{label}", w.name)),
                    );
                    return;
                }
            }
        }
        sample(|| format!("{pk:?} polled @ {f} Hz{label}: {} polls, {}", n, w.name));
        count(n, n, 1);
    }
}

const FREQS: [u32; 21] = [
    1_000, 2_500, 4_000, 5_000, 8_000, 9_999, 10_000, 15_625, 20_000, 32_768, 38_222, 44_100, 62_500, 100_000, 250_000, 999_999, 1_000_000, 1_843_200, 8_000_000, 16_000_000, 48_000_000,
];
const FUGIT: [u32; 4] = [32_768, 44_100, 1_000_000, 16_000_000];

fn identity<P: Pr + DecoderBuilder<u64>>() {
    let a0 = ALIVE.with(|a| a.get());
    macro_rules! id {
        ($mk:expr) => {{
            let mut r = $mk;
            count(1, 4, 1);
            let i0 = r.pin().id;
            r.pin_mut().id += 1000;
            let i1 = r.pin().id;
            let _ = r.event(0);
            let alive = ALIVE.with(|a| a.get()) - a0;
            let p: Pin = r.release();
            if (i0, i1, p.id, alive) != (7, 1007, 1007, 1) || ALIVE.with(|a| a.get()) - a0 != 1 {
                ck().violate(
                    format!("{:?}: pin 7 handed in, pin() shows {i0}, after changing it to 1007 {i1}, released {} ({alive} pins alive)", P::PK, p.id),
                    format!("kind value\n{}\n", stringify!($mk)),
                );
            }
            drop(p);
        }};
    }
    for (_, k) in orders::rx_pfn::<P>() {
        id!(k(40_000));
    }
    for (_, k) in orders::rx_pfmn::<P, u64>() {
        id!(k(40_000));
    }
    id!(Receiver::<P, Pin>::with_pin(40_000, Pin::new(7)));
    id!(Receiver::<P, Pin>::with_input(40_000, Pin::new(7)));
    {
        for (n, k) in orders::po_pfn::<P>() {
            let r = k(40_000);
            let alive = ALIVE.with(|a| a.get()) - a0;
            drop(r);
            let rest = ALIVE.with(|a| a.get()) - a0;
            count(1, 1, 1);
            if (alive, rest) != (1, 0) {
                ck().violate(format!("{:?}: polled receiver ({n}) holds {alive} pins, after dropping it {rest}", P::PK), format!("kind value\npolled {n}\n"));
            }
        }
    }
}
fn multi_pin() {
    macro_rules! m {
        ($n:literal, $t:ty) => {{
            let mut r = MultiReceiver::<$n, $t, Pin>::new(40_000, Pin::new(7));
            let i0 = r.pin().id;
            r.pin().id = 9;
            let _ = r.event(5);
            let i1 = r.pin().id;
            count(1, 3, 1);
            if (i0, i1) != (7, 9) {
                ck().violate(format!("multi-receiver pin() shows {i0}, then {i1} instead of 7, 9"), "kind value\nmulti pin\n".into());
            }
        }};
    }
    m!(2, (Nec, Rc5));
    m!(3, (Nec, Rc5, Rc6));
    m!(4, (Nec, Rc5, Rc6, Sbp));
    m!(5, (Nec, Rc5, Rc6, Sbp, Denon));
    m!(6, (Nec, Rc5, Rc6, Sbp, Denon, SamsungNec));
}

/// Buffer receivers.
fn buffers<P: Pr + DecoderBuilder<u64>>(f: u32, s: &[Ev], base: &[Out]) {
    let want: Vec<N> = base.iter().filter_map(|o| o.ok().flatten()).collect();
    let b32: Vec<u32> = s.iter().map(|e| e.1).collect();
    let b64: Vec<u64> = s.iter().map(|e| e.1 as u64).collect();
    let bad = |what: &str, got: &[N]| {
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            ck().violate(
                format!("{:?} @ {f} Hz: {what} yields {} commands instead of {}, first difference at command {k}", P::PK, got.len(), want.len()),
                replay_evs(P::PK, f, s, what),
            );
        }
        count(b32.len() as u64, b32.len() as u64, 1);
    };
    let col = |i: &mut dyn Iterator<Item = <P as Protocol>::Cmd>| -> Vec<N> { i.map(|c| c.n()).collect() };
    let mut r = BufferInputReceiver::<P>::with_frequenzy(f);
    bad("BufferInputReceiver::with_frequenzy.iter", &col(&mut r.iter(&b32)));
    bad("second iteration", &col(&mut r.iter(&b32)));
    for own in [1_000_000, f / 2 + 1, 20_000] {
        let mut r = BufferInputReceiver::<P>::with_frequenzy(own);
        bad("iter_with, own resolution differs", &col(&mut r.iter_with::<P, u32, <P as Protocol>::Cmd>(f, &b32)));
        bad("iter_with, u64", &col(&mut r.iter_with::<P, u64, <P as Protocol>::Cmd>(f, &b64)));
        let mut r = BufferInputReceiver::<Denon>::with_frequenzy(own);
        bad("iter_with on a Denon receiver", &col(&mut r.iter_with::<P, u32, <P as Protocol>::Cmd>(f, &b32)));
        let mut r = BufferInputReceiver::<Rc5, u64>::with_frequenzy(own);
        bad("iter_with on an RC-5 u64 receiver", &col(&mut r.iter_with::<P, u32, <P as Protocol>::Cmd>(f, &b32)));
        // interleaving explicit-resolution iteration does not disturb the receiver's own one
        if own != f {
            let mut r = BufferInputReceiver::<P>::with_frequenzy(f);
            let _ = r.iter_with::<P, u32, <P as Protocol>::Cmd>(own, &b32).count();
            bad("iter after iter_with", &col(&mut r.iter(&b32)));
        }
    }
    // an explicit resolution is taken as it is, however odd
    for res in [0, 1, 2, 999, f / 3, f.saturating_mul(3), u32::MAX] {
        let mut a = BufferInputReceiver::<P>::with_frequenzy(f);
        let mut b = BufferInputReceiver::<P>::with_frequenzy(res);
        let x = col(&mut a.iter_with::<P, u32, <P as Protocol>::Cmd>(res, &b32));
        let y = col(&mut b.iter(&b32));
        if x != y {
            ck().violate(
                format!("{:?}: a buffer receiver at {f} Hz yields {} commands from iter_with({res}), one at {res} Hz yields {}", P::PK, x.len(), y.len()),
                replay_evs(P::PK, f, s, "iter_with at another resolution"),
            );
        }
        count(2 * b32.len() as u64, 2 * b32.len() as u64, 2);
    }
    let mut r = BufferInputReceiver::<P, u64, <P as Protocol>::Cmd>::with_frequenzy(f);
    bad("with_frequenzy, u64", &col(&mut r.iter(&b64)));
    if f == 1_000_000 {
        let mut r = BufferInputReceiver::<P>::new();
        bad("BufferInputReceiver::new", &col(&mut r.iter(&b32)));
        let mut r = BufferInputReceiver::<P>::default();
        bad("BufferInputReceiver::default", &col(&mut r.iter(&b32)));
        let mut r = BufferInputReceiver::<P, u64>::new();
        bad("BufferInputReceiver::new, u64", &col(&mut r.iter(&b64)));
        let mut r = BufferInputReceiver::<P>::new();
        let _ = r.iter_with::<P, u32, <P as Protocol>::Cmd>(20_000, &b32).count();
        bad("BufferInputReceiver::new, iter after iter_with", &col(&mut r.iter(&b32)));
    }
}

type Any = (u8, u64, u32, u32, bool);
fn any(c: AnyCommand) -> Any {
    (c.protocol as u8, c.raw, c.address, c.command, c.repeat)
}
/// The command type parameter: generic commands come out of every construction alike.
fn generic<P: Pr>(f: u32, s: &[Ev])
where
    AnyCommand: From<<P as Protocol>::Cmd>,
{
    let mut a = Receiver::<P>::new(f);
    let mut b = Receiver::<P, NoPin, u32, AnyCommand>::new(f);
    let mut c = Receiver::<P, Pin, u32, AnyCommand>::with_pin(f, Pin::new(1));
    let mut all: Vec<Any> = vec![];
    for (i, (e, d)) in s.iter().enumerate() {
        act(*e);
        let x = a.event(*d, *e).map(|o| o.map(|c| any(c.into())));
        let y = b.event(*d, *e).map(|o| o.map(any));
        let z = c.event(*d).map(|o| o.map(any)).map_err(perr);
        if x != y || x.map_err(ne) != z {
            ck().violate(format!("{:?} @ {f} Hz, edge {i}: {x:?}, as generic command {y:?}, pin-driven {z:?}", P::PK), replay_evs(P::PK, f, &s[..=i], "generic command type"));
            return;
        }
        all.extend(x.ok().flatten());
    }
    let buf: Vec<u32> = s.iter().map(|e| e.1).collect();
    let mut r = BufferInputReceiver::<P, u32, AnyCommand>::with_frequenzy(f);
    let got: Vec<Any> = r.iter(&buf).map(any).collect();
    if got != all {
        ck().violate(format!("{:?} @ {f} Hz: buffer receiver's generic commands {got:?}, receiver's {all:?}", P::PK), replay_evs(P::PK, f, s, "generic command type, buffer"));
    }
    if f <= 50_000 {
        let mut q = PeriodicPoll::<P, NoPin, AnyCommand>::new(f);
        let mut got = vec![];
        let mut level = false;
        for (e, d) in s {
            for k in 0..*d {
                if k + 1 == *d {
                    level = *e;
                }
                got.extend(q.poll(level).unwrap_or(None).map(any));
            }
        }
        if !s.iter().any(|e| e.1 == 0) && got != all {
            ck().violate(format!("{:?} @ {f} Hz: polled generic commands {got:?}, receiver's {all:?}", P::PK), replay_evs(P::PK, f, s, "generic command type, polled"));
        }
    }
    count(s.len() as u64, 4 * s.len() as u64, 1);
}

fn main() {
    let c = begin("C21");
    c.bound("9 protocols x 21 frequencies (1 kHz .. 48 MHz, also odd ones): every order of builder calls (protocol, frequency, clock type, pin, remote), also with one call repeated with another value before, all constructors, named protocol methods; 32/64-bit integer and fugit clocks; polled at the frequencies up to 50 kHz (one frame also at 0.1, 1 and 4 MHz); signal = all frame-level items, frames uniformly stretched by 85..115 % in 0.3 % (thorough 0.1 %) steps, repeats; event clocks from 125 MHz to 4 GHz; odd buffer resolutions");
    c.assume("the remote is given after the protocol, because choosing a protocol sets the command type");
    let step = if c.thorough { 1 } else { 3 };
    let mut items = vec![];
    for pk in ALL {
        for f in FREQS {
            items.push((pk, f));
        }
    }
    c.par("event-driven constructions", &items, |(pk, f)| {
        let s = signal(*pk, *f, step);
        with_proto!(*pk, P => {
            let base = run32::<P>(*f, &s);
            compare(*pk, *f, &s, &base, ways::<P>(*f, false), "");
            if *f == 1_000_000 {
                compare(*pk, *f, &s, &base, ways::<P>(*f, true), " (default frequency)");
            }
            buffers::<P>(*f, &s, &base);
        });
    });
    c.par("typed clocks", &items, |(pk, f)| {
        if !FUGIT.contains(f) {
            return;
        }
        let s = signal(*pk, *f, step);
        with_proto!(*pk, P => {
            let base = run32::<P>(*f, &s);
            let w = match *f {
                32_768 => fugits::<P, 32_768>(),
                44_100 => fugits::<P, 44_100>(),
                1_000_000 => fugits::<P, 1_000_000>(),
                _ => fugits::<P, 16_000_000>(),
            };
            compare(*pk, *f, &s, &base, w, "");
        });
    });
    c.par("remotes", &items, |(pk, f)| {
        let s = signal(*pk, *f, step);
        macro_rules! go {
            ($P:ty, $R:ty) => {{
                let base = run32::<$P>(*f, &s);
                compare(*pk, *f, &s, &base, remotes::<$P, $R>(*f), "");
                if *f <= 50_000 {
                    let z: Vec<Ev> = s.iter().map(|e| (e.0, e.1.max(1))).collect();
                    let base = run32::<$P>(*f, &z);
                    compare_polled(*pk, *f, &z, &base, polled_remote::<$P, $R>(*f), "");
                }
            }};
        }
        use infrared::remotecontrol::*;
        match pk {
            Pk::Nec => go!(Nec, nec::SpecialForMp3),
            Pk::Samsung => go!(SamsungNec, nec::SamsungTv),
            Pk::Apple => go!(AppleNec, nec::Apple2009),
            Pk::Rc5 => go!(Rc5, rc5::CdPlayer),
            Pk::Sbp => go!(Sbp, sbp::SamsungBluRayPlayer),
            _ => {}
        }
    });
    c.par("polled constructions", &items, |(pk, f)| {
        let dflt = *f == 1_000_000;
        if *f > 50_000 && !dflt {
            return;
        }
        let s = signal(*pk, *f, if dflt { 60 } else { 2 * step });
        let z: Vec<Ev> = s.iter().map(|e| (e.0, e.1.max(1))).collect();
        with_proto!(*pk, P => {
            let base = run32::<P>(*f, &z);
            compare_polled(*pk, *f, &z, &base, polled::<P>(*f, dflt), if dflt { " (default frequency)" } else { "" });
        });
    });
    // fast sampling, one frame
    let fast: Vec<(Pk, u32)> = ALL.into_iter().flat_map(|pk| [100_000u32, 1_000_001, 4_000_000].map(|f| (pk, f))).collect();
    c.par("polled constructions, fast sampling", &fast, |(pk, f)| {
        let mut z = frame(*pk, *f, base_words(*pk)[2], gap(*f)).0;
        if z.last().unwrap().0 {
            z.push((false, ticks(500, *f)));
        }
        with_proto!(*pk, P => {
            let base = run32::<P>(*f, &z);
            compare_polled(*pk, *f, &z, &base, polled::<P>(*f, false), "");
        });
    });
    // very fast clocks, one frame and a repeat
    let fast: Vec<(Pk, u32)> = ALL.into_iter().flat_map(|pk| [125_000_001u32, 168_000_000, 1_200_000_000, 4_000_000_000].map(|f| (pk, f))).collect();
    c.par("event-driven constructions, very fast clocks", &fast, |(pk, f)| {
        let mut z = frame(*pk, *f, base_words(*pk)[2], gap(*f)).0;
        if PD.contains(pk) && pd(*pk).repeat.is_some() {
            z.extend(pd_repeat(&PdF::new(*pk, *f), gap(*f)));
        }
        with_proto!(*pk, P => {
            let base = run32::<P>(*f, &z);
            compare(*pk, *f, &z, &base, ways::<P>(*f, false), "");
            buffers::<P>(*f, &z, &base);
            match *f {
                168_000_000 => compare(*pk, *f, &z, &base, fugits::<P, 168_000_000>(), ""),
                4_000_000_000 => compare(*pk, *f, &z, &base, fugits::<P, 4_000_000_000>(), ""),
                _ => {}
            }
        });
    });
    c.par("named protocol methods", &items, |(pk, f)| {
        let s = signal(*pk, *f, step);
        macro_rules! go {
            ($P:ty, $a:ident, $b:ident, $c:ident, $d:ident) => {{
                let base = run32::<$P>(*f, &s);
                let mut w = vec![];
                for (n, k) in orders::$a() {
                    let mut r = k(*f);
                    w.push(way(n, move |e, d| nout(r.event(d, e))));
                }
                for (n, k) in orders::$b() {
                    let mut r = k(*f);
                    w.push(way(n, move |e, d| {
                        act(e);
                        pout(r.event(d))
                    }));
                }
                compare(*pk, *f, &s, &base, w, "");
                if *f <= 50_000 {
                    let z: Vec<Ev> = s.iter().map(|e| (e.0, e.1.max(1))).collect();
                    let base = run32::<$P>(*f, &z);
                    let mut w = vec![];
                    for (n, k) in orders::$c() {
                        let mut r = k(*f);
                        w.push(way(n, move |e, _| nout(r.poll(e))));
                    }
                    for (n, k) in orders::$d() {
                        let mut r = k(*f);
                        w.push(way(n, move |e, _| {
                            act(e);
                            pout(r.poll())
                        }));
                    }
                    compare_polled(*pk, *f, &z, &base, w, "");
                }
            }};
        }
        match pk {
            Pk::Nec => go!(Nec, named_nec_pf_build, named_nec_pfn_build, named_nec_pf_build_polled, named_nec_pfn_build_polled),
            Pk::Nec16 => go!(Nec16, named_nec16_pf_build, named_nec16_pfn_build, named_nec16_pf_build_polled, named_nec16_pfn_build_polled),
            Pk::Samsung => go!(SamsungNec, named_nec_samsung_pf_build, named_nec_samsung_pfn_build, named_nec_samsung_pf_build_polled, named_nec_samsung_pfn_build_polled),
            Pk::Apple => go!(AppleNec, named_nec_apple_pf_build, named_nec_apple_pfn_build, named_nec_apple_pf_build_polled, named_nec_apple_pfn_build_polled),
            Pk::Rc5 => go!(Rc5, named_rc5_pf_build, named_rc5_pfn_build, named_rc5_pf_build_polled, named_rc5_pfn_build_polled),
            Pk::Rc6 => go!(Rc6, named_rc6_pf_build, named_rc6_pfn_build, named_rc6_pf_build_polled, named_rc6_pfn_build_polled),
            Pk::Sbp => go!(Sbp, named_samsung_bluray_pf_build, named_samsung_bluray_pfn_build, named_samsung_bluray_pf_build_polled, named_samsung_bluray_pfn_build_polled),
            Pk::Denon => go!(Denon, named_denon_pf_build, named_denon_pfn_build, named_denon_pf_build_polled, named_denon_pfn_build_polled),
            Pk::Debug => {}
        }
    });
    c.par("command type parameter", &items, |(pk, f)| {
        let mut s = signal(*pk, *f, step);
        s.iter_mut().for_each(|e| e.1 = e.1.max(1));
        match pk {
            Pk::Nec => generic::<Nec>(*f, &s),
            Pk::Samsung => generic::<SamsungNec>(*f, &s),
            Pk::Apple => generic::<AppleNec>(*f, &s),
            Pk::Rc5 => generic::<Rc5>(*f, &s),
            Pk::Rc6 => generic::<Rc6>(*f, &s),
            Pk::Sbp => generic::<Sbp>(*f, &s),
            Pk::Denon => generic::<Denon>(*f, &s),
            _ => {}
        }
    });
    c.par("pin identity", &ALL, |pk| {
        with_proto!(*pk, P => identity::<P>());
        multi_pin();
    });
    c.finish();
}
