//! C12 No input can make the library panic or hang.
use embedded_hal::PwmPin;
use fugit::{TimerDurationU32, TimerDurationU64, TimerInstantU32, TimerInstantU64};
use infrared::protocol::*;
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{BufferInputReceiver, DecoderBuilder, MultiReceiver, NoPin, ProtocolDecoder};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender};
use infrared::{PeriodicPoll, Protocol, Receiver};
use irmc::*;

/// A clock type: how to make its durations and instants from tick counts.
trait Clk {
    type M: InfraMonotonic;
    const NAME: &'static str;
    const MAX: u64;
    fn d(t: u64) -> <Self::M as InfraMonotonic>::Duration;
    fn i(t: u64) -> <Self::M as InfraMonotonic>::Instant;
}
struct C32;
struct C64;
struct F32<const HZ: u32>;
struct F64<const HZ: u32>;
impl Clk for C32 {
    type M = u32;
    const NAME: &'static str = "u32";
    const MAX: u64 = u32::MAX as u64;
    fn d(t: u64) -> u32 {
        t as u32
    }
    fn i(t: u64) -> u32 {
        t as u32
    }
}
impl Clk for C64 {
    type M = u64;
    const NAME: &'static str = "u64";
    const MAX: u64 = u64::MAX;
    fn d(t: u64) -> u64 {
        t
    }
    fn i(t: u64) -> u64 {
        t
    }
}
impl<const HZ: u32> Clk for F32<HZ> {
    type M = TimerInstantU32<HZ>;
    const NAME: &'static str = "fugit u32";
    const MAX: u64 = u32::MAX as u64;
    fn d(t: u64) -> TimerDurationU32<HZ> {
        TimerDurationU32::from_ticks(t as u32)
    }
    fn i(t: u64) -> TimerInstantU32<HZ> {
        TimerInstantU32::from_ticks(t as u32)
    }
}
impl<const HZ: u32> Clk for F64<HZ> {
    type M = TimerInstantU64<HZ>;
    const NAME: &'static str = "fugit u64";
    const MAX: u64 = u64::MAX;
    fn d(t: u64) -> TimerDurationU64<HZ> {
        TimerDurationU64::from_ticks(t)
    }
    fn i(t: u64) -> TimerInstantU64<HZ> {
        TimerInstantU64::from_ticks(t)
    }
}

type Ev64 = (bool, u64);
type Hist = Vec<(bool, u64)>;

fn show(h: &Hist) -> String {
    h.iter().map(|(e, d)| format!("{}{}", if *e { 'r' } else { 'f' }, d)).collect::<Vec<_>>().join(" ")
}
/// Run an exploration step; a panic becomes a violation with the history that led to it.
fn careful(pk: &str, clk: &str, how: &str, f: u32, h: &mut Hist, go: impl FnOnce(&mut Hist)) {
    let r = guard(|| go(h));
    if let Err(e) = r {
        ck().violate(
            format!("{pk} @ {f} Hz ({clk} clock, {how}): {e}"),
            format!("kind panic\nproto {pk}\nfreq {f}\nclock {clk}\nhow {how}\nedges {}\n", show(h)),
        );
    }
}

fn lengths(pk: Pk, f: u32, max: u64) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, max, max - 1, max / 2 + 1, u32::MAX as u64, (1 << 31) - 1];
    if PD.contains(&pk) {
        let p = pd(pk);
        for s in [Some(p.header), p.repeat, Some(p.zero), Some(p.one), p.pause.map(|x| x.1)].into_iter().flatten() {
            v.push(s.dist() as u64 * f as u64 / 1_000_000);
        }
    } else {
        for u in [1u64, 2, 3, 6] {
            v.push(u * unit(pk) as u64 * f as u64 / 1_000_000);
        }
    }
    v.retain(|d| *d <= max);
    v.sort_unstable();
    v.dedup();
    v
}

type Rcv<P, K> = Receiver<P, NoPin, <K as Clk>::M, <P as Protocol>::Cmd>;

/// All sequences of `depth` events (any edge, any length) after `pre`.
fn seqs<P: Pr + DecoderBuilder<K::M>, K: Clk>(f: u32, pre: &[Ev64], depth: usize) {
    let ls = lengths(P::PK, f, K::MAX);
    let mut h = pre.to_vec();
    careful(P::NAME, K::NAME, "durations", f, &mut h, |h| {
        let mut r: Rcv<P, K> = Receiver::new(f);
        for (e, d) in pre {
            let _ = r.event(K::d(*d), *e);
        }
        fn rec<P: Pr + DecoderBuilder<K::M>, K: Clk>(r: &Rcv<P, K>, ls: &[u64], n: usize, h: &mut Hist) {
            if n == 0 {
                count(0, 0, 1);
                return;
            }
            for e in [true, false] {
                for d in ls {
                    let mut b = fork(r);
                    h.push((e, *d));
                    let _ = b.event(K::d(*d), e);
                    count(1, 1, 0);
                    rec::<P, K>(&b, ls, n - 1, h);
                    h.pop();
                }
            }
        }
        if !stopped() {
            rec::<P, K>(&r, &ls, depth, h);
            sample(|| format!("{} @ {f} Hz, {} clock: all sequences of {depth} events after [{}]", P::NAME, K::NAME, show(h)));
        }
    });
}
/// All sequences of `depth` time stamps.
fn stamps<P: Pr + DecoderBuilder<K::M>, K: Clk>(f: u32, _: &[Ev64], depth: usize) {
    let ls = lengths(P::PK, f, K::MAX);
    let mut h = vec![];
    careful(P::NAME, K::NAME, "time stamps", f, &mut h, |h| {
        let r: Rcv<P, K> = Receiver::new(f);
        fn rec<P: Pr + DecoderBuilder<K::M>, K: Clk>(r: &Rcv<P, K>, ls: &[u64], n: usize, h: &mut Hist) {
            if n == 0 {
                count(0, 0, 1);
                return;
            }
            for e in [true, false] {
                for d in ls {
                    let mut b = fork(r);
                    h.push((e, *d));
                    let _ = b.event_instant(K::i(*d), e);
                    count(1, 1, 0);
                    rec::<P, K>(&b, ls, n - 1, h);
                    h.pop();
                }
            }
        }
        if !stopped() {
            rec::<P, K>(&r, &ls, depth, h);
        }
    });
}
/// All periodic sequences (period <= 3), 160 events long, through a receiver and through a decoder
/// that is never reset (commands fetched after every event).
fn periodic<P: Pr + DecoderBuilder<K::M>, K: Clk>(f: u32, pre: &[Ev64], period: usize)
{
    let ls = lengths(P::PK, f, K::MAX);
    let n = ls.len() * 2;
    let letter = |i: usize| (i % 2 == 0, ls[i / 2]);
    let total = n.pow(period as u32);
    for x in 0..total {
        if stopped() {
            return;
        }
        let mut per = vec![];
        let mut y = x;
        for _ in 0..period {
            per.push(letter(y % n));
            y /= n;
        }
        let mut h = vec![];
        careful(P::NAME, K::NAME, "long periodic sequence", f, &mut h, |h| {
            let mut r: Rcv<P, K> = Receiver::new(f);
            let mut dec = <P as DecoderBuilder<K::M>>::build(f);
            for (e, d) in pre.iter().chain(per.iter().cycle().take(160)) {
                h.push((*e, *d));
                let _ = r.event(K::d(*d), *e);
                let _ = dec.event(*e, K::d(*d));
                let _ = dec.command();
                count(1, 2, 0);
            }
            dec.reset();
            let _ = dec.command();
            count(0, 0, 1);
        });
    }
}
fn create<P: Pr + DecoderBuilder<K::M>, K: Clk>(f: u32, _: &[Ev64], _: usize) {
    let mut h = vec![];
    careful(P::NAME, K::NAME, "creation", f, &mut h, |_| {
        let mut r: Rcv<P, K> = Receiver::new(f);
        let _ = r.event(K::d(1), true);
        let d = <P as DecoderBuilder<K::M>>::build(f);
        let _ = d.spans().check_overlaps();
        count(1, 3, 1);
    });
}
/// Build decoders at every frequency of a range.
fn create_range<P: Pr>(a: u64, b: u64) {
    let mut h = vec![(true, a)];
    careful(P::NAME, "u32", "creation (edges: the frequency)", 0, &mut h, |h| {
        for f in a..b {
            h[0].1 = f;
            let d = <P as DecoderBuilder<u32>>::build(f as u32);
            std::hint::black_box(&d);
            if f & 0xFFFF == 0 {
                count(0x10000, 0x10000, 1);
                if stopped() {
                    return;
                }
            }
        }
    });
}
type Go = fn(u32, &[Ev64], usize);
#[derive(Clone, Copy)]
struct Fns {
    pk: Pk,
    hz: u32,
    seqs: [Go; 4],
    stamps: [Go; 4],
    periodic: [Go; 4],
    create: [Go; 4],
}
fn fns<P, const HZ: u32>() -> Fns
where
    P: Pr + DecoderBuilder<u64> + DecoderBuilder<TimerInstantU32<HZ>> + DecoderBuilder<TimerInstantU64<HZ>>,
{
    Fns {
        pk: P::PK,
        hz: HZ,
        seqs: [seqs::<P, C32>, seqs::<P, C64>, seqs::<P, F32<HZ>>, seqs::<P, F64<HZ>>],
        stamps: [stamps::<P, C32>, stamps::<P, C64>, stamps::<P, F32<HZ>>, stamps::<P, F64<HZ>>],
        periodic: [periodic::<P, C32>, periodic::<P, C64>, periodic::<P, F32<HZ>>, periodic::<P, F64<HZ>>],
        create: [create::<P, C32>, create::<P, C64>, create::<P, F32<HZ>>, create::<P, F64<HZ>>],
    }
}
/// Creation only, at more fugit rates.
fn fcreate<P, const HZ: u32>(v: &mut Vec<(u32, Go)>)
where
    P: Pr + DecoderBuilder<TimerInstantU32<HZ>> + DecoderBuilder<TimerInstantU64<HZ>>,
{
    v.push((HZ, create::<P, F32<HZ>>));
    v.push((HZ, create::<P, F64<HZ>>));
}

fn wide(v: &[Ev]) -> Vec<Ev64> {
    v.iter().map(|(e, d)| (*e, *d as u64)).collect()
}
const FR: [u32; 10] = [0, 1, 999, 1000, 20_000, 40_000, 1_000_000, 48_000_000, 500_000_000, u32::MAX];

/// Any two events, whatever edges and lengths, in every state that the search gets to.
struct Abuse(Vec<(Pk, u32, Vec<Ev>)>);
impl Abuse {
    fn new() -> Self {
        let mut v = vec![];
        for pk in ALL {
            for f in [1_000_000u32, 40_000] {
                let ls = lengths(pk, f, u32::MAX as u64);
                v.push((pk, f, [true, false].iter().flat_map(|e| ls.iter().map(|d| (*e, *d as u32))).collect()));
            }
        }
        Abuse(v)
    }
}
impl AtState for Abuse {
    fn fewer(&self) -> u32 {
        1
    }
    fn at(&self, pk: Pk, f: u32, _: bool, fork: &mut dyn FnMut() -> Box<dyn Dyn>) -> Result<(), (Vec<Ev>, String)> {
        let evs = &self.0.iter().find(|x| (x.0, x.1) == (pk, f)).unwrap().2;
        let mut h: Vec<Ev> = vec![];
        let r = guard(|| {
            for a in evs {
                h.clear();
                h.push(*a);
                let mut x = fork();
                let _ = x.feed(*a);
                for b in evs {
                    h.truncate(1);
                    h.push(*b);
                    let mut y = x.split();
                    let _ = y.feed(*b);
                }
            }
        });
        count(0, (evs.len() * (evs.len() + 1)) as u64, (evs.len() * evs.len()) as u64);
        r.map_err(|e| (h, e))
    }
}

struct NoOut;
impl PwmPin for NoOut {
    type Duty = u16;
    fn disable(&mut self) {}
    fn enable(&mut self) {}
    fn get_duty(&self) -> u16 {
        0
    }
    fn get_max_duty(&self) -> u16 {
        1
    }
    fn set_duty(&mut self, _: u16) {}
}

fn main() {
    let c = begin("C12");
    c.bound("long histories: every frame-level item 66000 times in a row, every pair of items 260 (thorough 2000) times in a row, 9 protocols, all clock types");
    c.bound("9 protocols x 4 clock types x 10 frequencies (0..2^32-1; fugit 6 rates): all sequences of 5 (thorough 6) arbitrary events (either edge, 11-13 lengths incl. 0, max) from the start, of 3 (thorough 4) events after every prefix of a nominal frame; all time-stamp sequences of 5 (6); all periodic sequences of period <=2 (3; at three frequencies), 160 events, also on a never-reset decoder; all two-event cycles repeated to 140,000 (600,000) events; a constant level polled and a sender ticked more than 2^32 times; all poll sequences of 19 (25) samples and all run-length sequences; buffers of length <=5; creation at every frequency below 2^20 and 2^20 more (thorough: all 2^32); senders with all boundary fields and time stamps");
    let table: Vec<Fns> = {
        let mut v = vec![];
        macro_rules! all { ($($hz:literal)*) => { $(
            v.push(fns::<Nec, $hz>()); v.push(fns::<SamsungNec, $hz>()); v.push(fns::<AppleNec, $hz>());
            v.push(fns::<Denon, $hz>()); v.push(fns::<Sbp, $hz>()); v.push(fns::<Rc5, $hz>()); v.push(fns::<Rc6, $hz>());
        )* } }
        all!(1 40_000 1_000_000 500_000_000);
        v.push(fns::<Nec16, 1_000_000>());
        v.push(fns::<NecDebug, 1_000_000>());
        v.push(fns::<Nec, 4_294_967_295>());
        v.push(fns::<Rc5, 4_294_967_295>());
        v.push(fns::<Rc6, 4_294_967_295>());
        v.push(fns::<Sbp, 4_294_967_295>());
        v.push(fns::<Denon, 4_294_967_295>());
        v
    };
    let plain: Vec<&Fns> = table.iter().filter(|t| t.hz == 1_000_000).collect();
    // (entry, frequency, clock)
    let mut combos: Vec<(Fns, u32, usize)> = vec![];
    for t in &plain {
        for f in FR {
            combos.push((**t, f, 0));
            combos.push((**t, f, 1));
        }
    }
    for t in &table {
        combos.push((*t, t.hz, 2));
        combos.push((*t, t.hz, 3));
    }
    let depth = if c.thorough { 6 } else { 5 };
    c.par("all short event sequences", &combos, |(t, f, k)| (t.seqs[*k])(*f, &[], depth));
    c.par("all short time-stamp sequences", &combos, |(t, f, k)| (t.stamps[*k])(*f, &[], depth));
    // after every prefix of a nominal frame
    let mut items = vec![];
    for (t, f, k) in &combos {
        if *f < 20_000 {
            continue;
        }
        for w in [base_words(t.pk)[1], base_words(t.pk)[2]] {
            let (ev, _) = frame(t.pk, *f, w, 10);
            for i in 1..=ev.len() {
                items.push((*t, *f, *k, wide(&ev[..i])));
            }
        }
    }
    let d2 = if c.thorough { 4 } else { 3 };
    c.par("all short event sequences inside a frame", &items, |(t, f, k, pre)| (t.seqs[*k])(*f, pre, d2));
    let period = if c.thorough { 3 } else { 2 };
    let mut items = vec![];
    for (t, f, k) in &combos {
        if c.thorough && !(*f == 1_000_000 || *f == 40_000 || *f == u32::MAX) {
            continue;
        }
        items.push((*t, *f, *k, vec![]));
        let (ev, _) = frame(t.pk, *f, base_words(t.pk)[2], 10);
        for i in [1, 3, ev.len() / 2, ev.len() - 2, ev.len()] {
            items.push((*t, *f, *k, wide(&ev[..i])));
        }
    }
    c.par("all long periodic sequences", &items, |(t, f, k, pre)| {
        for p in 1..=period {
            (t.periodic[*k])(*f, pre, p);
        }
    });

    let at = Abuse::new();
    reach_pd("all pairs of events in every reachable state, pulse distance", &PD, true, &|_| Ok(()), &at);
    reach_mc("all pairs of events in every reachable state, Manchester", false, &at);

    // polled receivers
    let bits = if c.thorough { 25 } else { 19 };
    let mut items = vec![];
    for pk in ALL {
        for f in FR {
            items.push((pk, f));
        }
    }
    c.par("all short poll sequences", &items, |(pk, f)| {
        with_proto!(*pk, P => {
            fn rec<P: Pr>(r: &PeriodicPoll<P>, n: usize) {
                if n == 0 || stopped() { count(0, 0, 1); return; }
                for l in [false, true] {
                    let mut b = fork(r);
                    let _ = b.poll(l);
                    count(1, 1, 0);
                    rec(&b, n - 1);
                }
            }
            rec(&PeriodicPoll::<P>::new(*f), bits);
        })
    });
    c.par("all short poll run-length sequences", &items, |(pk, f)| {
        with_proto!(*pk, P => {
            let ls: Vec<u64> = lengths(*pk, (*f).min(100_000), u32::MAX as u64).into_iter().filter(|d| *d > 0 && *d < 10_000).collect();
            fn rec<P: Pr>(r: &PeriodicPoll<P>, ls: &[u64], lv: bool, n: usize) {
                if n == 0 || stopped() { count(0, 0, 1); return; }
                for l in ls {
                    let mut b = fork(r);
                    for _ in 0..*l { let _ = b.poll(lv); }
                    count(1, *l, 0);
                    rec(&b, ls, !lv, n - 1);
                }
            }
            rec(&PeriodicPoll::<P>::new(*f), &ls, true, if c.thorough { 7 } else { 5 });
        })
    });

    // long histories: counters of 8 and 16 bits
    let mut items = vec![];
    for pk in ALL {
        for f in [40_000u32, 1_000_000] {
            for l in lengths(pk, f, u32::MAX as u64) {
                for e in [true, false] {
                    items.push((pk, f, (e, l)));
                }
            }
        }
    }
    c.par("very long periodic sequences", &items, |(pk, f, a)| {
        with_proto!(*pk, P => {
            let n = if c.thorough { 600_000 } else { 140_000 };
            for l in lengths(*pk, *f, u32::MAX as u64) {
                for e in [true, false] {
                    if stopped() { return; }
                    let mut h = vec![*a, (e, l)];
                    careful(P::NAME, "u32", "the two events over and over", *f, &mut h, |h| {
                        let mut r: Rcv<P, C32> = Receiver::new(*f);
                        let mut dec = <P as DecoderBuilder<u32>>::build(*f);
                        for k in 0..n {
                            let (e, d) = h[k & 1];
                            let _ = r.event(d as u32, e);
                            let _ = dec.event(e, d as u32);
                        }
                        let _ = dec.command();
                        count(n as u64, 2 * n as u64, 1);
                    });
                }
            }
        })
    });
    // more than 2^32 polls and ticks
    type J = Box<dyn Fn() + Sync>;
    let mut jobs: Vec<J> = vec![];
    fn polls<P: Pr>(lv: bool) {
        let mut h = vec![];
        careful(P::NAME, "poll", "constant level polled more than 2^32 times", 40_000, &mut h, |h| {
            let mut r = PeriodicPoll::<P>::new(40_000);
            h.push((lv, 0));
            for k in 0..(1u64 << 32) + 1000 {
                let _ = r.poll(if k > 1 << 32 { k & 4 == 0 } else { lv });
                if k & 0xFF_FFFF == 0 {
                    h[0].1 = k;
                    count(0x100_0000, 0x100_0000, 0);
                    flush_local();
                    if stopped() {
                        return;
                    }
                }
            }
            count(1, 1, 1);
        });
    }
    for lv in [false, true] {
        jobs.push(Box::new(move || polls::<Nec>(lv)));
        jobs.push(Box::new(move || polls::<Rc5>(lv)));
        if c.thorough {
            jobs.push(Box::new(move || polls::<Rc6>(lv)));
            jobs.push(Box::new(move || polls::<Denon>(lv)));
            jobs.push(Box::new(move || polls::<Sbp>(lv)));
        }
    }
    for loaded in [false, true] {
        jobs.push(Box::new(move || {
            let mut h = vec![];
            careful("Nec", "sender", "ticked more than 2^32 times", 40_000, &mut h, |h| {
                let mut s = Sender::<NoOut, 40_000, 128>::new(NoOut);
                h.push((loaded, 0));
                if loaded {
                    s.load::<Nec>(&nec::NecCommand { addr: 1, cmd: 2, repeat: false });
                }
                for k in 0..(1u64 << 32) + 1000 {
                    s.tick();
                    if k & 0xFF_FFFF == 0 {
                        h[0].1 = k;
                        count(0x100_0000, 0x100_0000, 0);
                        flush_local();
                        if stopped() {
                            return;
                        }
                    }
                }
                s.load::<Nec>(&nec::NecCommand { addr: 1, cmd: 2, repeat: false });
                for _ in 0..4000 {
                    s.tick();
                }
                count(1, 1, 1);
            });
        }));
    }
    c.par("more than 2^32 polls and ticks", &jobs, |j| j());

    // buffer iterators
    let mut items = vec![];
    for pk in ALL {
        for f in FR {
            for l in lengths(pk, f, u32::MAX as u64) {
                items.push((pk, f, l as u32));
            }
        }
    }
    c.par("all short buffers", &items, |(pk, f, l0)| {
        with_proto!(*pk, P => {
            let ls = lengths(*pk, *f, u32::MAX as u64);
            let mut rx: BufferInputReceiver<P> = BufferInputReceiver::with_frequenzy(*f);
            let n = ls.len();
            for len in 0..4u32 {
                for x in 0..n.pow(len) {
                    let mut b = vec![*l0];
                    let mut y = x;
                    for _ in 0..len { b.push(ls[y % n] as u32); y /= n; }
                    if stopped() { return; }
                    let k = rx.iter(&b).take(b.len() + 1).count();
                    count(b.len() as u64, b.len() as u64, 1);
                    if k > b.len() {
                        ck().violate(format!("{pk:?} @ {f} Hz: buffer iterator yields more commands than the buffer has pulses"), format!("kind buffer\nproto {pk:?}\nfreq {f}\nbuf {b:?}\n"));
                    }
                }
            }
        })
    });

    // multi receivers
    macro_rules! multi {
        ($name:literal, $n:literal, $t:ty, $m:ty, $k:ty) => {{
            let mut items = vec![];
            for f in FR {
                for l in lengths(Pk::Nec, f, u32::MAX as u64) {
                    items.push((f, l));
                }
            }
            c.par(concat!("multi receiver ", $name), &items, |(f, l0)| {
                let mut ls = lengths(Pk::Nec, *f, <$k as Clk>::MAX);
                ls.extend(lengths(Pk::Rc6, *f, 1 << 30));
                ls.extend(lengths(Pk::Sbp, *f, 1 << 30));
                ls.sort_unstable();
                ls.dedup();
                let mut h: Hist = vec![];
                careful($name, <$k as Clk>::NAME, "multi receiver", *f, &mut h, |h| {
                    for e0 in [true, false] {
                        for (e1, d1) in ls.iter().flat_map(|d| [(true, *d), (false, *d)]) {
                            for (e2, d2) in ls.iter().flat_map(|d| [(true, *d), (false, *d)]) {
                                let mut m: MultiReceiver<$n, $t, NoPin, $m> = MultiReceiver::new(*f, NoPin);
                                h.clear();
                                h.extend([(e0, *l0), (e1, d1), (e2, d2)]);
                                for (e, d) in h.iter() {
                                    let _ = m.event_generic(<$k as Clk>::d(*d), *e);
                                }
                                count(3, 3, 1);
                            }
                        }
                    }
                });
            });
        }};
    }
    multi!("(Nec, SamsungNec, Rc5, Rc6, Sbp, Denon)", 6, (Nec, SamsungNec, Rc5, Rc6, Sbp, Denon), u32, C32);
    multi!("(Nec, AppleNec, Rc5, Rc6, Sbp)", 5, (Nec, AppleNec, Rc5, Rc6, Sbp), u64, C64);

    // creation
    let mut chunks: Vec<(u64, u64, u64)> = vec![];
    {
        for i in 0..64u64 {
            chunks.push((i << 14, (i + 1) << 14, 1));
        }
        for i in 0..64u64 {
            chunks.push((i << 26, (i + 1) << 26, 4093));
        }
        for i in 1..=32u64 {
            let x = 1u64 << i;
            chunks.push((x.saturating_sub(300), (x + 300).min(1 << 32), 1));
        }
        // where products or sums of the usual constants would overflow
        for t in [444u64, 500, 560, 840, 888, 889, 1000, 1120, 1332, 1680, 1778, 2000, 2250, 2664, 5000, 6750, 9000, 11250, 13500] {
            for m in [1u64, 5, 6, 7, 8, 10, 12, 25, 100, 1000, 1_000_000] {
                for top in [1u64 << 31, 1 << 32] {
                    for x in [top / (t * m), top * 1000 / (t * m), top * 1_000_000 / (t * m)] {
                        if x < 1 << 32 {
                            chunks.push((x.saturating_sub(20), (x + 20).min(1 << 32), 1));
                        }
                    }
                }
            }
        }
    }
    let mk: Vec<Go> = plain.iter().flat_map(|t| [t.create[0], t.create[1]]).collect();
    c.par("creating receivers", &chunks, |(a, b, s)| {
        let mut f = *a;
        while f < *b {
            for g in &mk {
                g(f as u32, &[], 0);
            }
            if stopped() {
                return;
            }
            f += *s;
        }
    });
    if c.thorough {
        let all: Vec<u64> = (0..1024).collect();
        c.par("creating receivers at every frequency", &all, |i| {
            let (a, b) = (i << 22, (i + 1) << 22);
            create_range::<Nec>(a, b);
            create_range::<SamsungNec>(a, b);
            create_range::<Denon>(a, b);
            create_range::<Sbp>(a, b);
            create_range::<Rc5>(a, b);
            create_range::<Rc6>(a, b);
        });
    }
    let mut v: Vec<(u32, Go)> = vec![];
    macro_rules! rates { ($($hz:literal)*) => { $(
        fcreate::<Nec, $hz>(&mut v); fcreate::<SamsungNec, $hz>(&mut v); fcreate::<Denon, $hz>(&mut v);
        fcreate::<Sbp, $hz>(&mut v); fcreate::<Rc5, $hz>(&mut v); fcreate::<Rc6, $hz>(&mut v);
    )* } }
    rates!(1 2 1000 20_000 32_768 100_000 8_000_000 12_000_000 318_137 477_219 9_673_361 16_000_000 64_000_000 72_000_000 84_000_000 168_000_000 216_000_000 480_000_000 1_000_000_000 2_147_483_648 4_294_967_295);
    c.par("creating receivers with typed clocks", &v, |(f, g)| g(*f, &[], 0));

    // senders
    sends(c);
    struct NoPanic;
    impl SoakJudge for NoPanic {}
    soak("long histories", &cycles(&ALL, 66_000), &NoPanic);
    c.finish();
}

fn nec_cmds<T>(mk: impl Fn(u16, u8, u8, u8) -> T) -> Vec<T> {
    let b16 = [0u16, 1, 0x7F, 0x80, 0xFF, 0x100, 0x5AA5, 0x7FFF, 0xFFFF];
    let b8 = [0u8, 1, 0x1F, 0x20, 0x7F, 0x80, 0xA5, 0xFF];
    let mut v = vec![];
    for a in b16 {
        for c in b8 {
            for d in b8 {
                for e in b8 {
                    v.push(mk(a, c, d, e));
                }
            }
        }
    }
    v
}

fn sends(c: &'static Check) {
    fn one<P: ProtocolEncoder<F>, const F: u32>(name: &str, cmds: &[P::Cmd])
    where
        P::Cmd: std::fmt::Debug,
    {
        for cmd in cmds {
            if stopped() {
                return;
            }
            let r = guard(|| {
                let mut buf = [0u32; 128];
                let n = P::encode(cmd, &mut buf);
                count(1, 1, 1);
                if n > 128 {
                    return;
                }
                let mut s = PulsedataSender::<128>::new();
                s.load_command::<P, F>(cmd);
                for ts in [0u32, 0, 1, u32::MAX, 0, 1 << 31, 5, u32::MAX - 1, 7] {
                    let _ = s.tick(ts);
                    count(1, 1, 0);
                }
                s.load_command::<P, F>(cmd);
                let _ = s.buffer().len();
                for i in 0..140u32 {
                    let _ = s.tick(i.wrapping_mul(0x8000_0001));
                }
                count(140, 140, 1);
                let mut s = Sender::<NoOut, F, 128>::new(NoOut);
                s.tick();
                s.load::<P>(cmd);
                for _ in 0..80 {
                    s.tick();
                }
                s.load::<P>(cmd);
                s.tick();
                count(84, 84, 1);
            });
            if let Err(e) = r {
                ck().violate(format!("sending {name} {cmd:?} at {F} Hz: {e}"), format!("kind send\nproto {name}\nfreq {F}\ncmd {cmd:?}\n"));
            }
        }
    }
    type J = Box<dyn Fn() + Sync>;
    let mut jobs: Vec<J> = vec![];
    macro_rules! freqs { ($($f:literal)*) => { $(
        jobs.push(Box::new(|| one::<Nec, $f>("Nec", &nec_cmds(|a, c, _, _| nec::NecCommand { addr: a as u8, cmd: c, repeat: a > 200 }))));
        jobs.push(Box::new(|| one::<Nec16, $f>("Nec16", &nec_cmds(|a, c, _, _| nec::Nec16Command { addr: a, cmd: c, repeat: false }))));
        jobs.push(Box::new(|| one::<SamsungNec, $f>("SamsungNec", &nec_cmds(|a, c, _, _| nec::SamsungNecCommand { addr: a as u8, cmd: c, repeat: true }))));
        jobs.push(Box::new(|| one::<AppleNec, $f>("AppleNec", &nec_cmds(|a, c, d, e| nec::AppleNecCommand { command_page: c, command: d, device_id: e, repeat: a > 200 }))));
        jobs.push(Box::new(|| one::<NecDebug, $f>("NecDebug", &nec_cmds(|a, c, d, _| nec::NecDebugCmd { bits: (a as u32) << 16 | (c as u32) << 8 | d as u32 }))));
        jobs.push(Box::new(|| one::<Rc5, $f>("Rc5", &nec_cmds(|a, c, d, e| rc5::Rc5Command { addr: c, cmd: d, start: e, toggle: a > 200 }))));
        jobs.push(Box::new(|| one::<Rc6, $f>("Rc6", &nec_cmds(|a, c, d, _| rc6::Rc6Command { addr: c, cmd: d, toggle: a > 200 }))));
    )* } }
    freqs!(0 1 2 999 1000 1001 20_000 40_000 999_999 1_000_000 48_000_000 477_219 1_000_000_000 4_294_967_295);
    c.par("senders", &jobs, |j| j());
}
