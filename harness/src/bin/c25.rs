//! C25 User-defined NEC variants.
use infrared::cmd::AnyCommand;
use infrared::protocol::nec::{NecCommand, NecCommandVariant, NecPulseLen, SamsungNecCommand};
use infrared::protocol::Nec;
use infrared::receiver::{DecodingError, MultiReceiver, NoPin};
use infrared::{BufferInputReceiver, PeriodicPoll, ProtocolId, Receiver};
use irmc::*;

/// Variant with timing `T` (0 standard, 1 Samsung) and policy `K`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct V<const T: u8, const K: u8> {
    v: u32,
    rep: bool,
}
/// The variant's own idea of what bits mean; unlike that of any shipped variant.
fn code(k: u8, bits: u32) -> u32 {
    bits.rotate_left(5 + k as u32) ^ 0x9E37_79B9
}
fn uncode(k: u8, v: u32) -> u32 {
    (v ^ 0x9E37_79B9).rotate_right(5 + k as u32)
}
/// Which completions a policy takes for a command.
fn takes(k: u8, bits: u32, rep: bool) -> bool {
    match k {
        0 => true,
        1 => !rep,
        2 => bits.count_ones() % 2 == 0,
        3 => rep,
        _ => false,
    }
}
macro_rules! variant {
    ($t:literal, $like:ty) => {
        impl<const K: u8> NecCommandVariant for V<$t, K> {
            const PULSE_DISTANCE: &'static NecPulseLen = <$like as NecCommandVariant>::PULSE_DISTANCE;
            fn validate(bits: u32) -> bool {
                takes(K, bits, false)
            }
            fn unpack(bits: u32, rep: bool) -> Option<Self> {
                takes(K, bits, rep).then(|| V { v: code(K, bits), rep })
            }
            fn pack(&self) -> u32 {
                // repeats of this variant are sent with another word
                if self.rep { !uncode(K, self.v) } else { uncode(K, self.v) }
            }
        }
    };
}
variant!(0, NecCommand);
variant!(1, SamsungNecCommand);
impl<const T: u8, const K: u8> From<V<T, K>> for AnyCommand {
    fn from(c: V<T, K>) -> AnyCommand {
        AnyCommand { protocol: ProtocolId::Nec, raw: 3, address: c.v, command: K as u32, repeat: c.rep }
    }
}
/// A command type made from a variant's.
#[derive(PartialEq, Debug)]
struct Conv(u32, bool);
impl<const T: u8, const K: u8> From<V<T, K>> for Conv {
    fn from(c: V<T, K>) -> Conv {
        Conv(c.v, c.rep)
    }
}

/// A received command as the variant defines it, or an error.
type O = Result<Option<(u32, bool)>, E>;
fn o<const T: u8, const K: u8>(r: Result<Option<V<T, K>>, DecodingError>) -> O {
    r.map(|c| c.map(|c| (c.v, c.rep))).map_err(ne)
}
fn tab(t: u8, f: u32) -> PdF {
    let mut p = PdF::new(if t == 0 { Pk::Debug } else { Pk::Samsung }, f);
    p.pk = Pk::Debug; // carries the whole word
    p
}
/// What the variant's definition demands, up to the first interval in a rounding band.
fn want(p: &PdF, k: u8, evs: &[Ev]) -> Vec<O> {
    let mut r = RefPd::new();
    let mut v = vec![];
    for (e, d) in evs {
        let idle = r.st == St::Idle;
        match r.ev(p, *e, *d as u64) {
            None => break,
            Some(Ok(Some(n))) => {
                let w = n.a as u32;
                v.push(Ok(takes(k, w, idle).then(|| (code(k, w), idle))));
            }
            Some(Ok(None)) => v.push(Ok(None)),
            Some(Err(e)) => v.push(Err(e)),
        }
    }
    v
}

fn streams_for(t: u8, f: u32, n: usize) -> Vec<Vec<Ev>> {
    streams(if t == 0 { Pk::Nec } else { Pk::Samsung }, f, n)
}

macro_rules! each {
    ($t:expr, $k:expr, $V:ident => $b:expr) => {
        match ($t, $k) {
            (0, 0) => { type $V = V<0, 0>; $b }
            (0, 1) => { type $V = V<0, 1>; $b }
            (0, 2) => { type $V = V<0, 2>; $b }
            (0, 3) => { type $V = V<0, 3>; $b }
            (0, _) => { type $V = V<0, 4>; $b }
            (_, 0) => { type $V = V<1, 0>; $b }
            (_, 1) => { type $V = V<1, 1>; $b }
            (_, 2) => { type $V = V<1, 2>; $b }
            (_, 3) => { type $V = V<1, 3>; $b }
            (_, _) => { type $V = V<1, 4>; $b }
        }
    };
}

fn diff(what: &str, t: u8, k: u8, f: u32, evs: &[Ev], want: &[O], got: &[O]) {
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    ck().violate(
        format!(
            "variant with {} timing, policy {k} @ {f} Hz, {what}: edge {i} gives {:?}, the variant defines {:?}",
            ["standard", "Samsung"][t as usize],
            got.get(i),
            want.get(i)
        ),
        format!("kind variant\ntiming {t}\npolicy {k}\nfrontend {what}\nfreq {f}\nedges {}\n", show_evs(evs)),
    );
}

fn all(t: u8, k: u8, f: u32, evs: &[Ev], polled: bool) {
    let p = tab(t, f);
    let w = want(&p, k, evs);
    if w.len() < evs.len() {
        return; // rounding band: no claim
    }
    let (n, tr) = (evs.len() as u64, 6 * evs.len() as u64);
    count(n, tr, 1);
    sample(|| format!("timing {t} policy {k} @ {f} Hz: {}", show_evs(evs)));
    each!(t, k, C => {
        type P = Nec<C>;
        // durations, 32 and 64 bits
        let mut r: Receiver<P> = Receiver::new(f);
        let g: Vec<O> = evs.iter().map(|(e, d)| o(r.event(*d, *e))).collect();
        if g != w { return diff("durations", t, k, f, evs, &w, &g); }
        for x in &g {
            match x {
                Ok(None) => {}
                Ok(Some((_, rep))) => tally(*rep as usize),
                Err(e) => tally(2 + *e as usize),
            }
        }
        let mut r: Receiver<P, NoPin, u64> = Receiver::new(f);
        let g: Vec<O> = evs.iter().map(|(e, d)| o(r.event(*d as u64, *e))).collect();
        if g != w { return diff("64-bit durations", t, k, f, evs, &w, &g); }
        // time stamps, typed
        if f == 1_000_000 {
            let mut r: Receiver<P, NoPin, fugit::TimerInstantU64<1_000_000>> = Receiver::new(f);
            let mut now = 0u64;
            let g: Vec<O> = evs.iter().map(|(e, d)| { now += *d as u64; o(r.event_instant(fugit::TimerInstantU64::from_ticks(now), *e)) }).collect();
            if g != w { return diff("typed time stamps", t, k, f, evs, &w, &g); }
        }
        // converted commands, pin-less built receiver
        let mut r = infrared::receiver::Builder::default().protocol::<P>().frequency(f).build();
        let g: Vec<O> = evs.iter().map(|(e, d)| o(r.event(*d, *e))).collect();
        if g != w { return diff("built receiver", t, k, f, evs, &w, &g); }
        let mut r: Receiver<P, NoPin, u32, Conv> = Receiver::new(f);
        let g: Vec<O> = evs.iter().map(|(e, d)| r.event(*d, *e).map(|c: Option<Conv>| c.map(|c| (c.0, c.1))).map_err(ne)).collect();
        if g != w { return diff("converted commands", t, k, f, evs, &w, &g); }
        // multi-receiver
        let mut r: MultiReceiver<3, (Nec<V<0, 1>>, P, Nec<V<1, 0>>), NoPin> = MultiReceiver::new(f, NoPin);
        let g: Vec<O> = evs.iter().map(|(e, d)| Ok(r.event_generic(*d, *e)[1].as_ref().map(|a| (a.address, a.repeat)))).collect();
        let wm: Vec<O> = w.iter().map(|x| Ok(x.unwrap_or(None))).collect();
        if g != wm { return diff("second slot of a multi-receiver", t, k, f, evs, &wm, &g); }
        // buffer
        if evs.iter().enumerate().all(|(i, e)| e.0 == (i % 2 == 0)) {
            let b: Vec<u32> = evs.iter().map(|e| e.1).collect();
            let mut r = BufferInputReceiver::<P>::with_frequenzy(f);
            let g: Vec<O> = r.iter(&b).map(|c| Ok(Some((c.v, c.rep)))).collect();
            let wb: Vec<O> = w.iter().filter(|x| matches!(x, Ok(Some(_)))).copied().collect();
            if g != wb { return diff("buffer", t, k, f, evs, &wb, &g); }
        }
        // polled
        if polled && evs.iter().all(|e| e.1 > 0) {
            let mut r: PeriodicPoll<P> = PeriodicPoll::new(f);
            let mut level = false;
            let mut g: Vec<O> = vec![];
            for (e, d) in evs {
                let mut last = Ok(None);
                for i in 0..*d {
                    let x = o(r.poll(if i + 1 == *d { *e } else { level }));
                    if i + 1 == *d { last = x } else if x != Ok(None) { last = x; break; }
                }
                level = *e;
                g.push(last);
            }
            count(0, evs.iter().map(|e| e.1 as u64).sum(), 0);
            if g != w { return diff("polled", t, k, f, evs, &w, &g); }
        }
    })
}

fn send<const T: u8, const K: u8>(tab: &[(u32, Enc<Nec<V<T, K>>>)], words: &[u64])
where
    V<T, K>: NecCommandVariant,
{
    let items: Vec<_> = tab.iter().flat_map(|(f, e)| words.chunks(words.len() / 4 + 1).map(move |c| (*f, *e, c))).collect();
    ck().par(if T == 0 { "sending, standard timing" } else { "sending, Samsung timing" }, &items, |(f, enc, ws)| {
        let pd = pd(if T == 0 { Pk::Debug } else { Pk::Samsung });
        let t = |us: u32| ticks_range(us, *f);
        for (n, w) in ws.iter().enumerate() {
            if stopped() {
                return;
            }
            let rep = n % 3 == 0;
            let cmd = V::<T, K> { v: code(K, if rep { !*w } else { *w } as u32), rep };
            let mut b = [0xDEAD_u32; 128];
            let len = enc(&cmd, &mut b);
            let mut want: Vec<(u32, u32)> = vec![(0, 0), t(pd.header.mark), t(pd.header.space)];
            for i in 0..32 {
                let s = if w >> i & 1 == 1 { pd.one } else { pd.zero };
                want.push(t(s.mark));
                want.push(t(s.space));
            }
            want.push(t(pd.tail));
            count(1, 1, 1);
            let ok = len == want.len() && b[..len].iter().zip(&want).all(|(x, (l, h))| l <= x && x <= h);
            if !ok {
                ck().violate(
                    format!("variant (timing {T}, policy {K}) @ {f} Hz: a command packed as {w:#010x} is sent as {:?}", &b[..len.min(128)]),
                    format!("kind variant-send\ntiming {T}\npolicy {K}\nfreq {f}\nword {w:#x}\n"),
                );
                return;
            }
        }
    });
}
/// Ticks of a duration, rounded either way.
fn ticks_range(us: u32, f: u32) -> (u32, u32) {
    let x = us as u64 * f as u64;
    ((x / 1_000_000) as u32, x.div_ceil(1_000_000) as u32)
}

fn main() {
    let c = begin("C25");
    let th = c.thorough;
    c.bound("variants defined by the check: both timings x 5 policies (all, no repeats, even parity, only repeats, none), with a packing unlike any shipped one");
    c.bound("reception: all windows of 13 (thorough 15) consecutive bits of the word, frame plus two repeats, at 4 clocks; all sequences of 2 (thorough 3) frame-level items at 40 kHz and 1 MHz, every pair of word and one replaced interval; six front-ends plus polling at 40 kHz; every item repeated to 66 500 (thorough 400 000) edges");
    c.bound("sending: all windows of 9 (thorough 12) bits at 81 tick frequencies");
    c.assume("a variant's timing is one of the two shipped tables (the fields of NecPulseLen are not public)");
    let mut items = vec![];
    for t in [0u8, 1] {
        for k in 0..5u8 {
            for f in [40_000u32, 20_000, 1_000_000, 48_000_000] {
                for ch in 0..4 {
                    items.push((t, k, f, ch));
                }
            }
        }
    }
    let mut li = vec![];
    for t in [0u8, 1] {
        for k in 0..5u8 {
            for i in 0..streams_for(t, 40_000, 1).len() {
                li.push((t, k, i));
            }
        }
    }
    c.par("long streams", &li, |(t, k, i)| {
        let its = streams_for(*t, 40_000, 1);
        let (it, probe) = (&its[*i], &its[0]);
        let mut s: Vec<Ev> = vec![];
        let mut n = 0;
        while n < 300 || s.len() < if ck().thorough { 400_000 } else { 66_500 } {
            s.extend(it);
            n += 1;
        }
        s.extend(probe);
        all(*t, *k, 40_000, &s, false);
    });
    c.par("words", &items, |(t, k, f, ch)| {
        let p = tab(*t, *f);
        let g = gap(*f);
        for w in window_words(Pk::Debug, if ck().thorough { 15 } else { 13 }).iter().skip(*ch).step_by(4) {
            if stopped() {
                return;
            }
            let mut e = pd_frame(&p, *w, g);
            e.extend(pd_repeat(&p, g));
            e.extend(pd_repeat(&p, g));
            let n = e.len();
            debug_assert!(n % 2 == 0);
            all(*t, *k, *f, &e, *f == 40_000 && *w & 0x3F == 0);
        }
    });
    c.par("item sequences", &items, |(t, k, f, ch)| {
        if *f != 40_000 && *f != 1_000_000 {
            return;
        }
        for s in streams_for(*t, *f, if ck().thorough { 3 } else { 2 }).iter().skip(*ch).step_by(4) {
            all(*t, *k, *f, s, *f == 40_000);
        }
        if !ck().thorough && *f == 40_000 {
            for s in streams_for(*t, *f, 3).iter().skip(*ch).step_by(4) {
                all(*t, *k, *f, s, false);
            }
        }
    });
    c.par("one replaced interval", &items, |(t, k, f, ch)| {
        if *f != 40_000 && *f != 1_000_000 {
            return;
        }
        let p = tab(*t, *f);
        let ls: Vec<u32> = pd_letters(&p, false).iter().flat_map(|(m, s)| [*m, *s]).filter(|x| *x < 1 << 28).collect();
        let g = gap(*f);
        for w in base_words(Pk::Debug) {
            let fr = pd_frame(&p, w, g);
            let rep = pd_repeat(&p, g);
            for i in (*ch..fr.len()).step_by(4) {
                for l in &ls {
                    let mut s = fr.clone();
                    s.extend(&rep);
                    let n = s.len();
                    s.extend(&fr);
                    s[n + i].1 = *l;
                    s.extend(&rep);
                    all(*t, *k, *f, &s, false);
                }
            }
        }
    });
    let ws = window_words(Pk::Debug, if th { 12 } else { 9 });
    send(&enc_table!(Nec<V<0, 0>>), &ws);
    send(&enc_table!(Nec<V<1, 1>>), &ws);
    c.finish();
}
