//! C15 A failed pin read is reported and does not disturb decoding.
use embedded_hal::digital::v2::InputPin;
use infrared::cmd::AnyCommand;
use infrared::protocol::*;
use infrared::receiver::{DecoderBuilder, Error, MultiReceiver};
use infrared::{PeriodicPoll, Protocol, Receiver};
use irmc::*;
use std::cell::Cell;

thread_local! {
    /// what the pin shows: active (low)?
    static ACT: Cell<bool> = const { Cell::new(false) };
    /// the error the next read gives, if any
    static FAIL: Cell<Option<u32>> = const { Cell::new(None) };
}
struct Pin;
impl InputPin for Pin {
    type Error = u32;
    fn is_high(&self) -> Result<bool, u32> {
        self.is_low().map(|l| !l)
    }
    fn is_low(&self) -> Result<bool, u32> {
        match FAIL.with(|f| f.get()) {
            Some(e) => {
                // every other failure hits one read only
                if e % 2 == 0 {
                    FAIL.with(|f| f.set(None));
                }
                Err(e)
            }
            None => Ok(ACT.with(|a| a.get())),
        }
    }
}
fn set(act: bool, fail: Option<u32>) {
    ACT.with(|a| a.set(act));
    FAIL.with(|f| f.set(fail));
}

/// Result of one pin-driven call.
#[derive(Clone, Copy, PartialEq, Debug)]
enum R {
    Out(Out),
    Pin(u32),
}
fn norm<C: Norm>(r: Result<Option<C>, Error<u32>>) -> R {
    match r {
        Ok(None) => R::Out(Ok(None)),
        Ok(Some(c)) => R::Out(Ok(Some(c.n()))),
        Err(Error::Hal(e)) => R::Pin(e),
        Err(Error::Address) => R::Out(Err(E::Address)),
        Err(Error::Data) => R::Out(Err(E::Data)),
        Err(Error::Validation) => R::Out(Err(E::Validation)),
        Err(Error::RemoteControlError) => R::Out(Err(E::Remote)),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Dur,
    Stamp,
    Stamp64,
}
/// A pin-driven receiver behind a uniform call.
enum Rc<P: Pr + DecoderBuilder<u64>> {
    D(Receiver<P, Pin>),
    S(Receiver<P, Pin>, u32),
    L(Receiver<P, Pin, u64, <P as Protocol>::Cmd>, u64),
}
impl<P: Pr + DecoderBuilder<u64>> Rc<P> {
    fn new(how: How, f: u32) -> Self {
        match how {
            How::Dur => Rc::D(Receiver::with_pin(f, Pin)),
            How::Stamp => Rc::S(Receiver::with_pin(f, Pin), 0),
            How::Stamp64 => Rc::L(Receiver::with_pin(f, Pin), 0),
        }
    }
    /// One call; `dt` is the time since the previous *successful* call.
    fn call(&mut self, dt: u32, ok: bool) -> R {
        count(1, 1, 0);
        match self {
            Rc::D(r) => norm::<P::C>(r.event(dt)),
            Rc::S(r, t) => {
                let x = norm::<P::C>(r.event_instant(*t + dt));
                if ok {
                    *t += dt;
                }
                x
            }
            Rc::L(r, t) => {
                let x = norm::<P::C>(r.event_instant(*t + dt as u64));
                if ok {
                    *t += dt as u64;
                }
                x
            }
        }
    }
}

/// Streams: a good frame, a broken frame, a good frame again (and a repeat).
fn stream(pk: Pk, f: u32, w: u64) -> Vec<Ev> {
    let (a, _) = frame(pk, f, w, gap(f));
    let (b, _) = frame(pk, f, w ^ 0x18 & mask(pk), gap(f));
    let mut v = a.clone();
    if PD.contains(&pk) && pd(pk).repeat.is_some() {
        v.extend(pd_repeat(&PdF::new(pk, f), gap(f)));
    }
    v.extend(&b[..b.len() / 2 & !1]);
    v.extend(a);
    v
}

/// Run with `fails(i)` failing reads before event i succeeds; every result is checked.
fn retry<P: Pr + DecoderBuilder<u64>>(how: How, f: u32, evs: &[Ev], want: &[R], fails: &dyn Fn(usize) -> u32) -> bool {
    let mut r = Rc::<P>::new(how, f);
    for (i, (e, d)) in evs.iter().enumerate() {
        for k in 0..fails(i) {
            let code = 1000 * i as u32 + k + 1;
            // the level during a failing read must not matter
            set(*e ^ (k % 2 == 1), Some(code));
            // a time stamp of a failing read may also be earlier than the one of the retry
            let early = if how == How::Dur || k % 2 == 0 { *d } else { *d / 2 };
            let got = r.call(early, false);
            if got != R::Pin(code) {
                return viol::<P>(how, f, evs, i, format!("read fails with {code}, receiver reports {got:?}"), fails);
            }
        }
        set(*e, None);
        let got = r.call(*d, true);
        if got != want[i] {
            return viol::<P>(how, f, evs, i, format!("reports {got:?}, without failed reads {:?}", want[i]), fails);
        }
    }
    count(0, 0, 1);
    true
}
fn viol<P: Pr>(how: How, f: u32, evs: &[Ev], i: usize, what: String, fails: &dyn Fn(usize) -> u32) -> bool {
    let fl: Vec<(usize, u32)> = (0..evs.len()).map(|j| (j, fails(j))).filter(|x| x.1 > 0).collect();
    ck().violate(
        format!("{:?} ({how:?}) @ {f} Hz, event {i}: {what} (failed reads (event, times): {fl:?})", P::PK),
        replay_evs(P::PK, f, evs, &format!("pin driven, {how:?}; failed reads (event, times) {fl:?}; event {i}: {what}")),
    );
    false
}

fn main() {
    let c = begin("C15");
    c.bound("9 protocols x duration/time-stamp events (u32, u64) x 3 rates: streams of a frame, repeat, half a frame, frame with 1..3 failing reads at every event, at every pair of events, and every subset of the first 12 events; dropped time-stamp events; multi-receiver of 6 likewise; polled at 40..192 kHz: a failing read at every sample, and every pair of failures at the first, middle and last sample of every interval, 2 phases (thorough 4); single failing reads of a single-shot pin at every event (the pin is read exactly once per event)");
    c.bound("255..70 000 failing reads in a row at 8 places of a stream and before polled frames");
    let mut items = vec![];
    for pk in ALL {
        for f in [40_000u32, 1_000_000, 48_000_000] {
            for how in [How::Dur, How::Stamp, How::Stamp64] {
                for w in base_words(pk) {
                    items.push((pk, f, how, w));
                }
            }
        }
    }
    c.par("retried events", &items, |(pk, f, how, w)| {
        with_proto!(*pk, P => {
            let evs = stream(*pk, *f, *w);
            // time stamps are 32 bit wide: keep the stream inside
            let total: u64 = evs.iter().map(|e| e.1 as u64).sum();
            if *how == How::Stamp && total > u32::MAX as u64 { return; }
            let want: Vec<R> = run32::<P>(*f, &evs).into_iter().map(R::Out).collect();
            if !retry::<P>(*how, *f, &evs, &want, &|_| 0) { return; }
            sample(|| format!("{pk:?} {how:?} @ {f} Hz: {}", show_evs(&evs)));
            for i in 0..evs.len() {
                for n in 1..=3 {
                    if stopped() || !retry::<P>(*how, *f, &evs, &want, &|x| if x == i { n } else { 0 }) { return; }
                }
                for j in 0..i {
                    if stopped() || !retry::<P>(*how, *f, &evs, &want, &|x| if x == i || x == j { 1 + (x % 2) as u32 } else { 0 }) { return; }
                }
            }
            for s in 0..1u32 << 12 {
                if stopped() || !retry::<P>(*how, *f, &evs[..60.min(evs.len())], &want, &|x| if x < 12 { s >> x & 1 } else { 0 }) { return; }
            }
            if !retry::<P>(*how, *f, &evs, &want, &|_| 5) { return; }
        })
    });
    // A time-stamp event whose read failed and which is not retried never happened.
    c.par("dropped events", &items, |(pk, f, how, w)| {
        if *how == How::Dur {
            return;
        }
        with_proto!(*pk, P => {
            let evs = stream(*pk, *f, *w);
            let total: u64 = evs.iter().map(|e| e.1 as u64).sum();
            if total > u32::MAX as u64 { return; }
            let n = evs.len();
            for i in 0..n {
                for j in [i, (i + 1) % n, (i + 7) % n] {
                    let gone = |x: usize| x == i || x == j;
                    let (mut r, mut q) = (Rc::<P>::new(*how, *f), Rc::<P>::new(*how, *f));
                    let (mut dt, mut k) = (0, 0);
                    for (x, (e, d)) in evs.iter().enumerate() {
                        dt += d;
                        if gone(x) {
                            set(*e, Some(x as u32));
                            let g = r.call(dt, false);
                            if g != R::Pin(x as u32) { viol::<P>(*how, *f, &evs, x, format!("read fails, receiver reports {g:?}"), &|y| gone(y) as u32); return; }
                        } else {
                            set(*e, None);
                            let (g, h) = (r.call(dt, true), q.call(dt, true));
                            dt = 0;
                            if g != h { viol::<P>(*how, *f, &evs, x, format!("reports {g:?}, had the failed event not happened {h:?}"), &|y| gone(y) as u32); return; }
                        }
                        k += 1;
                    }
                    count(0, 0, (k > 0) as u64);
                    if stopped() { return; }
                }
            }
        })
    });
    // multi receiver
    let mut items = vec![];
    for pk in [Pk::Nec, Pk::Samsung, Pk::Denon, Pk::Sbp, Pk::Rc5, Pk::Rc6] {
        for f in [40_000u32, 1_000_000] {
            for w in base_words(pk) {
                for it in [false, true] {
                    items.push((pk, f, w, it));
                }
            }
        }
    }
    c.par("multi receiver", &items, |(pk, f, w, it)| {
        type M = MultiReceiver<6, (Nec, SamsungNec, Denon, Sbp, Rc5, Rc6), Pin>;
        let evs = stream(*pk, *f, *w);
        let key = |a: AnyCommand| (a.protocol as u8, a.raw, a.address, a.command, a.repeat);
        let call = |m: &mut M, d: u32| -> Result<Vec<_>, u32> {
            count(1, 1, 0);
            if *it { m.event_iter(d).map(|i| i.map(key).collect()) } else { m.event(d).map(|a| a.into_iter().flatten().map(key).collect()) }
        };
        let mut m = M::new(*f, Pin);
        let want: Vec<_> = evs.iter().map(|(e, d)| { set(*e, None); call(&mut m, *d) }).collect();
        for i in 0..evs.len() {
            for j in (0..=i).step_by(3) {
                let mut m = M::new(*f, Pin);
                for (x, (e, d)) in evs.iter().enumerate() {
                    if x == i || x == j {
                        for k in 0..=x % 3 {
                            let code = (100 * x + k) as u32;
                            set(!*e, Some(code));
                            let g = call(&mut m, *d);
                            if g != Err(code) {
                                ck().violate(format!("multi receiver @ {f} Hz, event {x}: read fails with {code}, receiver reports {g:?}"), replay_evs(*pk, *f, &evs, "multi receiver"));
                                return;
                            }
                        }
                    }
                    set(*e, None);
                    let g = call(&mut m, *d);
                    if g != want[x] {
                        ck().violate(format!("multi receiver @ {f} Hz, event {x}: {g:?} after failed reads at events {j}, {i}; {:?} without", want[x]), replay_evs(*pk, *f, &evs, "multi receiver"));
                        return;
                    }
                }
                count(0, 0, 1);
                if stopped() { return; }
            }
        }
    });
    // polled
    let mut items = vec![];
    for pk in ALL {
        for f in [40_000u32, 44_100, 50_000, 62_500, 100_000, 192_000] {
            if f > 62_500 && !c.thorough && pk != Pk::Rc5 && pk != Pk::Nec {
                continue;
            }
            for w in base_words(pk) {
                for ph in if c.thorough { vec![0u64, 1, 2, 3] } else { vec![0u64, 2] } {
                    items.push((pk, f, w, ph * 250_000 + 137));
                }
            }
        }
    }
    c.par("polled", &items, |(pk, f, w, ph)| with_proto!(*pk, P => polled::<P>(*f, *w, *ph)));
    // failing reads for a long time
    let mut items = vec![];
    for pk in ALL {
        for how in [How::Dur, How::Stamp, How::Stamp64] {
            for k in 0..8usize {
                items.push((pk, how, k));
            }
        }
    }
    c.par("tens of thousands of failed reads in a row", &items, |(pk, how, k)| {
        with_proto!(*pk, P => {
            let evs = stream(*pk, 40_000, base_words(*pk)[2]);
            let want: Vec<R> = run32::<P>(40_000, &evs).into_iter().map(R::Out).collect();
            let at = evs.len() * k / 8;
            for n in [255, 256, 257, 65_535, 65_536, 70_000] {
                if stopped() || !retry::<P>(*how, 40_000, &evs, &want, &|x| if x == at { n } else { 0 }) { return; }
            }
            let _ = retry::<P>(*how, 40_000, &evs, &want, &|_| 600);
        })
    });
    let mut items = vec![];
    for pk in ALL {
        for n in [255usize, 256, 257, 65_535, 65_536, 70_000] {
            items.push((pk, n));
        }
    }
    c.par("tens of thousands of failed polls in a row", &items, |(pk, n)| {
        with_proto!(*pk, P => {
            let f = 40_000;
            let w = base_words(*pk)[2];
            let (mut e, _) = frame(*pk, f, w, gap(f));
            e.push((!e.last().unwrap().0, 40));
            let mut r: PeriodicPoll<P, Pin> = PeriodicPoll::with_pin(f, Pin);
            let mut got = vec![];
            let bad = |w: String| ck().violate(format!("{pk:?} polled @ {f} Hz, {n} failed reads in a row: {w}"), format!("kind poll\nproto {pk:?}\nfreq {f}\nfailing {n} before a frame\n"));
            for round in 0..2 {
                for k in 0..*n {
                    set(k % 2 == 0, Some(k as u32));
                    let g = norm::<<P as Pr>::C>(r.poll());
                    if g != R::Pin(k as u32) { return bad(format!("failed read {k} gives {g:?}")); }
                }
                let mut level = false;
                for (e, d) in &e {
                    for _ in 0..*d {
                        set(level, None);
                        match norm::<<P as Pr>::C>(r.poll()) {
                            R::Out(Ok(None)) => {}
                            R::Out(o) => got.push(o),
                            R::Pin(x) => return bad(format!("a good read gives the error {x}")),
                        }
                    }
                    level = *e;
                }
                count(1, 2 * *n as u64, 1);
                let want = vec![Ok(meaning(*pk, w, false)); round + 1];
                if got != want { return bad(format!("then reports {got:?}, expected {want:?}")); }
            }
        })
    });
    c.finish();
}

fn polled<P: Pr>(f: u32, w: u64, ph: u64) {
    let Some(want) = meaning(P::PK, w, false) else { return };
    // levels at each sample
    let mut ed: Vec<u64> = vec![0];
    let mut t = 0u64;
    if PD.contains(&P::PK) {
        let p = pd(P::PK);
        for s in p.segs() {
            let y = p.sym(s, w);
            ed.push(t + y.mark as u64);
            t += y.dist() as u64;
            ed.push(t);
        }
        t += p.tail as u64;
        ed.push(t);
    } else {
        for u in runs(P::PK, w, 0).0 {
            t += u as u64 * unit(P::PK) as u64;
            ed.push(t);
        }
    }
    let mut lv = vec![false; gap(f) as usize];
    let n = (t * f as u64 / 1_000_000) + 40;
    let mut j = 0;
    let mut cur = false;
    for k in 0..n {
        while j < ed.len() && ed[j] * f as u64 <= ph + k * 1_000_000 {
            cur = j % 2 == 0;
            j += 1;
        }
        lv.push(cur);
    }
    let start = gap(f) as usize - 10;
    // candidate positions: first, middle and last sample of every run
    let mut pos = vec![start];
    let mut a = start;
    for k in start + 1..=lv.len() {
        if k == lv.len() || lv[k] != lv[k - 1] {
            pos.extend([a, (a + k) / 2, k - 1]);
            a = k;
        }
    }
    pos.sort_unstable();
    pos.dedup();
    let mut base: PeriodicPoll<P, Pin> = PeriodicPoll::with_pin(f, Pin);
    for l in &lv[..start] {
        set(*l, None);
        let _ = base.poll();
    }
    let step = |r: &mut PeriodicPoll<P, Pin>, k: usize, fail: bool, got: &mut Vec<Out>| -> bool {
        set(lv[k], if fail { Some(k as u32) } else { None });
        let g = norm::<<P as Pr>::C>(r.poll());
        match g {
            R::Pin(e) if fail && e == k as u32 => true,
            R::Out(o) if !fail => {
                if o != Ok(None) {
                    got.push(o);
                }
                true
            }
            _ => false,
        }
    };
    let run = |mut r: PeriodicPoll<P, Pin>, from: usize, fails: &[usize]| -> bool {
        let mut got = vec![];
        count(1, (lv.len() - from) as u64, 1);
        for k in from..lv.len() {
            if !step(&mut r, k, fails.contains(&k), &mut got) {
                ck().violate(
                    format!("{:?} polled @ {f} Hz, failing reads at samples {fails:?}: sample {k} gives neither the pin's error nor a normal result", P::PK),
                    format!("kind poll\nproto {:?}\nfreq {f}\nword {w:#x}\nphase {ph}\nfailing {fails:?}\n", P::PK),
                );
                return false;
            }
        }
        if got != vec![Ok(Some(want))] {
            ck().violate(
                format!("{:?} polled @ {f} Hz, word {w:#x}, phase {ph}, failing reads at samples {fails:?}: got {got:?}, expected {want:?}", P::PK),
                format!("kind poll\nproto {:?}\nfreq {f}\nword {w:#x}\nphase {ph}\nfailing {fails:?}\n", P::PK),
            );
            return false;
        }
        true
    };
    if !run(fork(&base), start, &[]) {
        return;
    }
    let mut r = fork(&base);
    let mut got0 = vec![];
    for k in start..lv.len() {
        if stopped() {
            return;
        }
        // results before sample k are checked by the run without failures
        if got0.is_empty() {
            if !run(fork(&r), k, &[k]) {
                return;
            }
            if pos.binary_search(&k).is_ok() {
                for q in pos.iter().filter(|q| **q > k + 1) {
                    if stopped() || !run(fork(&r), k, &[k, *q]) {
                        return;
                    }
                }
            }
        }
        step(&mut r, k, false, &mut got0);
    }
    sample(|| format!("{:?} polled @ {f} Hz word {w:#x} phase {ph}", P::PK));
}
