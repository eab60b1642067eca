//! C07 All receiver front-ends report the same commands for the same signal.
use infrared::receiver::{DecoderBuilder, ProtocolDecoder, State};
use infrared::{BufferInputReceiver, PeriodicPoll, Protocol, Receiver};
use irmc::*;
use std::cell::Cell;

fn main() {
    let c = begin("C07");
    c.bound("9 protocols x {40 kHz, 100 kHz, 1 MHz}: all sequences of 2 (thorough 3) frame-level items (3 for NEC and Apple), frames of base words with one interval replaced by any letter followed by a complete frame; polling at 40 kHz and 100 kHz; buffers of every length");
    c.bound("long streams: every frame-level item repeated to 66 500 (thorough 400 000) edges through every front-end and polled at 40 kHz");
    c.assume("edges alternate, starting with a rising edge; polled streams have no zero-length intervals");
    let mut items = vec![];
    for pk in ALL {
        for f in [40_000u32, 100_000, 1_000_000] {
            for ch in 0..8 {
                items.push((pk, f, ch));
            }
        }
    }
    c.par("item sequences", &items, |(pk, f, ch)| {
        let n = if ck().thorough || (matches!(pk, Pk::Nec | Pk::Apple) && *f != 1_000_000) { 3 } else { 2 };
        for s in streams(*pk, *f, n).iter().skip(*ch).step_by(8) {
            with_proto!(*pk, P => all::<P>(*f, s));
        }
    });
    c.par("frames with one replaced interval", &items, |(pk, f, ch)| {
        let ls: Vec<u32> = if PD.contains(pk) {
            let p = PdF::new(*pk, *f);
            let mut v: Vec<u32> = pd_letters(&p, false).iter().flat_map(|(m, s)| [*m, *s]).collect();
            v.retain(|x| *x < 1 << 28);
            v.push(0);
            v.sort_unstable();
            v.dedup();
            v
        } else {
            mc_letters(*pk, *f).into_iter().filter(|x| *x < 1 << 28).collect()
        };
        let its = stream_items(*pk, *f);
        for w in base_words(*pk) {
            let (fr, _) = frame(*pk, *f, w, gap(*f));
            for i in (*ch..fr.len()).step_by(8) {
                for l in &ls {
                    let mut s = fr.clone();
                    s[i].1 = *l;
                    if s.last().unwrap().0 {
                        s.push((false, 10));
                    }
                    s.extend(&its[0].evs);
                    with_proto!(*pk, P => all::<P>(*f, &s));
                }
            }
        }
    });
    c.par("every buffer length", &items, |(pk, f, ch)| {
        let its = stream_items(*pk, *f);
        for it in its.iter().skip(*ch).step_by(8) {
            let mut s = its[1].evs.clone();
            s.extend(&it.evs);
            for n in 0..=s.len() {
                with_proto!(*pk, P => {
                    let base = run32::<P>(*f, &s[..n]);
                    count(n as u64, 2 * n as u64, 1);
                    buffer::<P>(*f, &s[..n], &base);
                });
            }
        }
    });
    // longer than any 16-bit count of edges, samples or frames
    let mut items = vec![];
    for pk in ALL {
        for i in 0..stream_items(pk, 40_000).len() {
            items.push((pk, i));
        }
    }
    c.par("long streams", &items, |(pk, i)| {
        let its = stream_items(*pk, 40_000);
        let mut s: Vec<Ev> = vec![];
        while s.len() < if ck().thorough { 400_000 } else { 66_500 } {
            s.extend(&its[*i].evs);
            if s.len() > 65_000 {
                s.extend(&its[0].evs);
            }
        }
        with_proto!(*pk, P => all::<P>(40_000, &s));
    });
    c.finish();
}

struct Pin<'a>(&'a Cell<bool>);
impl embedded_hal::digital::v2::InputPin for Pin<'_> {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> {
        Ok(!self.0.get())
    }
    fn is_low(&self) -> Result<bool, ()> {
        Ok(self.0.get())
    }
}

fn fail(pk: Pk, f: u32, s: &[Ev], i: usize, front: &str, got: &Out, want: &Out) {
    ck().violate(
        format!("{pk:?} @ {f} Hz: {front} reports {got:?} at edge {i}, duration events report {want:?}"),
        replay_evs(pk, f, &s[..=i.min(s.len() - 1)], front),
    );
}

fn e2(e: infrared::receiver::Error<()>) -> E {
    use infrared::receiver::Error as X;
    match e {
        X::Address => E::Address,
        X::Data => E::Data,
        X::Validation => E::Validation,
        X::RemoteControlError => E::Remote,
        X::Hal(()) => panic!("harness: pin cannot fail"),
    }
}

fn buffer<P: Pr>(f: u32, s: &[Ev], base: &[Out]) {
    let want: Vec<N> = base.iter().filter_map(|o| o.ok().flatten()).collect();
    let buf: Vec<u32> = s.iter().map(|e| e.1).collect();
    let mut b = BufferInputReceiver::<P>::with_frequenzy(f);
    let mut it = b.iter(&buf);
    let mut got: Vec<N> = vec![];
    for _ in 0..buf.len() + 3 {
        match it.next() {
            Some(c) => got.push(c.n()),
            None => break,
        }
    }
    let after = (it.next().is_some(), it.next().is_some());
    if got != want || after != (false, false) {
        ck().violate(
            format!("{:?} @ {f} Hz: buffer iterator yields {got:?} (then {after:?}), duration events report {want:?}", P::PK),
            replay_evs(P::PK, f, s, "buffer iterator"),
        );
    }
}

fn all<P: Pr>(f: u32, s: &[Ev]) {
    if stopped() {
        return;
    }
    let base = run32::<P>(f, s);
    count(s.len() as u64, 8 * s.len() as u64, 1);
    sample(|| format!("{:?} @ {f} Hz: {}", P::PK, show_evs(s)));
    // time stamps
    let mut r = Receiver::<P, infrared::receiver::NoPin, u32>::new(f);
    let lv = Cell::new(false);
    let mut rp = Receiver::<P, Pin>::with_pin(f, Pin(&lv));
    let mut rpi = Receiver::<P, Pin>::with_pin(f, Pin(&lv));
    let mut re = Receiver::<P, ()>::with_input(f, ());
    let mut d1 = <P as DecoderBuilder<u32>>::build(f);
    let mut d2 = <P as DecoderBuilder<u32>>::build(f);
    let mut t = 0u32;
    for (i, e) in s.iter().enumerate() {
        t = t.wrapping_add(e.1);
        let w = &base[i];
        lv.set(e.0);
        let o = nout(r.event_instant(t, e.0));
        if o != *w {
            return fail(P::PK, f, s, i, "Receiver::event_instant", &o, w);
        }
        let o = nout(re.event_edge(e.1, e.0));
        if o != *w {
            return fail(P::PK, f, s, i, "Receiver::event_edge", &o, w);
        }
        let o: Out = rp.event(e.1).map(|c| c.map(|c| c.n())).map_err(e2);
        if o != *w {
            return fail(P::PK, f, s, i, "pin Receiver::event", &o, w);
        }
        let o: Out = rpi.event_instant(t).map(|c| c.map(|c| c.n())).map_err(e2);
        if o != *w {
            return fail(P::PK, f, s, i, "pin Receiver::event_instant", &o, w);
        }
        let o = nout(d1.event_total(e.0, e.1));
        if o != *w {
            return fail(P::PK, f, s, i, "ProtocolDecoder::event_total", &o, w);
        }
        let o: Out = match d2.event(e.0, e.1) {
            State::Done => {
                let c: Option<<P as Protocol>::Cmd> = d2.command();
                d2.reset();
                Ok(c.map(|c| c.n()))
            }
            State::Error(x) => {
                d2.reset();
                Err(ne(x))
            }
            _ => Ok(None),
        };
        if o != *w {
            return fail(P::PK, f, s, i, "ProtocolDecoder::event/command/reset", &o, w);
        }
    }
    buffer::<P>(f, s, &base);
    // polling
    if f > 100_000 {
        return;
    }
    let z: Vec<Ev> = s.iter().map(|e| (e.0, e.1.max(1))).collect();
    let base = run32::<P>(f, &z);
    let mut pp = PeriodicPoll::<P>::new(f);
    let mut pq = PeriodicPoll::<P, Pin>::with_pin(f, Pin(&lv));
    let mut level = false;
    for (i, e) in z.iter().enumerate() {
        for k in 0..e.1 {
            let last = k + 1 == e.1;
            if last {
                level = e.0;
            }
            lv.set(level);
            count(0, 2, 0);
            let want: Out = if last { base[i] } else { Ok(None) };
            let o = nout(pp.poll(level));
            if o != want {
                return fail(P::PK, f, &z, i, "PeriodicPoll::poll", &o, &want);
            }
            let o: Out = pq.poll().map(|c| c.map(|c| c.n())).map_err(e2);
            if o != want {
                return fail(P::PK, f, &z, i, "pin PeriodicPoll::poll", &o, &want);
            }
        }
    }
}
