//! C10 A multi-receiver equals independent receivers side by side.
use infrared::cmd::AnyCommand;
use infrared::protocol::*;
use infrared::receiver::{MultiReceiver, NoPin};
use infrared::Receiver;
use irmc::*;
use std::cell::Cell;

thread_local! {
    static EDGE: Cell<bool> = const { Cell::new(false) };
}
/// Low = active, like a real receiver module.
struct Pin;
impl embedded_hal::digital::v2::InputPin for Pin {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> {
        Ok(!EDGE.with(|e| e.get()))
    }
    fn is_low(&self) -> Result<bool, ()> {
        Ok(EDGE.with(|e| e.get()))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Any(infrared::ProtocolId, u64, u32, u32, bool);
impl From<AnyCommand> for Any {
    fn from(a: AnyCommand) -> Any {
        Any(a.protocol, a.raw, a.address, a.command, a.repeat)
    }
}
type Dyn = Box<dyn FnMut(u32, bool) -> Vec<Option<Any>>>;
struct Cfg {
    slots: Vec<usize>,
    how: &'static str,
    /// the front-end shows only the commands, not the slots
    flat: bool,
    mk: fn(u32) -> Dyn,
}
const PROTOS: [Pk; 7] = [Pk::Nec, Pk::Samsung, Pk::Apple, Pk::Rc5, Pk::Rc6, Pk::Sbp, Pk::Denon];
macro_rules! ty {
    (N) => { Nec }; (S) => { SamsungNec }; (A) => { AppleNec }; (R) => { Rc5 }; (X) => { Rc6 }; (B) => { Sbp }; (D) => { Denon };
}
macro_rules! idx {
    ($($p:ident)*) => { vec![$( idx!(@ $p) ),*] };
    (@ N) => { 0usize }; (@ S) => { 1usize }; (@ A) => { 2usize }; (@ R) => { 3usize };
    (@ X) => { 4usize }; (@ B) => { 5usize }; (@ D) => { 6usize };
}
macro_rules! cfgs {
    ($v:ident; $( $n:literal $($p:ident)* ;)*) => { $(
        $v.push(Cfg { slots: idx!($($p)*), how: "event_generic", flat: false, mk: |f| {
            let mut m: MultiReceiver<$n, ($(ty!($p),)*), NoPin> = MultiReceiver::new(f, NoPin);
            Box::new(move |dt, e| m.event_generic(dt, e).into_iter().map(|o| o.map(Any::from)).collect())
        }});
    )* };
    (pins $v:ident; $( $n:literal $($p:ident)* ;)*) => { $(
        $v.push(Cfg { slots: idx!($($p)*), how: "event (pin)", flat: false, mk: |f| {
            let mut m: MultiReceiver<$n, ($(ty!($p),)*), Pin> = MultiReceiver::new(f, Pin);
            Box::new(move |dt, e| {
                EDGE.with(|x| x.set(e));
                let _: &mut Pin = m.pin();
                m.event(dt).unwrap().into_iter().map(|o| o.map(Any::from)).collect()
            })
        }});
        $v.push(Cfg { slots: idx!($($p)*), how: "event_iter (pin)", flat: true, mk: |f| {
            let mut m: MultiReceiver<$n, ($(ty!($p),)*), Pin> = MultiReceiver::new(f, Pin);
            Box::new(move |dt, e| {
                EDGE.with(|x| x.set(e));
                let v: Vec<Option<Any>> = match m.event_iter(dt) { Ok(i) => i.map(|c| Some(Any::from(c))).collect(), Err(_) => vec![] };
                v
            })
        }});
        $v.push(Cfg { slots: idx!($($p)*), how: "event_generic_iter", flat: true, mk: |f| {
            let mut m: MultiReceiver<$n, ($(ty!($p),)*), NoPin> = MultiReceiver::new(f, NoPin);
            Box::new(move |dt, e| m.event_generic_iter(dt, e).map(|c| Some(Any::from(c))).collect())
        }});
        $v.push(Cfg { slots: idx!($($p)*), how: "event_generic (u64 clock)", flat: false, mk: |f| {
            let mut m: MultiReceiver<$n, ($(ty!($p),)*), NoPin, u64> = MultiReceiver::new(f, NoPin);
            Box::new(move |dt, e| m.event_generic(dt as u64, e).into_iter().map(|o| o.map(Any::from)).collect())
        }});
    )* };
}

fn configs() -> Vec<Cfg> {
    let mut v = vec![];
    cfgs!(v;
        2 N N; 2 N S; 2 N A; 2 N R; 2 N X; 2 N B; 2 N D;
        2 S N; 2 S S; 2 S A; 2 S R; 2 S X; 2 S B; 2 S D;
        2 A N; 2 A S; 2 A A; 2 A R; 2 A X; 2 A B; 2 A D;
        2 R N; 2 R S; 2 R A; 2 R R; 2 R X; 2 R B; 2 R D;
        2 X N; 2 X S; 2 X A; 2 X R; 2 X X; 2 X B; 2 X D;
        2 B N; 2 B S; 2 B A; 2 B R; 2 B X; 2 B B; 2 B D;
        2 D N; 2 D S; 2 D A; 2 D R; 2 D X; 2 D B; 2 D D;
        3 N S A; 3 S A R; 3 A R X; 3 R X B; 3 X B D; 3 B D N; 3 D N S;
        3 D B X; 3 B X R; 3 X R A; 3 R A S; 3 A S N; 3 S N D; 3 N D B; 3 N N N;
        4 N S A R; 4 S A R X; 4 A R X B; 4 R X B D; 4 X B D N; 4 B D N S; 4 D N S A;
        4 D B X R; 4 B X R A; 4 X R A S; 4 R A S N; 4 A S N D; 4 S N D B; 4 N D B X; 4 N X N X;
        5 N S A R X; 5 S A R X B; 5 A R X B D; 5 R X B D N; 5 X B D N S; 5 B D N S A; 5 D N S A R;
        5 D B X R A; 5 B X R A S; 5 X R A S N; 5 R A S N D; 5 A S N D B; 5 S N D B X; 5 N D B X R;
        6 N S A R X B; 6 S A R X B D; 6 A R X B D N; 6 R X B D N S; 6 X B D N S A; 6 B D N S A R; 6 D N S A R X;
        6 D B X R A S; 6 B X R A S N; 6 X R A S N D; 6 R A S N D B; 6 A S N D B X; 6 S N D B X R; 6 N D B X R A;
    );
    cfgs!(pins v;
        2 N S; 2 X D; 2 A B; 2 N N; 3 R N R; 3 D D D; 4 X S S X; 3 N A R; 3 D X S; 3 B R N; 4 S B R D; 4 A X N R; 5 N S A R X; 5 D B X R A;
        6 N S A R X B; 6 D B X R A S; 6 A R X B D N;
    );
    v
}

fn solo(evs: &[Ev], f: u32) -> Vec<[Option<Any>; 7]> {
    let mut out = vec![[None; 7]; evs.len()];
    macro_rules! run {
        ($i:literal, $P:ty) => {
            let mut r: Receiver<$P> = Receiver::new(f);
            for (k, (e, d)) in evs.iter().enumerate() {
                let x = r.event(*d, *e);
                match &x {
                    Ok(Some(_)) => tally(0),
                    Err(e) => tally(2 + ne(*e) as usize),
                    _ => {}
                }
                out[k][$i] = x.unwrap_or(None).map(|c| Any::from(AnyCommand::from(c)));
            }
        };
    }
    run!(0, Nec);
    run!(1, SamsungNec);
    run!(2, AppleNec);
    run!(3, Rc5);
    run!(4, Rc6);
    run!(5, Sbp);
    run!(6, Denon);
    out
}

fn main() {
    let c = begin("C10");
    c.bound("all 49 ordered pairs and all rotations, forward and reversed, of 7 protocols for 3..6 slots; pin, iterator and 64-bit variants for 17 of them (some with the same protocol in several slots); all ordered pairs of frame-level items (whole, cut, stretched, zero-interval, repeat frames and noise of all 7 protocols) at 40 kHz and 1 MHz, all of them in a row at 9 further frequencies from 20 kHz to 480 MHz");
    c.bound("long streams: every item of every protocol 260 times in a row, a frame of every protocol repeated to 66 500 edges, through all configurations; words of all 8-bit windows, 2^13 valid words and all command and address bytes of each protocol through the 82 widest, pin, iterator and 64-bit configurations");
    c.assume("stand-alone receivers are the oracle; their own behaviour is decided by C03-C06");
    let cf = configs();
    let its = |f: u32| -> Vec<Item> {
        let mut v = vec![];
        for pk in PROTOS {
            for it in stream_items(pk, f) {
                v.push(it);
            }
            // missed falling edges: every second one, and the last one
            for last in [false, true] {
                let (fa, done) = frame(pk, f, base_words(pk)[2], gap(f));
                let mut e: Vec<Ev> = vec![];
                let mut acc = 0;
                for (k, (r, d)) in fa.into_iter().enumerate() {
                    if !r && if last { k + 1 == done } else { k % 4 == 1 } {
                        acc = d;
                    } else {
                        e.push((r, d + acc));
                        acc = 0;
                    }
                }
                v.push(Item { name: "missed falling edges".into(), evs: e });
            }
        }
        v
    };
    let mut items = vec![];
    for f in [40_000u32, 1_000_000] {
        for a in 0..its(f).len() {
            items.push((f, a));
        }
    }
    let run_on = |f: u32, s: &[Ev], name: &str, which: &dyn Fn(&Cfg) -> bool| {
            let want = solo(s, f);
            sample(|| format!("{name} @ {f} Hz: {}", show_evs(&s[..s.len().min(200)])));
            for c in cf.iter().filter(|c| which(c)) {
                if stopped() {
                    return;
                }
                let mut m = (c.mk)(f);
                for (k, (e, d)) in s.iter().enumerate() {
                    let got = m(*d, *e);
                    let exp = c.slots.iter().map(|i| want[k][*i]);
                    let same = if c.flat { exp.clone().filter(|x| x.is_some()).eq(got.iter().copied()) } else { exp.clone().eq(got.iter().copied()) };
                    if !same {
                        let names: Vec<Pk> = c.slots.iter().map(|i| PROTOS[*i]).collect();
                        ck().violate(
                            format!("{} of {names:?} @ {f} Hz, edge {k}: {got:?}, stand-alone receivers: {:?}", c.how, exp.collect::<Vec<_>>()),
                            format!("kind multi\nreceivers {names:?}\nhow {}\nfreq {f}\nedges {}\n", c.how, show_evs(&s[..=k])),
                        );
                        return;
                    }
                }
                count(s.len() as u64, s.len() as u64, 1);
            }
    };
    let run = |f: u32, s: &[Ev], name: &str| run_on(f, s, name, &|_| true);
    c.par("all pairs of items through all configurations", &items, |(f, a)| {
        let l = its(*f);
        for b in 0..l.len() {
            let mut s: Vec<Ev> = l[*a].evs.clone();
            s.extend(&l[b].evs);
            s.push((true, gap(*f)));
            s.push((false, ticks(560, *f)));
            run(*f, &s, &format!("{} then {}", l[*a].name, l[b].name));
        }
    });
    // other frequencies
    let rest: Vec<u32> = RX_FREQS.iter().copied().chain([20_000, 32_768, 480_000_000]).filter(|f| ![40_000, 1_000_000].contains(f)).collect();
    c.par("items through all configurations, other frequencies", &rest, |f| {
        let l = its(*f);
        let mut s: Vec<Ev> = vec![];
        for i in &l {
            s.extend(&i.evs);
            s.push((true, gap(*f)));
            s.push((false, ticks(560, *f)));
        }
        run(*f, &s, "all items in a row");
    });
    let mut items = vec![];
    for pk in PROTOS {
        for i in 0..stream_items(pk, 40_000).len() {
            items.push((pk, i));
        }
    }
    c.par("long streams", &items, |(pk, i)| {
        let its = stream_items(*pk, 40_000);
        let full = *i == 0 || ck().thorough;
        let mut s: Vec<Ev> = vec![];
        let mut k = 0;
        while k < 260 || full && s.len() < 66_500 {
            s.extend(&its[*i].evs);
            k += 1;
        }
        s.extend(&its[0].evs);
        run(40_000, &s, &format!("{} x {k}", its[*i].name));
    });
    // every command and every address byte through the widest and the filtering front-ends
    let mut items = vec![];
    for pk in PROTOS {
        for k in 0..32u64 {
            items.push((pk, k));
        }
    }
    c.par("all words of small windows through all front-ends", &items, |(pk, k)| {
        // the windows are the words' bytes, over four backgrounds; and all valid words of the short protocols
        let f = 40_000;
        let mut ws: Vec<u64> = window_words(*pk, 8);
        let n = valid_count(*pk);
        if n <= 1 << 24 {
            ws.extend((0..n).step_by(((n >> 13) | 1) as usize).map(|i| valid_word(*pk, i)));
            ws.extend((0..n).rev().take(256).map(|i| valid_word(*pk, i)));
        }
        if matches!(pk, Pk::Nec | Pk::Samsung) {
            for (a, b) in (0..256).flat_map(|x| [(0, x), (0x5A, x), (0xFF, x), (x, 0), (x, 0x2C), (x, 0xFF)]) {
                ws.push(nec_word(*pk, a, b));
            }
        }
        ws.sort_unstable();
        ws.dedup();
        let s: Vec<Ev> = ws.iter().skip(*k as usize).step_by(32).flat_map(|w| frame(*pk, f, *w, gap(f)).0).collect();
        run_on(f, &s, &format!("{} frames of {pk:?}", ws.len() / 32), &|c: &Cfg| c.how != "event_generic" || c.slots.len() == 6);
    });
    c.finish();
}
