//! C22 A transmission is received whatever the clocks of the two devices.
use embedded_hal::PwmPin;
use infrared::cmd::AnyCommand;
use infrared::protocol::*;
use infrared::receiver::MultiReceiver;
use infrared::sender::{ProtocolEncoder, Sender};
use infrared::{PeriodicPoll, Protocol, ProtocolId, Receiver};
use irmc::*;
use std::cell::Cell;

thread_local! {
    static LEVEL: Cell<bool> = const { Cell::new(false) };
}
/// The LED.
struct Led;
impl PwmPin for Led {
    type Duty = u16;
    fn disable(&mut self) {
        LEVEL.with(|l| l.set(false))
    }
    fn enable(&mut self) {
        LEVEL.with(|l| l.set(true))
    }
    fn get_duty(&self) -> u16 {
        1
    }
    fn get_max_duty(&self) -> u16 {
        2
    }
    fn set_duty(&mut self, _: u16) {}
}

/// Tick numbers at which the LED switches (on first) when the commands are loaded one after the other,
/// each after `wait` ticks of darkness, and then `wait` ticks more.
type Send<P> = fn(&[<P as Protocol>::Cmd], u32) -> Vec<u64>;
fn send<P: Tx + ProtocolEncoder<F>, const F: u32>(cmds: &[<P as Protocol>::Cmd], wait: u32) -> Vec<u64> {
    let mut s: Sender<Led, F, 96> = Sender::new(Led);
    LEVEL.with(|l| l.set(false));
    let mut v = vec![];
    let (mut n, mut lv, mut dark) = (0u64, false, 0);
    let mut step = |s: &mut Sender<Led, F, 96>, v: &mut Vec<u64>| {
        s.tick();
        let x = LEVEL.with(|l| l.get());
        if x != lv {
            v.push(n);
            lv = x;
        }
        dark = if x { 0 } else { dark + 1 };
        n += 1;
        count(1, 1, 0);
        dark
    };
    for _ in 0..3 {
        step(&mut s, &mut v);
    }
    for c in cmds {
        s.load::<P>(c);
        // (a train never lasts longer than this)
        let (mut n, mut dark) = (0, 0);
        while n < 8 || dark < wait {
            dark = step(&mut s, &mut v);
            n += 1;
            if n > F / 2 {
                break;
            }
        }
    }
    v
}

fn words_of(w: &[u64]) -> String {
    if w.len() < 8 { format!("{w:x?}") } else { format!("{:x?} and so on, {} in all,", &w[..8], w.len()) }
}
/// What was reported, in short where it is long.
fn brief(got: &[Out], want: &[Out]) -> String {
    if want.len() < 8 && got.len() < 16 {
        return format!("{got:?}, expected {want:?}");
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("{} commands or errors for {}; number {i} is {:?}, expected {:?}", got.len(), want.len(), got.get(i), want.get(i))
}

fn family(pk: Pk) -> u8 {
    match pk {
        Pk::Samsung => 1,
        Pk::Sbp => 2,
        Pk::Denon => 3,
        Pk::Rc5 => 4,
        Pk::Rc6 => 5,
        _ => 0,
    }
}

macro_rules! sends {
    ($P:ty) => {
        &[
            (20_000, send::<$P, 20_000> as Send<$P>), (20_247, send::<$P, 20_247>), (20_270, send::<$P, 20_270>), (22_050, send::<$P, 22_050>),
            (24_999, send::<$P, 24_999>), (27_027, send::<$P, 27_027>), (32_768, send::<$P, 32_768>), (38_000, send::<$P, 38_000>), (40_000, send::<$P, 40_000>),
            (42_792, send::<$P, 42_792>), (44_100, send::<$P, 44_100>), (56_000, send::<$P, 56_000>), (100_000, send::<$P, 100_000>), (192_000, send::<$P, 192_000>),
            (20_999, send::<$P, 20_999>), (23_456, send::<$P, 23_456>), (33_333, send::<$P, 33_333>), (49_998, send::<$P, 49_998>), (1_000_000, send::<$P, 1_000_000>),
        ]
    };
}

/// The same two devices in use for a long time.
type Long = (Pk, fn());
fn long<P: Tx + ProtocolEncoder<40_000>>() {
    let ws = base_words(P::PK).into_iter().filter(|w| meaning(P::PK, *w, false).is_some()).collect::<Vec<_>>();
    let mut words = vec![];
    for i in 0..66_200 {
        words.push(ws[(i + i / 7) % ws.len()]);
    }
    let cmds: Vec<_> = words.iter().map(|w| P::mk(*w)).collect();
    let want: Vec<N> = words.iter().map(|w| P::mk(*w).n()).collect();
    let ed = send::<P, 40_000>(&cmds, 802);
    air::<P>(40_000, 40_000, &ed, &words, &want, 1000, true);
}

fn main() {
    let c = begin("C22");
    c.bound("66200 transmissions in a row, 7 protocols, at 40 kHz");
    c.bound("7 protocols x 19 tick rates of the sender from 20 kHz (RC-6: 40 kHz) x 17 (thorough 42) receiver clocks from 20 kHz (RC-6: 40 kHz) to 168 MHz x every distinguishable phase between the two clocks; words: base words and 4-bit (thorough 5-bit) windows; two and three transmissions in a row 20 ms apart; event-driven by time stamps (32/64 bit), polled to 192 kHz, multi-receiver; senders running up to 1 % fast or slow (both clocks from 40 kHz)");
    c.assume("the signal passes from LED to input pin undistorted and without delay");
    one::<Nec>(sends!(Nec));
    one::<Nec16>(sends!(Nec16));
    one::<SamsungNec>(sends!(SamsungNec));
    one::<AppleNec>(sends!(AppleNec));
    one::<NecDebug>(sends!(NecDebug));
    one::<Rc5>(sends!(Rc5));
    one::<Rc6>(sends!(Rc6));
    let ls: [Long; 7] = [
        (Pk::Nec, long::<Nec>), (Pk::Nec16, long::<Nec16>), (Pk::Samsung, long::<SamsungNec>), (Pk::Apple, long::<AppleNec>),
        (Pk::Debug, long::<NecDebug>), (Pk::Rc5, long::<Rc5>), (Pk::Rc6, long::<Rc6>),
    ];
    c.par("long use", &ls, |(_, l)| l());
    c.finish();
}

fn one<P: Tx>(tab: &[(u32, Send<P>)]) {
    let th = ck().thorough;
    let mut gs = vec![20_000u32, 22_727, 28_125, 32_768, 40_000, 41_999, 44_100, 50_000, 62_500, 100_000, 192_000, 318_136, 1_000_000, 8_000_000, 16_999_999, 48_000_000, 168_000_000];
    if th {
        gs.extend((20_000..60_000).step_by(1_663));
    }
    let mut ws = base_words(P::PK);
    match P::PK {
        Pk::Rc5 => ws.extend((0..1u64 << 13).step_by(if th { 17 } else { 61 })),
        Pk::Rc6 => ws.extend((0..1u64 << 17).step_by(if th { 199 } else { 997 })),
        Pk::Apple => ws.extend((0..1 << 20).step_by(if th { 1999 } else { 9973 }).map(|i| valid_word(Pk::Apple, i))),
        pk => ws.extend(window_words(pk, if th { 5 } else { 4 })),
    }
    ws.retain(|w| meaning(P::PK, *w, false).is_some());
    ws.sort_unstable();
    ws.dedup();
    let mut items = vec![];
    for (f, s) in tab {
        if P::PK == Pk::Rc6 && *f < 40_000 {
            continue;
        }
        for ch in ws.chunks(8) {
            items.push((*f, *s, ch.to_vec()));
        }
    }
    ck().par(P::NAME, &items, |(f, s, ws)| {
        let wait = (*f as u64 * 20_001 / 1_000_000 + 2) as u32;
        for (i, w) in ws.iter().enumerate() {
            let words: Vec<u64> = match i % 4 {
                0 => vec![*w, ws[(i + 1) % ws.len()], *w],
                1 => vec![*w, *w],
                _ => vec![*w],
            };
            let cmds: Vec<_> = words.iter().map(|w| P::mk(*w)).collect();
            let want: Vec<N> = words.iter().map(|w| P::mk(*w).n()).collect();
            let ed = s(&cmds, wait);
            for g in &gs {
                if P::PK == Pk::Rc6 && *g < 40_000 {
                    continue;
                }
                if *f > 192_000 && i % 4 != 3 {
                    continue;
                }
                air::<P>(*f as u64, *g, &ed, &words, &want, 1000, i % if ck().thorough { 4 } else { 8 } == 3);
                if *f >= 40_000 && *g >= 40_000 && i % 2 == 0 {
                    for sp in [990, 995, 1005, 1010] {
                        air::<P>(*f as u64, *g, &ed, &words, &want, sp, i % 8 == 6);
                    }
                }
                if stopped() {
                    return;
                }
            }
        }
    });
}

/// The edges at ticks `ed` of a sender running at `f` * `speed` / 1000 Hz, heard by receivers at `g` Hz.
fn air<P: Tx>(f: u64, g: u32, ed: &[u64], words: &[u64], want: &[N], speed: u64, poll: bool) {
    let (num, den) = (g as u128 * 1000, f as u128 * speed as u128);
    // a phase for every way the edges can fall between the receiver's ticks
    let mut ph: Vec<u128> = ed.iter().map(|n| (den - (*n as u128 * num) % den) % den).collect();
    ph.push(0);
    ph.sort_unstable();
    ph.dedup();
    if ph.len() > 40 && !ck().thorough && (g > 100_000 || speed != 1000 || words.len() > 1) {
        ph = ph.into_iter().step_by(5).collect();
    }
    let fam = family(P::PK);
    for (pi, p) in ph.iter().enumerate() {
        let multi = pi % if ck().thorough { 3 } else { 6 } == 0;
        let at = |n: u64| ((n as u128 * num + p) / den) as u64;
        let base = if pi % 2 == 0 { 0u64 } else { 12_345 };
        let mut a: Receiver<P> = Receiver::new(g);
        let mut b: Receiver<P, infrared::receiver::NoPin, u64> = Receiver::new(g);
        let mut m: MultiReceiver<6, (Nec, SamsungNec, Rc5, Rc6, Sbp, Denon), ()> = MultiReceiver::new(g, ());
        let (mut ga, mut gb) = (vec![], vec![]);
        let mut gm = [0usize; 6];
        let mut prev = 0u64;
        for (i, n) in ed.iter().enumerate() {
            let t = base + at(*n);
            let on = i % 2 == 0;
            let o = nout(a.event_instant(t as u32, on));
            if o != Ok(None) {
                ga.push(o);
            }
            let o = nout(b.event_instant(t, on));
            if o != Ok(None) {
                gb.push(o);
            }
            if !multi {
                continue;
            }
            let x: [Option<AnyCommand>; 6] = m.event_generic((t - prev) as u32, on);
            prev = t;
            for (k, o) in x.iter().enumerate() {
                if let Some(o) = o {
                    gm[k] += 1;
                    let id = [ProtocolId::Nec, ProtocolId::NecSamsung, ProtocolId::Rc5, ProtocolId::Rc6, ProtocolId::Sbp, ProtocolId::Denon][k];
                    if o.protocol != id {
                        gm[k] += 100;
                    }
                }
            }
        }
        let mut bad = None;
        let exp: Vec<Out> = want.iter().map(|n| Ok(Some(*n))).collect();
        if ga != exp {
            bad = Some(format!("the receiver reports {}", brief(&ga, &exp)));
        } else if gb != exp {
            bad = Some(format!("the receiver with 64-bit time stamps reports {}", brief(&gb, &exp)));
        } else if multi {
            let slot = match fam {
                0 => 0,
                1 => 1,
                4 => 2,
                _ => 3,
            };
            for (k, n) in gm.iter().enumerate() {
                if *n != if k == slot { want.len() } else { 0 } {
                    bad = Some(format!("slot {k} of the multi-receiver reports {n} commands"));
                }
            }
        }
        count(ed.len() as u64, 3 * ed.len() as u64, 1);
        // polled: the first sample at or after an edge sees the new level
        if bad.is_none() && poll && g <= 192_000 && pi % (if g <= 50_000 { 2 } else { 16 }) == 0 {
            let mut r: PeriodicPoll<P> = PeriodicPoll::new(g);
            let mut got = vec![];
            let (mut j, mut k) = (0usize, 0u64);
            let end = at(*ed.last().unwrap_or(&0)) + 20;
            while k < end {
                // sample k is taken at k - p/den receiver ticks
                while j < ed.len() && ed[j] as u128 * num + p <= k as u128 * den {
                    j += 1;
                }
                let o = nout(r.poll(j % 2 == 1));
                if o != Ok(None) {
                    got.push(o);
                }
                k += 1;
            }
            count(0, end, 1);
            if got != exp {
                bad = Some(format!("the polled receiver reports {}", brief(&got, &exp)));
            }
        }
        sample(|| format!("{:?} {} sent at {f} Hz x {speed}/1000, received at {g} Hz, phase {p}/{den}", P::PK, words_of(words)));
        if let Some(b) = bad {
            let mut prev = 0;
            let evs: Vec<Ev> = ed.iter().enumerate().map(|(i, n)| { let t = at(*n); let d = t - prev; prev = t; (i % 2 == 0, d as u32) }).collect();
            ck().violate(
                format!("{:?} words {} sent at {f} Hz (running at {speed}/1000), receiver clock {g} Hz, phase {p}/{den}: {b}", P::PK, words_of(words)),
                replay_evs(P::PK, g, &evs, "as seen by the receiver"),
            );
            return;
        }
    }
}
