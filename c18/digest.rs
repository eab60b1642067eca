//! Feeds recorded edge streams to whatever protocols this build of `infrared` has and prints one
//! hash per (component, stream). Compiled once per feature subset with the same `--cfg`s.
#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_macros)]
use infrared::cmd::AnyCommand;
use infrared::receiver::{BufferInputReceiver, DecoderBuilder, NoPin, ProtocolDecoder};
use infrared::sender::{ProtocolEncoder, PulsedataSender};
use infrared::{PeriodicPoll, Protocol, Receiver};
use std::fmt::Debug;
use std::io::Write;

#[cfg(feature = "log")]
struct Lg;
#[cfg(feature = "log")]
impl log::Log for Lg {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // evaluate and format the arguments like a real logger
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}

struct H(u64);
impl H {
    fn new() -> H {
        H(0xcbf29ce484222325)
    }
    fn b(&mut self, b: u8) {
        self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
    }
    fn s(&mut self, i: usize, s: &str) {
        for b in (i as u32).to_le_bytes() {
            self.b(b);
        }
        for b in s.bytes() {
            self.b(b);
        }
    }
    fn o<C: Debug, E: Debug>(&mut self, i: usize, r: Result<Option<C>, E>) {
        match r {
            Ok(None) => {}
            r => self.s(i, &format!("{r:?}")),
        }
    }
}
struct Stream {
    pk: u32,
    f: u32,
    d: Vec<u32>,
}
fn load(p: &str) -> Vec<Stream> {
    let b = std::fs::read(p).expect("streams");
    let w: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let mut v = vec![];
    let mut i = 0;
    while i < w.len() {
        let n = w[i + 2] as usize;
        v.push(Stream { pk: w[i], f: w[i + 1], d: w[i + 3..i + 3 + n].to_vec() });
        i += 3 + n;
    }
    v
}
struct Out<'a> {
    w: std::io::BufWriter<std::io::StdoutLock<'a>>,
    events: u64,
    cases: u64,
    /// print every case instead of one hash per component
    detail: bool,
    acc: std::collections::BTreeMap<String, (u64, H)>,
}
impl Out<'_> {
    fn put(&mut self, key: &str, i: usize, h: H) {
        self.cases += 1;
        if self.detail {
            writeln!(self.w, "{key} {i} {:016x}", h.0).unwrap();
            return;
        }
        if !self.acc.contains_key(key) {
            self.acc.insert(key.into(), (0, H::new()));
        }
        let a = self.acc.get_mut(key).unwrap();
        a.0 += 1;
        for b in h.0.to_le_bytes() {
            a.1.b(b);
        }
    }
    fn end(&mut self) {
        for (k, (n, h)) in std::mem::take(&mut self.acc) {
            writeln!(self.w, "{k} {n} {:016x}", h.0).unwrap();
        }
        let (e, c) = (self.events, self.cases);
        writeln!(self.w, "events {e} {c}").unwrap();
    }
}

#[cfg(feature = "embedded-hal")]
mod pin {
    use std::cell::Cell;
    thread_local! { pub static ACT: Cell<bool> = const { Cell::new(false) }; pub static ON: Cell<bool> = const { Cell::new(false) }; }
    pub struct Pin;
    impl embedded_hal::digital::v2::InputPin for Pin {
        type Error = ();
        fn is_high(&self) -> Result<bool, ()> {
            Ok(!ACT.with(|a| a.get()))
        }
        fn is_low(&self) -> Result<bool, ()> {
            Ok(ACT.with(|a| a.get()))
        }
    }
    pub struct Pwm;
    impl embedded_hal::PwmPin for Pwm {
        type Duty = u16;
        fn disable(&mut self) {
            ON.with(|a| a.set(false))
        }
        fn enable(&mut self) {
            ON.with(|a| a.set(true))
        }
        fn get_duty(&self) -> u16 {
            0
        }
        fn get_max_duty(&self) -> u16 {
            0
        }
        fn set_duty(&mut self, _: u16) {}
    }
}

fn jump(t: u32, d: u32, i: usize, n: usize) -> u32 {
    match (i + n) % 37 {
        0 => t.wrapping_sub(d.wrapping_mul(3)),
        1 => t,
        2 if n % 3 == 0 => t / 2,
        _ => t.wrapping_add(d),
    }
}

fn rx<P>(name: &str, pk: u32, st: &[Stream], o: &mut Out)
where
    P: DecoderBuilder<u32> + DecoderBuilder<u64> + Protocol,
    <P as Protocol>::Cmd: Debug,
{
    for (n, s) in st.iter().enumerate().filter(|(_, s)| s.pk == pk) {
        let mut r = Receiver::<P>::new(s.f);
        let mut r64 = Receiver::<P, NoPin, u64, <P as Protocol>::Cmd>::new(s.f);
        let mut ri = Receiver::<P>::new(s.f);
        let mut rj = Receiver::<P>::new(s.f);
        let mut rj64 = Receiver::<P, NoPin, u64, <P as Protocol>::Cmd>::new(s.f);
        let mut rb = infrared::receiver().frequency(s.f).protocol::<P>().build();
        let mut dec = <P as DecoderBuilder<u32>>::build(s.f);
        let (mut h, mut h64, mut hi, mut hb, mut hd) = (H::new(), H::new(), H::new(), H::new(), H::new());
        let mut hj = H::new();
        let mut t = 0u32;
        let mut tj = 1u32 << 20;
        for (i, d) in s.d.iter().enumerate() {
            let e = i % 2 == 0;
            t = t.wrapping_add(*d);
            h.o(i, r.event(*d, e));
            h64.o(i, r64.event(*d as u64, e));
            hi.o(i, ri.event_instant(t, e));
            hb.o(i, rb.event(*d, e));
            // time stamps that now and then step back or stand still
            tj = jump(tj, *d, i, n);
            hj.o(i, rj.event_instant(tj, e));
            hj.o(i, rj64.event_instant(tj as u64, e));
            use infrared::receiver::State;
            match dec.event(e, *d) {
                State::Idle => hd.b(0),
                State::Receiving => hd.b(1),
                x => {
                    hd.s(i, &format!("{x:?}"));
                    hd.o(i, Ok::<_, ()>(dec.command()));
                    dec.reset();
                }
            }
        }
        o.events += 7 * s.d.len() as u64;
        o.put(&format!("{name}.jumps"), n, hj);
        o.put(&format!("{name}.event"), n, h);
        o.put(&format!("{name}.event64"), n, h64);
        o.put(&format!("{name}.instant"), n, hi);
        o.put(&format!("{name}.builder"), n, hb);
        o.put(&format!("{name}.decoder"), n, hd);
        let mut h = H::new();
        let mut b = BufferInputReceiver::<P>::with_frequenzy(s.f);
        for (i, c) in b.iter(&s.d).enumerate() {
            h.o(i, Ok::<_, ()>(Some(c)));
        }
        o.put(&format!("{name}.buffer"), n, h);
        if s.f <= 40_000 && n % 8 == 0 {
            let mut q = PeriodicPoll::<P>::new(s.f);
            let mut qb = infrared::receiver().protocol::<P>().frequency(s.f).build_polled();
            let (mut h, mut hb) = (H::new(), H::new());
            for (i, d) in s.d.iter().enumerate() {
                for _ in 1..(*d).min(20_000) {
                    h.o(i, q.poll(i % 2 == 1));
                    hb.o(i, qb.poll(i % 2 == 1));
                }
                h.o(i, q.poll(i % 2 == 0));
                hb.o(i, qb.poll(i % 2 == 0));
                o.events += 2 * (*d).min(20_000) as u64;
            }
            o.put(&format!("{name}.poll"), n, h);
            o.put(&format!("{name}.pollbuilder"), n, hb);
        }
        #[cfg(feature = "embedded-hal")]
        {
            let mut r = Receiver::<P, pin::Pin>::with_pin(s.f, pin::Pin);
            let mut rb = infrared::receiver().pin(pin::Pin).frequency(s.f).protocol::<P>().build();
            let mut rj = Receiver::<P, pin::Pin>::with_pin(s.f, pin::Pin);
            let (mut h, mut hb, mut hj) = (H::new(), H::new(), H::new());
            let mut t = 0u32;
            let mut tj = 1u32 << 20;
            for (i, d) in s.d.iter().enumerate() {
                pin::ACT.with(|a| a.set(i % 2 == 0));
                t = t.wrapping_add(*d);
                h.o(i, r.event(*d));
                hb.o(i, rb.event_instant(t));
                tj = jump(tj, *d, i, n);
                hj.o(i, rj.event_instant(tj));
            }
            o.events += 3 * s.d.len() as u64;
            o.put(&format!("{name}.pinjumps"), n, hj);
            o.put(&format!("{name}.pin"), n, h);
            o.put(&format!("{name}.pininstant"), n, hb);
        }
    }
}

#[cfg(feature = "fugit")]
fn fugit_rx<P>(name: &str, pk: u32, st: &[Stream], o: &mut Out)
where
    P: DecoderBuilder<fugit::TimerInstantU32<1_000_000>> + DecoderBuilder<fugit::TimerInstantU64<40_000>> + Protocol,
    <P as Protocol>::Cmd: Debug,
{
    for (n, s) in st.iter().enumerate().filter(|(_, s)| s.pk == pk) {
        let mut h = H::new();
        if s.f == 1_000_000 {
            let mut r = Receiver::<P, NoPin, fugit::TimerInstantU32<1_000_000>, <P as Protocol>::Cmd>::new(s.f);
            for (i, d) in s.d.iter().enumerate() {
                h.o(i, r.event(fugit::TimerDurationU32::from_ticks(*d), i % 2 == 0));
            }
        } else if s.f == 40_000 {
            let mut r = Receiver::<P, NoPin, fugit::TimerInstantU64<40_000>, <P as Protocol>::Cmd>::new(s.f);
            for (i, d) in s.d.iter().enumerate() {
                h.o(i, r.event(fugit::TimerDurationU64::from_ticks(*d as u64), i % 2 == 0));
            }
        }
        o.events += s.d.len() as u64;
        o.put(&format!("{name}.fugit"), n, h);
        #[cfg(feature = "embedded")]
        if s.f == 1_000_000 {
            let mut r = Receiver::<P, pin::Pin, fugit::TimerInstantU32<1_000_000>, <P as Protocol>::Cmd>::with_fugit(pin::Pin);
            let mut h = H::new();
            for (i, d) in s.d.iter().enumerate() {
                pin::ACT.with(|a| a.set(i % 2 == 0));
                h.o(i, r.event(fugit::TimerDurationU32::from_ticks(*d)));
            }
            o.events += s.d.len() as u64;
            o.put(&format!("{name}.withfugit"), n, h);
        }
    }
}

fn any<P>(name: &str, pk: u32, st: &[Stream], o: &mut Out)
where
    P: DecoderBuilder<u32> + Protocol,
    <P as Protocol>::Cmd: Debug,
    AnyCommand: From<<P as Protocol>::Cmd>,
{
    for (n, s) in st.iter().enumerate().filter(|(_, s)| s.pk == pk) {
        let mut r = Receiver::<P, NoPin, u32, AnyCommand>::new(s.f);
        let mut m = infrared::receiver::MultiReceiver::<2, (P, P), _>::new(s.f, ());
        let (mut h, mut hm) = (H::new(), H::new());
        for (i, d) in s.d.iter().enumerate() {
            h.o(i, r.event(*d, i % 2 == 0));
            for (k, c) in m.event_generic_iter(*d, i % 2 == 0).enumerate() {
                hm.o(i * 2 + k, Ok::<_, ()>(Some(c)));
            }
        }
        o.events += 3 * s.d.len() as u64;
        o.put(&format!("{name}.any"), n, h);
        o.put(&format!("{name}.multi"), n, hm);
    }
}

fn enc<P>(name: &str, o: &mut Out, cmds: impl Iterator<Item = <P as Protocol>::Cmd>)
where
    P: Protocol + ProtocolEncoder<20_000> + ProtocolEncoder<38_222> + ProtocolEncoder<1_000_000> + ProtocolEncoder<48_000_000>,
{
    for (n, c) in cmds.enumerate() {
        let mut h = H::new();
        let mut b = [0u32; 256];
        let k = <P as ProtocolEncoder<20_000>>::encode(&c, &mut b);
        h.s(0, &format!("{:?}", &b[..k]));
        let k = <P as ProtocolEncoder<38_222>>::encode(&c, &mut b);
        h.s(1, &format!("{:?}", &b[..k]));
        let k = <P as ProtocolEncoder<1_000_000>>::encode(&c, &mut b);
        h.s(2, &format!("{:?}", &b[..k]));
        let k = <P as ProtocolEncoder<48_000_000>>::encode(&c, &mut b);
        h.s(3, &format!("{:?}", &b[..k]));
        o.events += 4;
        let mut s: PulsedataSender<128> = PulsedataSender::new();
        s.load_command::<P, 20_000>(&c);
        if n % 64 == 0 {
            for t in 0..5_000u32 {
                h.b(match s.tick(t) {
                    infrared::sender::Status::Idle => 0,
                    infrared::sender::Status::Transmit(x) => 1 + x as u8,
                    infrared::sender::Status::Error => 3,
                });
                o.events += 1;
            }
        }
        o.put(&format!("{name}.enc"), n, h);
        #[cfg(feature = "embedded-hal")]
        if n % 64 == 0 {
            let mut h = H::new();
            let mut s: infrared::sender::Sender<pin::Pwm, 20_000, 128> = infrared::sender::Sender::new(pin::Pwm);
            s.load::<P>(&c);
            for _ in 0..5_000u32 {
                s.tick();
                h.b(pin::ON.with(|a| a.get()) as u8);
                o.events += 1;
            }
            o.put(&format!("{name}.sender"), n, h);
        }
    }
}

#[cfg(feature = "remotes")]
fn remote<R: infrared::remotecontrol::RemoteControlModel>(name: &str, o: &mut Out, cmds: impl Iterator<Item = R::Cmd>, acts: &[infrared::remotecontrol::Action])
where
    R::Cmd: Debug,
{
    let mut h = H::new();
    for (n, c) in cmds.enumerate() {
        h.o(n, Ok::<_, ()>(R::decode(&c)));
        o.events += 1;
    }
    for (n, a) in acts.iter().enumerate() {
        h.o(n, Ok::<_, ()>(R::encode(a)));
        o.events += 1;
    }
    h.s(0, &format!("{} {:?} {:?} {} {:?}", R::MODEL, R::DEVTYPE, R::PROTOCOL, R::ADDRESS, R::BUTTONS));
    o.put(name, 0, h);
}

fn main() {
    #[cfg(feature = "log")]
    {
        static L: Lg = Lg;
        log::set_logger(&L).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
    let st = load(&std::env::args().nth(1).unwrap());
    let so = std::io::stdout();
    let mut o = Out { w: std::io::BufWriter::new(so.lock()), events: 0, cases: 0, detail: std::env::args().nth(2).is_some(), acc: Default::default() };
    let o = &mut o;
    let mut h = H::new();
    for i in 0..=255u8 {
        h.s(i as usize, &format!("{:?}", infrared::ProtocolId::from(i)));
    }
    o.put("ids", 0, h);
    use infrared::protocol::*;
    macro_rules! p {
        ($P:ty, $n:literal, $k:literal) => {
            rx::<$P>($n, $k, &st, o);
            #[cfg(feature = "fugit")]
            fugit_rx::<$P>($n, $k, &st, o);
        };
    }
    #[cfg(feature = "remotes")]
    use infrared::remotecontrol::Action;
    #[cfg(feature = "remotes")]
    let acts = {
        use Action::*;
        [Power, Source, One, Two, Three, Four, Five, Six, Seven, Eight, Nine, Zero, Teletext, ChannelPrev, VolumeUp,
         VolumeDown, VolumeMute, ChannelList, ChannelListNext, ChannelListPrev, Tools, Info, Return, Exit, Enter, Up,
         Down, Left, Right, Red, Green, Yellow, Blue, Emanual, PictureSize, Subtitle, Stop, Rewind, Play, Paus,
         Play_Pause, Play_Pause2, Forward, Mode, Shuffle, U_SD, Plus, Minus, Next, Prev, Eq, Mute, Random, Repeat, Time,
         Setup, Menu, PitchReset, PitchPlus, PitchMinus, Prog, BatteryLow]
    };
    #[cfg(feature = "nec")]
    {
        use nec::*;
        p!(Nec, "Nec", 0);
        p!(Nec16, "Nec16", 1);
        p!(SamsungNec, "Samsung", 2);
        p!(AppleNec, "Apple", 3);
        p!(NecDebug, "Debug", 4);
        any::<Nec>("Nec", 0, &st, o);
        any::<SamsungNec>("Samsung", 2, &st, o);
        any::<AppleNec>("Apple", 3, &st, o);
        enc::<Nec>("Nec", o, (0..2048u32).map(|i| NecCommand { addr: i as u8, cmd: (i >> 3) as u8 ^ 0x55, repeat: i % 7 == 3 }));
        enc::<Nec16>("Nec16", o, (0..2048u32).map(|i| Nec16Command { addr: (i * 97) as u16, cmd: (i >> 3) as u8 ^ 0x55, repeat: i % 7 == 3 }));
        enc::<SamsungNec>("Samsung", o, (0..2048u32).map(|i| SamsungNecCommand { addr: i as u8, cmd: (i >> 3) as u8 ^ 0x55, repeat: i % 7 == 3 }));
        enc::<AppleNec>("Apple", o, (0..2048u32).map(|i| AppleNecCommand { command_page: (i & 31) as u8, command: (i >> 4) as u8 & 127, device_id: i as u8, repeat: i % 7 == 3 }));
        enc::<NecDebug>("Debug", o, (0..2048u32).map(|i| NecDebugCmd { bits: i.wrapping_mul(0x9E3779B1) }));
        #[cfg(feature = "remotes")]
        {
            use infrared::remotecontrol::nec::*;
            remote::<SamsungTv>("Samsung.remote", o, (0..65536u32).map(|i| SamsungNecCommand { addr: i as u8, cmd: (i >> 8) as u8, repeat: i % 7 == 3 }), &acts);
            remote::<SpecialForMp3>("Nec.remote", o, (0..65536u32).map(|i| NecCommand { addr: i as u8, cmd: (i >> 8) as u8, repeat: i % 7 == 3 }), &acts);
            remote::<Apple2009>("Apple.remote", o, (0..65536u32).map(|i| AppleNecCommand { command_page: (i & 31) as u8, command: (i >> 5) as u8 & 127, device_id: (i >> 12) as u8, repeat: i % 7 == 3 }), &acts);
        }
    }
    #[cfg(feature = "denon")]
    {
        p!(Denon, "Denon", 5);
        any::<Denon>("Denon", 5, &st, o);
    }
    #[cfg(feature = "sbp")]
    {
        p!(Sbp, "Sbp", 6);
        any::<Sbp>("Sbp", 6, &st, o);
        #[cfg(feature = "remotes")]
        remote::<infrared::remotecontrol::sbp::SamsungBluRayPlayer>("Sbp.remote", o, (0..65536u32).map(|i| sbp::SbpCommand { address: (i >> 8) as u16, command: i as u8, valid: true }), &acts);
    }
    #[cfg(feature = "rc5")]
    {
        p!(Rc5, "Rc5", 7);
        any::<Rc5>("Rc5", 7, &st, o);
        let mk = |i: u32| rc5::Rc5Command { addr: (i >> 6) as u8 & 31, cmd: i as u8 & 63, start: 2 | (i >> 12) as u8 & 1, toggle: i >> 11 & 1 == 1 };
        enc::<Rc5>("Rc5", o, (0..8192u32).map(mk));
        #[cfg(feature = "remotes")]
        remote::<infrared::remotecontrol::rc5::CdPlayer>("Rc5.remote", o, (0..8192u32).map(mk), &acts);
    }
    #[cfg(feature = "rc6")]
    {
        p!(Rc6, "Rc6", 8);
        any::<Rc6>("Rc6", 8, &st, o);
        enc::<Rc6>("Rc6", o, (0..4096u32).map(|i| rc6::Rc6Command { addr: (i >> 4) as u8, cmd: (i * 7) as u8, toggle: i & 1 == 1 }));
    }
    // combinations of protocols in one multi-receiver
    #[cfg(all(feature = "nec", feature = "rc5", feature = "rc6", feature = "sbp", feature = "denon"))]
    for (n, s) in st.iter().enumerate().step_by(3) {
        let mut m = infrared::receiver::MultiReceiver::<6, (Nec, Rc5, Rc6, Sbp, Denon, SamsungNec), _>::new(s.f, ());
        let mut h = H::new();
        for (i, d) in s.d.iter().enumerate() {
            for (k, c) in m.event_generic(*d, i % 2 == 0).into_iter().enumerate() {
                h.o(i * 8 + k, Ok::<_, ()>(c));
            }
        }
        o.events += 6 * s.d.len() as u64;
        o.put("all.multi", n, h);
    }
    o.end();
}
