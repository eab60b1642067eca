//! C14 Remote-control models map buttons and codes one-to-one.
use infrared::cmd::{AddressCommand, Command};
use infrared::protocol::*;
use infrared::receiver::{DecoderBuilder, NoPin};
use infrared::remotecontrol::nec::{Apple2009, SamsungTv, SpecialForMp3};
use infrared::remotecontrol::rc5::CdPlayer;
use infrared::remotecontrol::sbp::SamsungBluRayPlayer;
use infrared::remotecontrol::{Action, Button, RemoteControlModel};
use infrared::{PeriodicPoll, Protocol, ProtocolId, Receiver};
use irmc::*;
use Action::*;

const ACTIONS: [Action; 62] = [
    Power, Source, One, Two, Three, Four, Five, Six, Seven, Eight, Nine, Zero, Teletext, ChannelPrev, VolumeUp,
    VolumeDown, VolumeMute, ChannelList, ChannelListNext, ChannelListPrev, Tools, Info, Return, Exit, Enter, Up,
    Down, Left, Right, Red, Green, Yellow, Blue, Emanual, PictureSize, Subtitle, Stop, Rewind, Play, Paus,
    Play_Pause, Play_Pause2, Forward, Mode, Shuffle, U_SD, Plus, Minus, Next, Prev, Eq, Mute, Random, Repeat, Time,
    Setup, Menu, PitchReset, PitchPlus, PitchMinus, Prog, BatteryLow,
];

/// The published tables: address, codes (Apple: page << 8 | command, any address).
type Table = &'static [(u32, Action)];
const TV: (u32, Table) = (7, &[
    (2, Power), (1, Source), (4, One), (5, Two), (6, Three), (8, Four), (9, Five), (10, Six), (12, Seven),
    (13, Eight), (14, Nine), (17, Zero), (44, Teletext), (19, ChannelPrev), (7, VolumeUp), (11, VolumeDown),
    (15, VolumeMute), (107, ChannelList), (18, ChannelListNext), (16, ChannelListPrev), (75, Tools), (31, Info),
    (88, Return), (45, Exit), (104, Enter), (96, Up), (97, Down), (101, Left), (98, Right), (108, Red), (20, Green),
    (21, Yellow), (22, Blue), (63, Emanual), (62, PictureSize), (37, Subtitle), (70, Stop), (69, Rewind),
    (71, Play), (74, Paus), (72, Forward),
]);
const MP3: (u32, Table) = (0, &[
    (69, Power), (70, Mode), (71, Mute), (68, Play_Pause), (64, Prev), (67, Next), (7, Eq), (21, Minus), (9, Plus),
    (22, Zero), (25, Shuffle), (13, U_SD), (12, One), (24, Two), (94, Three), (8, Four), (28, Five), (90, Six),
    (66, Seven), (82, Eight), (74, Nine),
]);
const CD: (u32, Table) = (20, &[
    (1, One), (2, Two), (3, Three), (4, Four), (5, Five), (6, Six), (7, Seven), (8, Eight), (9, Nine), (11, Time),
    (12, Power), (16, Up), (17, Down), (18, Setup), (21, Left), (22, Right), (23, Enter), (28, Random),
    (29, Repeat), (32, Next), (33, Prev), (37, PitchReset), (38, PitchPlus), (39, PitchMinus), (41, Prog),
    (48, Paus), (53, Play), (54, Stop),
]);
const BR: (u32, Table) = (32, &[
    (2, One), (3, Two), (4, Three), (5, Four), (6, Five), (7, Six), (8, Seven), (9, Eight), (10, Nine),
]);
const APPLE: Table = &[
    (0x0E01, Menu), (0x0E02, Play_Pause), (0x0E03, Right), (0x0E04, Left), (0x0E05, Up), (0x0E06, Down),
    (0x0E2E, Enter), (0x0E2F, Play_Pause2), (0x0003, BatteryLow), (0x0007, BatteryLow),
];
fn look(t: Table, c: u32) -> Option<Action> {
    t.iter().find(|x| x.0 == c).map(|x| x.1)
}

// User-defined models relying on the trait's default methods.
#[derive(Default, Debug)]
struct User16;
const U16: (u32, Table) = (0x1234, &[(0, Power), (255, Stop), (127, Play), (128, Exit)]);
impl RemoteControlModel for User16 {
    const PROTOCOL: ProtocolId = ProtocolId::Sbp;
    const ADDRESS: u32 = 0x1234;
    type Cmd = sbp::SbpCommand;
    const BUTTONS: &'static [(u32, Action)] = U16.1;
}
#[derive(Default, Debug)]
struct User6;
const U6: (u32, Table) = (255, &[(255, BatteryLow), (0, Power)]);
impl RemoteControlModel for User6 {
    const PROTOCOL: ProtocolId = ProtocolId::Rc6;
    const ADDRESS: u32 = 255;
    type Cmd = rc6::Rc6Command;
    const BUTTONS: &'static [(u32, Action)] = U6.1;
}

/// Commands with the widest fields the traits allow.
#[derive(Debug)]
struct Wide {
    a: u32,
    c: u32,
    r: bool,
}
impl Command for Wide {
    fn is_repeat(&self) -> bool {
        self.r
    }
}
impl AddressCommand for Wide {
    const ID: ProtocolId = ProtocolId::Denon;
    fn address(&self) -> u32 {
        self.a
    }
    fn command(&self) -> u32 {
        self.c
    }
    fn create(a: u32, c: u32) -> Option<Wide> {
        Some(Wide { a, c, r: false })
    }
}
#[derive(Default, Debug)]
struct UserWide;
const UW: (u32, Table) = (0x9234_5678, &[
    (0, Power), (1, Stop), (0x100, Play), (0x101, Exit), (0x1_0000, One), (0x8000_0000, Two), (u32::MAX, Three),
    (0xFF, Four), (0xFFFF, Five), (0x7F, Six), (0x80, Seven), (0x1234_5678, BatteryLow),
]);
impl RemoteControlModel for UserWide {
    const PROTOCOL: ProtocolId = ProtocolId::Denon;
    const ADDRESS: u32 = 0x9234_5678;
    type Cmd = Wide;
    const BUTTONS: &'static [(u32, Action)] = UW.1;
}
/// Every action there is.
#[derive(Default, Debug)]
struct UserAll;
const UALL: [(u32, Action); 62] = {
    let mut t = [(0, Power); 62];
    let mut i = 0;
    while i < 62 {
        t[i] = ((255 - 4 * i as u32) ^ 0x51, ACTIONS[i]);
        i += 1;
    }
    t
};
impl RemoteControlModel for UserAll {
    const PROTOCOL: ProtocolId = ProtocolId::Nec;
    const ADDRESS: u32 = 0x5A;
    type Cmd = nec::NecCommand;
    const BUTTONS: &'static [(u32, Action)] = &UALL;
}
/// No button at all.
#[derive(Default, Debug)]
struct UserNone;
impl RemoteControlModel for UserNone {
    const PROTOCOL: ProtocolId = ProtocolId::Rc5;
    const ADDRESS: u32 = 0;
    type Cmd = rc5::Rc5Command;
}
/// Apple codes with the default methods (page in the upper bits).
#[derive(Default, Debug)]
struct UserApple;
const UA: (u32, Table) = (0, &[(0, Power), (0x80, Stop), (0x100, Play), (0xFFF, Exit), (0x87F, Menu), (0x701, Up), (0x601, Down)]);
impl RemoteControlModel for UserApple {
    const PROTOCOL: ProtocolId = ProtocolId::NecApple;
    const ADDRESS: u32 = 0;
    type Cmd = nec::AppleNecCommand;
    const BUTTONS: &'static [(u32, Action)] = UA.1;
}

fn bad(what: String) {
    let r = format!("kind value\n{what}\n");
    ck().violate(what, r);
}

/// decode over a set of commands, encode over all actions.
fn model<R: RemoteControlModel>(name: &str, t: (u32, Table), cmds: impl Iterator<Item = (R::Cmd, u32, u32)>, encodes: bool)
where
    R::Cmd: std::fmt::Debug,
{
    if R::PROTOCOL != R::Cmd::ID {
        bad(format!("{name}: PROTOCOL is {:?} but its commands are {:?}", R::PROTOCOL, R::Cmd::ID));
    }
    for (cmd, a, c) in cmds {
        let want = if a == t.0 { look(t.1, c) } else { None };
        let got = R::decode(&cmd);
        count(1, 1, 1);
        if got != want {
            bad(format!("{name}: decode({cmd:?}) is {got:?}, table says {want:?}"));
            return;
        }
    }
    for a in ACTIONS {
        let want = if encodes { t.1.iter().find(|x| x.1 == a).map(|x| x.0) } else { None };
        let got = R::encode(&a);
        count(1, 1, 1);
        sample(|| format!("{name}: {a:?} encodes to {got:?}"));
        match (&got, want) {
            (None, None) => {}
            (Some(g), Some(w)) if g.address() == t.0 && g.command() == w && R::decode(g) == Some(a) && !g.is_repeat() => {}
            _ => bad(format!("{name}: encode({a:?}) is {got:?}, table says {want:?}")),
        }
    }
}

/// A receiver set up for the remote.
fn reception<P: Pr, R: RemoteControlModel<Cmd = <P as Protocol>::Cmd>>(name: &str, rm: fn() -> R, f: u32, words: &[u64], want: fn(&N) -> Option<Action>)
where
    <P as Protocol>::Cmd: AddressCommand + Norm,
    P: DecoderBuilder<u64>,
{
    let bld = infrared::receiver().protocol::<P>().frequency(f).remotecontrol(rm()).build();
    let mono = infrared::receiver().protocol::<P>().remotecontrol(rm()).monotonic::<u64>().frequency(f).build();
    let polled = infrared::receiver().protocol::<P>().frequency(f).remotecontrol(rm()).build_polled();
    let mut a: Receiver<P, NoPin, u32, Button<R>> = bld;
    let mut b: Receiver<P, NoPin, u64, Button<R>> = mono;
    let mut q: PeriodicPoll<P, NoPin, Button<R>> = polled;
    let mut plain: Receiver<P> = Receiver::new(f);
    for (i, w) in words.iter().enumerate() {
        if stopped() {
            return;
        }
        let (mut evs, _) = frame(P::PK, f, *w, gap(f));
        if PD.contains(&P::PK) && pd(P::PK).repeat.is_some() && i % 3 == 0 {
            evs.extend(pd_repeat(&PdF::new(P::PK, f), gap(f)));
        }
        let mut exp: Vec<(N, Option<Action>, bool)> = vec![];
        let mut got: [Vec<(N, Option<Action>, bool)>; 3] = [vec![], vec![], vec![]];
        let note = |r: Button<R>| (r.command().n(), r.action(), r.is_repeat());
        let mut lv = false;
        for (e, d) in &evs {
            if let Ok(Some(c)) = plain.event(*d, *e) {
                let n = c.n();
                exp.push((n, want(&n), c.is_repeat()));
            }
            if let Ok(Some(x)) = a.event(*d, *e) {
                got[0].push(note(x));
            }
            if let Ok(Some(x)) = b.event(*d as u64, *e) {
                got[1].push(note(x));
            }
            // the level was `lv` until this edge
            for _ in 1..*d {
                let _ = q.poll(lv);
            }
            lv = *e;
            if let Ok(Some(x)) = q.poll(lv) {
                got[2].push(note(x));
            }
            count(1, 3 + *d as u64, 0);
        }
        count(0, 0, 1);
        for (g, how) in got.iter().zip(["durations", "u64 durations", "polled"]) {
            if *g != exp {
                bad(format!("{name} receiver ({how}) @ {f} Hz, frame {w:#x}: got {g:?}, expected {exp:?}"));
                return;
            }
        }
        if meaning(P::PK, *w, false).is_some() && exp.is_empty() {
            bad(format!("{name} receiver @ {f} Hz, frame {w:#x}: nothing received"));
            return;
        }
    }
}

fn main() {
    let c = begin("C14");
    c.bound("5 shipped models and 6 user-defined ones (also with 32-bit codes, all actions, no buttons): decode of every NEC/Samsung/RC-6 command (2^16 x repeat), every RC-5 command (2^13), every Apple command (2^20 x repeat), every SBP (address, command) with 2^24 combinations; encode of all 62 actions; receivers (event u32/u64, polled) fed every code at the remote's and three other addresses, with repeat frames; 50 000..66 400 transmissions in a row of a button, of a code without one, and of several in turn");
    let jobs: Vec<fn()> = vec![
        || {
            model::<SamsungTv>("SamsungTv", TV, (0..1u32 << 17).map(|i| (nec::SamsungNecCommand { addr: i as u8, cmd: (i >> 8) as u8, repeat: i >> 16 == 1 }, i & 0xFF, (i >> 8) & 0xFF)), true)
        },
        || {
            model::<SpecialForMp3>("SpecialForMp3", MP3, (0..1u32 << 17).map(|i| (nec::NecCommand { addr: i as u8, cmd: (i >> 8) as u8, repeat: i >> 16 == 1 }, i & 0xFF, (i >> 8) & 0xFF)), true)
        },
        || {
            model::<CdPlayer>("CdPlayer", CD, (0..1u32 << 13).map(|i| (rc5::Rc5Command { addr: (i & 0x1F) as u8, cmd: ((i >> 5) & 0x3F) as u8, start: 2 | (i >> 12) as u8, toggle: (i >> 11) & 1 == 1 }, i & 0x1F, (i >> 5) & 0x3F)), true)
        },
        || {
            model::<SamsungBluRayPlayer>("SamsungBluRayPlayer", BR, (0..1u32 << 25).map(|i| (sbp::SbpCommand { address: i as u16, command: (i >> 16) as u8, valid: i >> 24 == 1 }, i & 0xFFFF, (i >> 16) & 0xFF)), true)
        },
        || {
            model::<Apple2009>("Apple2009", (0, APPLE), (0..1u32 << 21).map(|i| {
                let m = nec::AppleNecCommand { command_page: (i & 0x1F) as u8, command: ((i >> 5) & 0x7F) as u8, device_id: (i >> 12) as u8, repeat: i >> 20 == 1 };
                (m, 0, (i & 0x1F) << 8 | (i >> 5) & 0x7F)
            }), false)
        },
        || {
            model::<User16>("user-defined SBP remote", U16, (0..1u32 << 24).map(|i| (sbp::SbpCommand { address: i as u16, command: (i >> 16) as u8, valid: true }, i & 0xFFFF, i >> 16)), true)
        },
        || {
            model::<User6>("user-defined RC-6 remote", U6, (0..1u32 << 17).map(|i| (rc6::Rc6Command { addr: i as u8, cmd: (i >> 8) as u8, toggle: i >> 16 == 1 }, i & 0xFF, (i >> 8) & 0xFF)), true)
        },
        || {
            // codes and addresses that differ in up to two bits from those of the table
            let near = |v: u32| -> Vec<u32> { (0..32u32).flat_map(|i| (i..32).map(move |j| v ^ (1 << i) ^ if i == j { 0 } else { 1 << j })).chain([v]).collect() };
            let cmds: Vec<(Wide, u32, u32)> = near(UW.0).into_iter().flat_map(|a| {
                let cs: Vec<u32> = if a == UW.0 { UW.1.iter().flat_map(|t| near(t.0)).collect() } else { UW.1.iter().map(|t| t.0).collect() };
                cs.into_iter().map(move |c| (Wide { a, c, r: c & 1 == 1 }, a, c))
            }).collect();
            model::<UserWide>("user-defined remote with 32-bit codes", UW, cmds.into_iter(), true)
        },
        || {
            static T: [(u32, Action); 62] = UALL;
            model::<UserAll>("user-defined NEC remote with all actions", (0x5A, &T), (0..1u32 << 17).map(|i| (nec::NecCommand { addr: i as u8, cmd: (i >> 8) as u8, repeat: i >> 16 == 1 }, i & 0xFF, (i >> 8) & 0xFF)), true)
        },
        || {
            model::<UserNone>("user-defined RC-5 remote without buttons", (0, &[]), (0..1u32 << 13).map(|i| (rc5::Rc5Command { addr: (i & 0x1F) as u8, cmd: ((i >> 5) & 0x3F) as u8, start: 2 | (i >> 12) as u8, toggle: (i >> 11) & 1 == 1 }, i & 0x1F, (i >> 5) & 0x3F)), true)
        },
        || {
            model::<UserApple>("user-defined Apple remote", UA, (0..1u32 << 21).map(|i| {
                let m = nec::AppleNecCommand { command_page: (i & 0x1F) as u8, command: ((i >> 5) & 0x7F) as u8, device_id: (i >> 12) as u8, repeat: i >> 20 == 1 };
                (m, 0, (i & 0x1F) << 7 | (i >> 5) & 0x7F)
            }), false)
        },
        || {
            let mut names: Vec<&str> = ACTIONS.iter().map(|a| a.to_str()).collect();
            count(62, 62, 1);
            if names.iter().any(|n| n.is_empty()) {
                bad("an action has an empty name".into());
            }
            names.sort();
            for w in names.windows(2) {
                if w[0] == w[1] {
                    bad(format!("two actions are called {:?}", w[0]));
                }
            }
        },
    ];
    c.par("models: decode, encode, names", &jobs, |j| j());
    let mut items: Vec<(usize, u32, u32)> = vec![];
    for k in 0..7 {
        // 100..: tens of thousands of transmissions
        for part in 100..104u32 {
            items.push((k, 40_000, part));
        }
        for f in [40_000u32, 100_000] {
            for part in 0..8u32 {
                items.push((k, f, part));
            }
        }
    }
    c.par("receivers set up for a remote", &items, |(k, f, part)| {
        let many = part.checked_sub(100);
        let codes: Vec<u64> = match many {
            // a button, a code without one, several in turn
            Some(m) => (0..16_600u64).map(|i| [7, 0xF3, i % 3 * 5 + 1, i % 256][m as usize]).collect(),
            None => (0..256u64).filter(|c| c % 8 == *part as u64).collect(),
        };
        let nec = |pk: Pk, addr: [u64; 4]| -> Vec<u64> { codes.iter().flat_map(|c| addr.map(|a| nec_word(pk, a, *c))).collect() };
        let sbp = |addr: [u64; 4]| -> Vec<u64> { codes.iter().flat_map(|c| addr.map(|a| a | 5 << 16 | c << 20 | (!c & 0xFF) << 28)).collect() };
        match k {
            0 => reception::<SamsungNec, SamsungTv>("SamsungTv", || SamsungTv, *f, &nec(Pk::Samsung, [7, 6, 0, 0x87]), |n| if n.a == 7 { look(TV.1, n.b) } else { None }),
            1 => reception::<Nec, SpecialForMp3>("SpecialForMp3", || SpecialForMp3, *f, &nec(Pk::Nec, [0, 1, 0x80, 0xFF]), |n| if n.a == 0 { look(MP3.1, n.b) } else { None }),
            2 => {
                let w: Vec<u64> = match many {
                    Some(m) => (0..66_400u64).map(|i| [20 << 6 | 53, 20 << 6 | 62, 20 << 6 | i % 3 | (i & 1) << 11, i % 8192][m as usize]).collect(),
                    None => (0..1 << 13).filter(|i| i % 8 == *part as u64).collect(),
                };
                reception::<Rc5, CdPlayer>("CdPlayer", || CdPlayer, *f, &w, |n| if n.a == 20 { look(CD.1, n.b) } else { None })
            }
            3 => reception::<Sbp, SamsungBluRayPlayer>("SamsungBluRayPlayer", || SamsungBluRayPlayer, *f, &sbp([32, 0, 33, 0x2000]), |n| if n.a == 32 { look(BR.1, n.b) } else { None }),
            4 => {
                let w: Vec<u64> = codes.iter().flat_map(|c| [0, 0x0E, 0x1E, 0x0F].map(|p| apple_word(p, *c & 0x7F, if c & 0x80 == 0 { 0 } else { 0x9B }))).collect();
                reception::<AppleNec, Apple2009>("Apple2009", || Apple2009, *f, &w, |n| look(APPLE, n.c << 8 | n.b))
            }
            5 => reception::<Sbp, User16>("user-defined SBP remote", || User16, *f, &sbp([0x1234, 0x34, 0x1235, 0x3412]), |n| if n.a == 0x1234 { look(U16.1, n.b) } else { None }),
            _ => {
                let w: Vec<u64> = codes.iter().flat_map(|c| [0xFFu64, 0x7F, 0].map(|a| a << 8 | c | (c & 1) << 16)).collect();
                reception::<Rc6, User6>("user-defined RC-6 remote", || User6, *f, &w, |n| if n.a == 255 { look(U6.1, n.b) } else { None })
            }
        }
    });
    c.finish();
}
