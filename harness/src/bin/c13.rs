//! C13 Command construction, packing and conversion are faithful.
use infrared::cmd::{AddressCommand, AnyCommand};
use infrared::protocol::nec::*;
use infrared::protocol::*;
use infrared::sender::ProtocolEncoder;
use infrared::ProtocolId;
use irmc::*;

fn bad(what: String) {
    let r = format!("kind value\n{what}\n");
    ck().violate(what, r);
}

/// (address, command) pairs for `create`.
fn pairs(abits: u32, cbits: u32) -> Vec<(u32, u32)> {
    let edge = |bits: u32| {
        let mut v: Vec<u32> = (0..0x180).collect();
        for k in 1..32u32 {
            for x in [0u32, 1, 5, 0x1F, 0x20, 0x3F, 0x40, 0x7F, 0x80, 0xAA, 0xFF] {
                v.push((1u32 << k).wrapping_add(x));
                v.push((1u32 << k).wrapping_sub(x));
                v.push((!0u32 << k) | x);
            }
        }
        v.extend([(1u32 << bits) - 1, 1 << bits, u32::MAX, u32::MAX - 1]);
        v.sort_unstable();
        v.dedup();
        v
    };
    let (ea, ec) = (edge(abits), edge(cbits));
    let mut v = vec![];
    for a in &ea {
        for c in &ec {
            v.push((*a, *c));
        }
    }
    for x in 0..0x2_0800u32 {
        for y in [0, 1, 0x2A, (1 << cbits) - 1, 1 << cbits] {
            v.push((x, y));
        }
        for y in [0, 1, 0x15, (1 << abits) - 1, 1 << abits] {
            v.push((y, x));
        }
    }
    v
}
fn create<C: AddressCommand + std::fmt::Debug>(name: &str, abits: u32, cbits: u32, a: u32, c: u32) -> Option<C> {
    let fits = (a as u64) < 1 << abits && (c as u64) < 1 << cbits;
    let r = C::create(a, c);
    match &r {
        Some(x) if x.address() != a || x.command() != c => {
            bad(format!("{name}: create({a}, {c}) gives {x:?}, which reports ({}, {})", x.address(), x.command()))
        }
        None if fits => bad(format!("{name}: create({a}, {c}) gives none although both numbers fit")),
        Some(x) if !fits => bad(format!("{name}: create({a}, {c}) gives {x:?} although the protocol has only {abits} address and {cbits} command bits")),
        Some(x) if x.is_repeat() => bad(format!("{name}: create({a}, {c}) gives a repeat: {x:?}")),
        _ => {}
    }
    r
}
/// What a receiver makes of the command when it is sent.
fn sent<P: Pr + ProtocolEncoder<1_000_000>>(name: &str, cmd: &<P as infrared::Protocol>::Cmd, want: (u32, u32))
where
    <P as infrared::Protocol>::Cmd: AddressCommand + std::fmt::Debug,
{
    let mut b = [0u32; 96];
    let n = <P as ProtocolEncoder<1_000_000>>::encode(cmd, &mut b);
    let mut rx: infrared::Receiver<P> = infrared::Receiver::new(1_000_000);
    let mut got = vec![];
    for (i, d) in b[..n].iter().enumerate() {
        if let Ok(Some(c)) = rx.event(*d, i % 2 == 0) {
            got.push((c.address(), c.command()));
        }
    }
    if got.is_empty() {
        if let Ok(Some(c)) = rx.event(20_000, n % 2 == 0) {
            got.push((c.address(), c.command()));
        }
    }
    count(n as u64, n as u64, 1);
    if got != vec![want] {
        bad(format!("{name}: command created from {want:?} is received as {got:?} when sent"));
    }
}
fn any<C: AddressCommand>(name: &str, cmd: C, id: ProtocolId, a: u32, c: u32, rep: bool) -> AnyCommand {
    let x: AnyCommand = cmd.into();
    count(1, 1, 1);
    if x.protocol != id || x.address != a || x.command != c || x.repeat != rep {
        bad(format!("{name} ({a}, {c}, repeat/toggle {rep}) converts to {x:?}"));
    }
    x
}

fn main() {
    let c = begin("C13");
    c.bound("validate/unpack/pack of the five NEC variants: all 2^32 words (quick: validate and unpack of all words; pack of all commands); create: all pairs over 0..383 and +-11 offsets around every power of two, plus full 17-bit ranges against boundary partners (thorough: all 2^32 addresses and commands against boundary partners); all RC-5 (2^14), RC-6 (2^17) commands; conversions: all NEC, Samsung, Apple, RC-5, RC-6 commands, all SBP addresses and commands, Denon all 16-bit windows; ProtocolId of all 256 bytes");
    let pieces: Vec<u64> = (0..4096u64).collect();
    c.par("NEC variants: validate and unpack of all 2^32 words", &pieces, |p| {
        let (lo, hi) = (p << 20, (p + 1) << 20);
        for w in lo..hi {
            let w = w as u32;
            let (b0, b1, b2, b3) = (w as u8, (w >> 8) as u8, (w >> 16) as u8, (w >> 24) as u8);
            let cinv = b2 == !b3;
            let rep = w & 0x11 == 1;
            let nec = NecCommand::validate(w) == (cinv && b0 == !b1)
                && NecCommand::unpack(w, rep) == Some(NecCommand { addr: b0, cmd: b2, repeat: rep });
            let sam = SamsungNecCommand::validate(w) == (cinv && b0 == b1)
                && SamsungNecCommand::unpack(w, rep) == Some(SamsungNecCommand { addr: b0, cmd: b2, repeat: rep });
            let n16 = Nec16Command::validate(w) == cinv
                && Nec16Command::unpack(w, rep) == Some(Nec16Command { addr: w as u16, cmd: b2, repeat: rep });
            let dbg = NecDebugCmd::validate(w) && NecDebugCmd::unpack(w, rep) == Some(NecDebugCmd { bits: w }) && NecDebugCmd { bits: w }.pack() == w;
            let ok = (w >> 5) & 0x7FF == 0x43F && w.count_ones() % 2 == 1;
            let want = if ok { Some(AppleNecCommand { command_page: b0 & 0x1F, command: b2 >> 1, device_id: b3, repeat: rep }) } else { None };
            let app = AppleNecCommand::validate(w) == ok && AppleNecCommand::unpack(w, rep) == want;
            if !(nec && sam && n16 && dbg && app) {
                bad(format!("word {w:#010x} (repeat {rep}): Nec ok={nec} Samsung ok={sam} Nec16 ok={n16} raw ok={dbg} Apple ok={app}; Nec {:?} {:?}, Samsung {:?} {:?}, Nec16 {:?} {:?}, Apple {:?} {:?}",
                    NecCommand::validate(w), NecCommand::unpack(w, rep), SamsungNecCommand::validate(w), SamsungNecCommand::unpack(w, rep),
                    Nec16Command::validate(w), Nec16Command::unpack(w, rep), AppleNecCommand::validate(w), AppleNecCommand::unpack(w, rep)));
                return;
            }
            if w & 0xFFFF == 0 {
                count(0x10000, 0x10000 * 11, 0);
                if stopped() {
                    return;
                }
            }
        }
        count(0, 0, 1);
        sample(|| format!("words {lo:#x}..{hi:#x}"));
    });
    let rows: Vec<u32> = (0..256).collect();
    c.par("NEC variants: pack/unpack of all commands", &rows, |hi| {
        fn chk<C: NecCommandVariant + PartialEq + Copy + std::fmt::Debug>(n: &str, cmd: C, want: u32, plain: C) {
            let w = cmd.pack();
            count(1, 3, 1);
            if w != want || !C::validate(w) || C::unpack(w, false) != Some(plain) {
                bad(format!("{n}: {cmd:?} packs to {w:#010x} (protocol: {want:#010x}), valid {}, unpacks to {:?}", C::validate(w), C::unpack(w, false)));
            }
        }
        let hi = *hi;
        for lo in 0..256u32 {
            if stopped() {
                return;
            }
            for rep in [false, true] {
                chk("Nec", NecCommand { addr: lo as u8, cmd: hi as u8, repeat: rep }, nec_word(Pk::Nec, lo as u64, hi as u64) as u32, NecCommand { addr: lo as u8, cmd: hi as u8, repeat: false });
                chk("Samsung", SamsungNecCommand { addr: lo as u8, cmd: hi as u8, repeat: rep }, nec_word(Pk::Samsung, lo as u64, hi as u64) as u32, SamsungNecCommand { addr: lo as u8, cmd: hi as u8, repeat: false });
            }
            for x in 0..256u32 {
                let a = (hi << 8 | lo) as u16;
                chk("Nec16", Nec16Command { addr: a, cmd: x as u8, repeat: (lo + x) % 2 == 1 }, nec_word(Pk::Nec16, a as u64, x as u64) as u32, Nec16Command { addr: a, cmd: x as u8, repeat: false });
            }
            if lo < 128 {
                for page in 0..32u8 {
                    let m = AppleNecCommand { command_page: page, command: lo as u8, device_id: hi as u8, repeat: false };
                    for r in [false, true] {
                        chk("Apple", AppleNecCommand { repeat: r, ..m }, apple_word(page as u64, lo as u64, hi as u64) as u32, m);
                    }
                }
            }
        }
    });
    c.par("RC-5, RC-6 packing", &rows, |hi| {
        for lo in 0..256u32 {
            let x = (hi << 8 | lo) as u16;
            let w = rc5::Rc5Command::unpack(x);
            count(1, 2, 1);
            let f = ((x >> 6) & 0x1F, x & 0x3F, (x >> 12) & 3, (x >> 11) & 1);
            if (w.addr as u16, w.cmd as u16, w.start as u16, w.toggle as u16) != f || (x < 1 << 14 && w.pack() != x) {
                bad(format!("RC-5 bits {x:#06x} unpack to {w:?}, pack to {:#06x}", w.pack()));
            }
            let n = rc5::Rc5Command::new(f.0 as u8, f.1 as u8, f.3 == 1);
            if (n.addr as u16, n.cmd as u16, n.toggle as u16, n.start) != (f.0, f.1, f.3, 3) || rc5::Rc5Command::unpack(n.pack()) != n {
                bad(format!("Rc5Command::new({}, {}, {}) gives {n:?}", f.0, f.1, f.3));
            }
            for t in [false, true] {
                let w = rc6::Rc6Command::from_bits(x, t);
                count(1, 1, 1);
                if (w.addr, w.cmd, w.toggle) != ((x >> 8) as u8, x as u8, t) {
                    bad(format!("RC-6 bits {x:#06x}, toggle {t} unpack to {w:?}"));
                }
            }
            let n = rc6::Rc6Command::new(*hi as u8, lo as u8);
            if (n.addr as u32, n.cmd as u32, n.toggle) != (*hi, lo, false) {
                bad(format!("Rc6Command::new({hi}, {lo}) gives {n:?}"));
            }
            // SBP: 20 command bits, 4 unknown ones first
            for low in [0u32, 5, 15] {
                let s = sbp::SbpCommand::unpack(x, (x as u32) << 4 | low);
                let y = x.rotate_left(3);
                let s2 = sbp::SbpCommand::unpack(!x, (y as u32) << 4 | low);
                count(1, 2, 1);
                let v = |x: u16| (x ^ (x >> 8)) & 0xFF == 0xFF;
                if (s.address, s.command, s.valid) != (x, x as u8, v(x)) || (s2.address, s2.command, s2.valid) != (!x, y as u8, v(y)) {
                    bad(format!("SBP address {x:#06x}, bits {:#x} unpack to {s:?}", (x as u32) << 4 | low));
                }
            }
        }
    });
    // create
    macro_rules! cr {
        ($n:literal, $t:ty, $a:literal, $c:literal) => {{
            let v = pairs($a, $c);
            let ch: Vec<&[(u32, u32)]> = v.chunks(5000).collect();
            c.par(concat!("create ", $n), &ch, |ps| {
                for (a, b) in *ps {
                    if stopped() {
                        return;
                    }
                    let _: Option<$t> = create($n, $a, $c, *a, *b);
                    count(1, 1, 1);
                }
            });
            if c.thorough {
                c.par(concat!("create, all numbers ", $n), &pieces, |p| {
                    for x in p << 20..(p + 1) << 20 {
                        for y in [0u32, (1 << $c) - 1] {
                            let _: Option<$t> = create($n, $a, $c, x as u32, y);
                        }
                        for y in [0u32, (1 << $a) - 1] {
                            let _: Option<$t> = create($n, $a, $c, y, x as u32);
                        }
                        if x & 0xFFFF == 0 {
                            count(0x40000, 0x40000, 1);
                            if stopped() {
                                return;
                            }
                        }
                    }
                });
            }
        }};
    }
    cr!("Nec", NecCommand, 8, 8);
    cr!("Samsung", SamsungNecCommand, 8, 8);
    cr!("Rc5", rc5::Rc5Command, 5, 6);
    cr!("Rc6", rc6::Rc6Command, 8, 8);
    cr!("Sbp", sbp::SbpCommand, 16, 8);
    c.par("created commands, sent", &rows, |hi| {
        for lo in 0..256u32 {
            let (a, x) = (lo, *hi);
            if stopped() {
                return;
            }
            if let Some(k) = create::<NecCommand>("Nec", 8, 8, a, x) {
                sent::<Nec>("Nec", &k, (a, x));
            }
            if let Some(k) = create::<SamsungNecCommand>("Samsung", 8, 8, a, x) {
                sent::<SamsungNec>("Samsung", &k, (a, x));
            }
            if let Some(k) = create::<rc6::Rc6Command>("Rc6", 8, 8, a, x) {
                sent::<Rc6>("Rc6", &k, (a, x));
            }
            if let Some(k) = create::<rc5::Rc5Command>("Rc5", 5, 6, a, x) {
                sent::<Rc5>("Rc5", &k, (a, x));
            }
            if let Some(k) = AppleNecCommand::create(a, x) {
                if k.address() != a || k.command() != x {
                    bad(format!("Apple: create({a}, {x}) gives {k:?}"));
                }
                sent::<AppleNec>("Apple", &k, (a, x));
            }
        }
    });
    // conversion
    c.par("conversion to AnyCommand", &rows, |hi| {
        let h = *hi;
        let mut seen = std::collections::HashMap::new();
        for lo in 0..256u32 {
            if stopped() {
                return;
            }
            for r in [false, true] {
                any("Nec", NecCommand { addr: lo as u8, cmd: h as u8, repeat: r }, ProtocolId::Nec, lo, h, r);
                any("Samsung", SamsungNecCommand { addr: lo as u8, cmd: h as u8, repeat: r }, ProtocolId::NecSamsung, lo, h, r);
                any("Rc6", rc6::Rc6Command { addr: lo as u8, cmd: h as u8, toggle: r }, ProtocolId::Rc6, lo, h, r);
                if lo < 32 && h < 64 {
                    for start in [2, 3] {
                        any("Rc5", rc5::Rc5Command { addr: lo as u8, cmd: h as u8, start, toggle: r }, ProtocolId::Rc5, lo, h, r);
                    }
                }
                for x in [0u8, 1, 0x7F, 0x80, 0xFF] {
                    any("Sbp", sbp::SbpCommand { address: (h << 8 | lo) as u16, command: x, valid: r }, ProtocolId::Sbp, h << 8 | lo, x as u32, false);
                }
                for x in 0..=255u8 {
                    any("Sbp", sbp::SbpCommand { address: lo as u16 * 257, command: x, valid: r }, ProtocolId::Sbp, lo * 257, x as u32, false);
                }
                if lo < 128 {
                    for page in 0..32u8 {
                        let m = AppleNecCommand { command_page: page, command: lo as u8, device_id: h as u8, repeat: r };
                        let (a, n) = (m.address(), m.command());
                        any("Apple", m, ProtocolId::NecApple, a, n, r);
                        if let Some(o) = seen.insert(n, (page, lo)) {
                            if o != (page, lo) {
                                bad(format!("Apple (page, command) {o:?} and {:?} both have command number {n}", (page, lo)));
                            }
                        }
                        // the number depends only on page and command
                        let z = AppleNecCommand { command_page: page, command: lo as u8, device_id: 0, repeat: false };
                        if z.command() != n {
                            bad(format!("Apple page {page} command {lo}: command number {n} with device {h}, {} with device 0", z.command()));
                        }
                    }
                }
            }
            let mut last = None;
            for off in (0..=32).step_by(2) {
                for bg in [0u64, !0] {
                    let m = 0xFFFFu64 << off;
                    let w = ((bg & !m) | (((h << 8 | lo) as u64) << off)) & mask(Pk::Denon);
                    let x: AnyCommand = denon::DenonCommand { bits: w }.into();
                    count(1, 1, 1);
                    if x.protocol != ProtocolId::Denon || x.raw != w || x.repeat {
                        bad(format!("Denon {w:#x} converts to {x:?}"));
                    }
                    last = Some(w);
                }
            }
            sample(|| format!("NEC/Samsung/RC-6 ({lo}, {h}), Denon {last:x?}"));
        }
    });
    c.par("protocol ids", &[0u8], |_| {
        let names = [
            (1u8, ProtocolId::Nec), (2, ProtocolId::Nec16), (3, ProtocolId::NecSamsung), (4, ProtocolId::NecApple),
            (5, ProtocolId::Rc5), (6, ProtocolId::Rc6), (7, ProtocolId::Sbp), (8, ProtocolId::Denon),
        ];
        for b in 0..=255u8 {
            let want = names.iter().find(|n| n.0 == b).map(|n| n.1).unwrap_or(ProtocolId::Unknown);
            count(1, 1, 1);
            if ProtocolId::from(b) != want || (want != ProtocolId::Unknown && want as u8 != b) {
                bad(format!("ProtocolId::from({b}) is {:?}", ProtocolId::from(b)));
            }
        }
    });
    c.finish();
}
