//! C01 Send/receive round trip is lossless.
use irmc::*;

fn main() {
    let c = begin("C01");
    c.bound("81 tick frequencies from 20 kHz to 4.29 GHz; per frequency all 2^16 NEC/Samsung commands, all 2^13 RC-5, all 2^17 RC-6 commands (RC-6: all at 10 frequencies, every 17th at the others), 16-bit NEC: all 2^24 at 1 MHz, 2^16 elsewhere; Apple: all 2^20 at 1 MHz, every 61st elsewhere; raw NEC: 12-bit windows at 1 MHz, 8-bit elsewhere");
    macro_rules! run {
        ($P:ty) => {{
            let t = enc_table!($P);
            one::<$P>(&t);
        }};
    }
    run!(infrared::protocol::Nec);
    run!(infrared::protocol::SamsungNec);
    run!(infrared::protocol::Nec16);
    run!(infrared::protocol::AppleNec);
    run!(infrared::protocol::NecDebug);
    run!(infrared::protocol::Rc5);
    run!(infrared::protocol::Rc6);
    c.finish();
}

fn words(pk: Pk, f: u32) -> Vec<u64> {
    let th = ck().thorough;
    let main = f == 1_000_000;
    let step = match pk {
        Pk::Nec | Pk::Samsung | Pk::Rc5 => 1,
        Pk::Rc6 => {
            if th || [20_000, 24_999, 38_222, 40_000, 1_000_000, 9_673_361, 48_000_000, 999_999_999, 318_137, 44_100].contains(&f) { 1 } else { 17 }
        }
        Pk::Nec16 => if main || th { 1 } else { 257 },
        Pk::Apple => if main || th { 1 } else { 61 },
        _ => return window_words(pk, if main { 12 } else { 8 } + 2 * th as usize),
    };
    (0..valid_count(pk)).step_by(step).map(|i| valid_word(pk, i)).collect()
}

fn one<P: Tx>(tab: &[(u32, Enc<P>)]) {
    let c = ck();
    let mut items = vec![];
    for (f, e) in tab {
        let ws = words(P::PK, *f);
        for ch in ws.chunks(1 << 16) {
            items.push((*f, *e, ch.to_vec()));
        }
    }
    c.par(P::NAME, &items, |(f, e, ws)| {
        let proto = Rx::<P>::new(*f);
        for w in ws {
            if stopped() {
                return;
            }
            // commands that were themselves received as repeats are sendable, too
            let cmd = match P::mk_rep(*w) {
                Some(r) if w.count_ones() % 2 == 1 || w >> 16 & 1 == 1 => r,
                _ => P::mk(*w),
            };
            let mut buf = [0xDEAD_u32; 128];
            let n = e(&cmd, &mut buf);
            let want = meaning(P::PK, *w, false);
            let mut r = proto.fork();
            let mut got = None;
            let mut bad = n > 128;
            count(n as u64, n as u64 + 1, 1);
            sample(|| format!("{:?} @ {f} Hz: {:?}", P::PK, want));
            for (i, d) in buf[..n.min(128)].iter().enumerate() {
                match r.ev(i % 2 == 0, *d) {
                    Ok(None) => {}
                    Ok(Some(x)) if got.is_none() => got = Some(x),
                    _ => bad = true,
                }
            }
            if bad || got != want {
                let evs: Vec<Ev> = buf[..n.min(128)].iter().enumerate().map(|(i, d)| (i % 2 == 0, *d)).collect();
                ck().violate(
                    format!("{:?} @ {f} Hz: sent {want:?}, received {got:?}{}", P::PK, if bad { " (or more than one command / an error)" } else { "" }),
                    replay_evs(P::PK, *f, &evs, &format!("encoded from {want:?}")),
                );
                return;
            }
        }
    });
}
