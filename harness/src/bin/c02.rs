//! C02 Encoders emit the protocol's published waveform.
use irmc::*;

fn main() {
    let c = begin("C02");
    c.bound("81 tick frequencies; all 2^16 NEC/Samsung, 2^13 RC-5, 2^17 RC-6 commands at each; all 2^24 16-bit NEC at 1 MHz (elsewhere every 257th, thorough all), 2^20 Apple at 1 MHz and 7 others (elsewhere every 7th), 14-bit windows of raw NEC (thorough: all 2^32 at 1 MHz); every third one also into a buffer of exactly the frame's length");
    macro_rules! run {
        ($P:ty) => {{
            let t = enc_table!($P);
            one::<$P>(&t);
        }};
    }
    run!(infrared::protocol::Nec);
    run!(infrared::protocol::SamsungNec);
    run!(infrared::protocol::Nec16);
    run!(infrared::protocol::AppleNec);
    run!(infrared::protocol::NecDebug);
    run!(infrared::protocol::Rc5);
    run!(infrared::protocol::Rc6);
    c.finish();
}

/// Published durations in microseconds with the number of protocol time units of each.
fn published(pk: Pk, w: u64) -> Vec<(u32, u32)> {
    let mut v = vec![(0, 0)];
    if PD.contains(&pk) {
        let p = pd(pk);
        let units = |us: u32| (us + 280) / 560;
        for s in p.segs() {
            let y = p.sym(s, w);
            v.push((y.mark, units(y.mark)));
            v.push((y.space, units(y.space)));
        }
        v.push((p.tail, 1));
    } else {
        for u in runs(pk, w, 0).0 {
            v.push((u as u32 * unit(pk), u as u32));
        }
    }
    v
}

const FULL: [u32; 7] = [20_000, 32_768, 38_222, 40_000, 44_100, 999_999, 48_000_000];

fn one<P: Tx>(tab: &[(u32, Enc<P>)]) {
    let c = ck();
    let th = c.thorough;
    let mut items: Vec<(u32, Enc<P>, u64, u64, u64)> = vec![]; // f, enc, first index, count, step
    for (f, e) in tab {
        let full = *f == 1_000_000 || (FULL.contains(f) && P::PK != Pk::Nec16);
        let n = if P::PK == Pk::Debug && !th { 1 << 20 } else { valid_count(P::PK) };
        let step = if full || (th && n <= 1 << 24) { 1 } else if n > 1 << 20 { 257 } else if n > 1 << 17 { 7 } else { 1 };
        let mut i = 0;
        while i < n {
            items.push((*f, *e, i, (n - i).min(1 << 18), step));
            i += 1 << 18;
        }
    }
    let windows = window_words(P::PK, 14.min(nbits(P::PK)));
    c.par(P::NAME, &items, |(f, e, a, n, step)| {
        // tick limits of every duration that can occur
        let mut lim = std::collections::HashMap::new();
        let mut limits = |us: u32, u: u32| -> (u64, u64) {
            *lim.entry((us, u)).or_insert_with(|| {
                let x = us as u128 * *f as u128;
                let s = u as u128 * 1_000_000 + x / 200;
                ((x.saturating_sub(s) + 999_999).div_euclid(1_000_000) as u64, ((x + s) / 1_000_000) as u64)
            })
        };
        let zero = published(P::PK, 0);
        let ones = published(P::PK, mask(P::PK));
        let pdz: Vec<(u64, u64)> = zero.iter().map(|(a, b)| limits(*a, *b)).collect();
        let pdo: Vec<(u64, u64)> = ones.iter().map(|(a, b)| limits(*a, *b)).collect();
        let mut i = *a;
        while i < a + n {
            if stopped() {
                return;
            }
            let w = match P::PK {
                Pk::Debug if !ck().thorough => {
                    if i as usize >= windows.len() {
                        return;
                    }
                    windows[i as usize]
                }
                _ => valid_word(P::PK, i),
            };
            i += step;
            let mut buf = [0xDEAD_BEEFu32; 128];
            let len = e(&P::mk(w), &mut buf);
            count(len as u64, 1, 1);
            sample(|| format!("{:?} @ {f} Hz word {w:#x}: {:?}", P::PK, &buf[..len.min(128)]));
            let mut bad: Option<String> = None;
            if let Some(r) = P::mk_rep(w) {
                let mut again = [0xDEAD_BEEFu32; 128];
                let l = e(&r, &mut again);
                count(0, 1, 0);
                if l != len || again[..l.min(128)] != buf[..l.min(128)] {
                    bad = Some(format!("a command received as a repeat is sent as {l} durations {:?}, its first transmission as {len}", &again[..l.min(128)]));
                }
            }
            if bad.is_some() {
            } else if PD.contains(&P::PK) {
                // fast path: same number of durations for every word
                if len != zero.len() {
                    bad = Some(format!("{len} durations, expected {}", zero.len()));
                } else {
                    for j in 0..len {
                        let l = if j >= 3 && j < 67 && (w >> ((j - 3) / 2)) & 1 == 1 { pdo[j] } else { pdz[j] };
                        let d = buf[j] as u64;
                        if d < l.0 || d > l.1 {
                            bad = Some(format!("duration {j} is {d} ticks, expected {}..={}", l.0, l.1));
                            break;
                        }
                    }
                }
            } else {
                let want = published(P::PK, w);
                if len != want.len() {
                    bad = Some(format!("{len} durations, expected {}", want.len()));
                } else {
                    for j in 0..len {
                        let l = limits(want[j].0, want[j].1);
                        let d = buf[j] as u64;
                        if d < l.0 || d > l.1 {
                            bad = Some(format!("duration {j} is {d} ticks, expected {}..={}", l.0, l.1));
                            break;
                        }
                    }
                }
            }
            if bad.is_none() && len % 2 != 0 {
                bad = Some("the train leaves the carrier on".into());
            }
            // a buffer of exactly that size is enough
            if bad.is_none() && i % 3 == 0 {
                let mut tight = [0u32; 128];
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e(&P::mk(w), &mut tight[..len])));
                count(0, 1, 0);
                match r {
                    Ok(l) if l == len && tight[..len] == buf[..len] => {}
                    Ok(l) => bad = Some(format!("into a buffer of {len} entries, {l} durations {:?} are written", &tight[..l.min(128)])),
                    Err(_) => bad = Some(format!("a buffer of {len} entries, the length of the frame, is not enough")),
                }
            }
            if let Some(b) = bad {
                ck().violate(
                    format!("{:?} @ {f} Hz word {w:#x} ({:?}): {b}", P::PK, meaning(P::PK, w, false)),
                    format!("kind encode\nproto {:?}\nfreq {f}\nword {w:#x}\ngot {:?}\npublished_us {:?}\n", P::PK, &buf[..len.min(128)], published(P::PK, w)),
                );
                return;
            }
        }
    });
}
