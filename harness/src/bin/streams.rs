//! Writes the edge streams that the C18 digest programs replay.
use irmc::*;
use std::io::Write;
fn main() {
    let path = std::env::args().nth(1).expect("output file");
    let thorough = std::env::args().any(|a| a == "--thorough");
    let mut w = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut n = 0u64;
    let mut put = |pk: Pk, f: u32, s: &[Ev]| {
        assert!(s.iter().enumerate().all(|(i, e)| e.0 == (i % 2 == 0)));
        for x in [pk as u32, f, s.len() as u32] {
            w.write_all(&x.to_le_bytes()).unwrap();
        }
        for e in s {
            w.write_all(&e.1.to_le_bytes()).unwrap();
        }
        n += 1;
    };
    for pk in ALL {
        for f in [40_000u32, 1_000_000] {
            for s in streams(pk, f, if thorough { 2 } else { 1 }) {
                put(pk, f, &s);
            }
            let close = |mut s: Vec<Ev>| {
                if s.last().unwrap().0 {
                    s.push((false, ticks(560, f)));
                }
                s
            };
            for w in window_words(pk, if thorough { 6 } else { 4 }) {
                put(pk, f, &close(frame(pk, f, w, gap(f)).0));
            }
            let ls: Vec<u32> = if PD.contains(&pk) {
                let mut v: Vec<u32> = pd_letters(&PdF::new(pk, f), true).iter().flat_map(|(m, s)| [*m, *s]).collect();
                v.sort_unstable();
                v.dedup();
                v
            } else {
                mc_letters(pk, f)
            };
            let (fr, _) = frame(pk, f, base_words(pk)[2], gap(f));
            let tail = close(frame(pk, f, base_words(pk)[1], gap(f)).0);
            for i in 0..fr.len() {
                for l in ls.iter().skip(if thorough { 0 } else { i % 17 }).step_by(if thorough { 1 } else { 17 }) {
                    let mut s = fr.clone();
                    s[i].1 = *l;
                    let mut s = close(s);
                    s.extend(&tail);
                    put(pk, f, &s);
                }
            }
        }
    }
    println!("{n}");
}
