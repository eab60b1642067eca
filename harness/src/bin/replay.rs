//! Replays a counterexample file: `replay <file>`.
//! `kind edges` files hold a protocol, a clock frequency and an edge history (rN / fN: a rising /
//! falling edge N ticks after the previous one); they are fed to a fresh event-driven receiver and
//! every result is printed. Other kinds describe the failing call and are printed as they are.
use irmc::*;
fn main() {
    let p = std::env::args().nth(1).expect("usage: replay <file>");
    let t = std::fs::read_to_string(&p).expect("readable replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).map(|s| s.to_string());
    println!("{t}");
    let (Some(proto), Some(f), Some(edges)) = (get("proto"), get("freq"), get("edges")) else { return };
    let Some(pk) = ALL.iter().find(|k| format!("{k:?}") == proto) else { return };
    let f: u32 = f.parse().unwrap();
    println!("--- replay: {proto} receiver at {f} Hz");
    with_proto!(*pk, P => {
        let mut r = Rx::<P>::new(f);
        let evs = |s: String| -> Vec<Ev> {
            s.split_whitespace().map(|e| (e.starts_with('r'), e[1..].parse().unwrap())).collect()
        };
        if let Some(cy) = get("cycle") {
            // long history: the prefix, then the cycle many times, silently
            let n: u32 = get("times").and_then(|n| n.parse().ok()).unwrap_or(0);
            for e in evs(get("pre").unwrap_or_default()) {
                let _ = r.ev(e.0, e.1);
            }
            let cy = evs(cy);
            for _ in 0..n {
                for e in &cy {
                    let _ = r.ev(e.0, e.1);
                }
            }
            println!("... {n} repetitions of {} edges fed", cy.len());
        }
        for (i, e) in edges.split_whitespace().enumerate() {
            let (k, d) = e.split_at(1);
            let d: u32 = d.parse().unwrap();
            let o = r.ev(k == "r", d);
            println!("{i:4} {} after {d:>10} ticks ({:>9.1} us): {o:?}", if k == "r" { "rising " } else { "falling" }, d as f64 * 1e6 / f as f64);
        }
    });
}
