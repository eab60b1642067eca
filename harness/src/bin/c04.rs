//! C04 No phantom commands.
use irmc::*;

fn main() {
    let c = begin("C04");
    c.bound("pulse-distance: frames of all 15-bit (thorough 17) windows of the word (36- and 48-bit words: 13, 15) over 4 backgrounds at 1 MHz, 10-bit at 40 kHz: cut short in the last bits, then whole, then a repeat");
    c.bound("pulse-distance: 7 protocols; <=2 deviations (replace/insert/delete with any alphabet letter) around base words at 1 MHz, 1 deviation at 40 kHz/48 MHz; every length of one interval at every position at 1 MHz and 40 kHz; all letter sequences up to length 4; all sequences of 3 frame-level items");
    c.bound("Manchester: all sequences over {1,2} units (RC-5: length 26; RC-6 after every valid 6-run prefix: 22), over {1,2,3,bad} to length 13; frames of all words with 1 deviation / base words with 2 deviations; every length of one interval at every position");
    c.bound("long histories: every frame-level item 66000 times in a row, every pair of items 260 (thorough 2000) times in a row, 9 protocols");
    c.assume("edges alternate");
    explore_pd(&judge);
    explore_mc();
    reach_pd("reachable states, pulse distance", &PD, false, &judge, &Nothing);
    reach_mc("reachable states, Manchester", true, &Nothing);
    soak("long histories", &cycles(&ALL, 66_000), &Soak);
    c.finish();
}

fn judge(s: &Step) -> Result<(), String> {
        if s.is_repeat {
            return Ok(());
        }
        match s.imp {
            Ok(Some(n)) if s.rf != Ok(Some(n)) && explains_pd(&PdF::new(s.pk, s.f), s.hist, &n) => Err(UNJUDGED.into()),
            Ok(Some(n)) if s.rf != Ok(Some(n)) => Err(format!("reported {n:?}, but the edges spell {:?}", s.rf)),
            _ => Ok(()),
        }
}

struct Soak;
impl SoakJudge for Soak {
    fn step(&self, s: &SoakStep) -> Result<(), String> {
        let Ok(Some(n)) = s.imp else { return Ok(()) };
        let ok = match s.rf {
            _ if s.is_repeat => true,
            Some(r) if r == s.imp => true,
            Some(_) if explains_pd(&PdF::new(s.pk, s.f), s.hist, &n) => return Err(UNJUDGED.into()),
            Some(_) => false,
            None if PD.contains(&s.pk) => true,
            None => explains(s.pk, s.f, s.hist, &n),
        };
        if ok { Ok(()) } else { Err(format!("reported {n:?}, which the edges do not spell")) }
    }
}

fn check(pk: Pk, f: u32, h: &[Ev], o: Out) -> bool {
    match o {
        Ok(Some(n)) if !explains(pk, f, h, &n) => {
            ck().violate(
                format!("{pk:?} @ {f} Hz: reported {n:?}, but the edges are not a well-formed frame with that meaning"),
                replay_evs(pk, f, h, &format!("library {o:?}")),
            );
            false
        }
        _ => true,
    }
}

struct M<P: Pr> {
    rx: Rx<P>,
    lv: bool,
}
impl<P: Pr> M<P> {
    fn new(f: u32) -> Self {
        M { rx: Rx::new(f), lv: false }
    }
    #[inline]
    fn fork(&self) -> Self {
        M { rx: self.rx.fork(), lv: self.lv }
    }
    #[inline]
    fn dt(&mut self, f: u32, h: &mut Vec<Ev>, d: u32) -> bool {
        self.lv = !self.lv;
        h.push((self.lv, d));
        count(0, 1, 0);
        let o = tracked(P::NAME, f, h, || self.rx.ev(self.lv, d));
        let (v, n) = outs(o);
        for o in &v[..n] {
            if let Ok(Some(_)) = o {
                if !check(P::PK, f, h, *o) {
                    return false;
                }
            }
        }
        true
    }
}

fn tree<P: Pr>(f: u32, m: &M<P>, al: &[u32], d: usize, h: &mut Vec<Ev>) {
    if d == 0 || stopped() {
        count(0, 0, 1);
        sample(|| format!("{:?} @ {f} Hz: {}", P::PK, show_evs(h)));
        return;
    }
    for a in al {
        let mut b = m.fork();
        count(1, 0, 0);
        if b.dt(f, h, *a) {
            tree(f, &b, al, d - 1, h);
        }
        h.pop();
    }
}

fn explore_mc() {
    let c = ck();
    // all sequences over small alphabets
    struct T {
        pk: Pk,
        f: u32,
        pre: Vec<u32>,
        al: Vec<u32>,
        d: usize,
    }
    let mut items = vec![];
    for f in [1_000_000u32, 40_000] {
        let main = f == 1_000_000;
        for pk in [Pk::Rc5, Pk::Rc6] {
            let u = |n: u64| ticks(unit(pk) as u64 * n, f);
            let bad = ticks(unit(pk) as u64 * 5 / 2, f);
            let pre: Vec<Vec<u32>> = if pk == Pk::Rc5 {
                vec![vec![gap(f)]]
            } else {
                // gap, leader, pause, start bit, mode 000, toggle 0 / 1
                vec![
                    vec![gap(f), u(6), u(2)],
                    vec![gap(f), u(6), u(2), u(1), u(2), u(1), u(1), u(1), u(1), u(1), u(2)],
                    vec![gap(f), u(6), u(2), u(1), u(2), u(1), u(1), u(1), u(1), u(3)],
                ]
            };
            let top = if pk == Pk::Rc5 { 2 } else { 3 };
            for p in pre {
                let (a2, a4): (Vec<u32>, Vec<u32>) =
                    ((1..=2).map(u).collect(), (1..=top).map(u).chain([bad, 0]).collect());
                // split the tree over its first levels for parallelism
                for x in 0..64u32 {
                    let mut pp = p.clone();
                    for b in 0..6 {
                        pp.push(a2[((x >> b) & 1) as usize]);
                    }
                    let d = match (pk, main, c.thorough) {
                        (Pk::Rc5, true, false) => 20,
                        (Pk::Rc5, true, true) => 23,
                        (_, true, false) => 19,
                        (_, true, true) => 22,
                        _ => 14,
                    };
                    items.push(T { pk, f, pre: pp, al: a2.clone(), d });
                }
                for x in &a4 {
                    for y in &a4 {
                        let mut pp = p.clone();
                        pp.extend([*x, *y]);
                        items.push(T { pk, f, pre: pp, al: a4.clone(), d: if main { 7 } else { 5 } + c.thorough as usize * 2 });
                    }
                }
            }
        }
    }
    c.par("all interval sequences over small alphabets", &items, |t| {
        if t.pk == Pk::Rc5 { go::<infrared::protocol::Rc5>(t) } else { go::<infrared::protocol::Rc6>(t) }
        fn go<P: Pr>(t: &T) {
            let mut m = M::<P>::new(t.f);
            let mut h = vec![];
            if t.pre.iter().all(|d| m.dt(t.f, &mut h, *d)) {
                tree(t.f, &m, &t.al, t.d, &mut h);
            }
        }
    });
    // frames with deviations
    let mut items = vec![];
    for pk in [Pk::Rc5, Pk::Rc6] {
        for f in [1_000_000u32, 40_000, 48_000_000] {
            for w in base_words(pk) {
                for i in 0..60 {
                    items.push((pk, f, w, i, if f == 1_000_000 || c.thorough { 2 } else { 1 }, false));
                }
            }
        }
        let step = if pk == Pk::Rc5 || c.thorough { 1 } else { 61 };
        for w in (0..=mask(pk)).step_by(step) {
            items.push((pk, 1_000_000, w, usize::MAX, 1, false));
        }
        for w in base_words(pk) {
            for f in [1_000_000u32, 40_000] {
                for i in 0..60 {
                    items.push((pk, f, w, i, 1, true));
                }
            }
        }
    }
    c.par("frames with replaced/inserted/deleted intervals", &items, |(pk, f, w, i, k, every)| {
        let (fr, _) = mc_frame(*pk, *f, *w, 0, gap(*f));
        let ls: Vec<u32> = if *every { (0..ticks(444 * 8, *f)).collect() } else { mc_letters(*pk, *f) };
        let iv: Vec<u32> = fr.iter().map(|e| e.1).collect();
        if *pk == Pk::Rc5 {
            go::<infrared::protocol::Rc5>(*f, &iv, *i, *k, &ls)
        } else {
            go::<infrared::protocol::Rc6>(*f, &iv, *i, *k, &ls)
        }
        fn go<P: Pr>(f: u32, iv: &[u32], i: usize, k: usize, ls: &[u32]) {
            let mut m = M::<P>::new(f);
            let mut h = vec![];
            if i == usize::MAX {
                // deviation anywhere
                dev(f, &m, iv, 0, k, ls, &mut h);
                return;
            }
            if i > iv.len() || !iv[..i].iter().all(|d| m.dt(f, &mut h, *d)) {
                return;
            }
            at(f, &m, iv, i, k, ls, &mut h);
        }
        fn dev<P: Pr>(f: u32, m: &M<P>, iv: &[u32], i: usize, k: usize, ls: &[u32], h: &mut Vec<Ev>) {
            let n = h.len();
            let mut m = m.fork();
            for j in i..=iv.len() {
                if k > 0 {
                    at(f, &m, iv, j, k, ls, h);
                }
                if stopped() || j == iv.len() || !m.dt(f, h, iv[j]) {
                    break;
                }
            }
            if k == 0 {
                // level fix-up, gap, and the same frame again
                count(0, 0, 1);
                let mut ok = true;
                if m.lv {
                    ok = m.dt(f, h, iv[1]);
                }
                for d in iv {
                    ok = ok && m.dt(f, h, *d);
                }
                sample(|| format!("{:?} @ {f} Hz: {}", P::PK, show_evs(h)));
            }
            h.truncate(n);
        }
        fn at<P: Pr>(f: u32, m: &M<P>, iv: &[u32], i: usize, k: usize, ls: &[u32], h: &mut Vec<Ev>) {
            if i < iv.len() {
                dev(f, m, iv, i + 1, k - 1, ls, h);
            }
            for l in ls {
                if stopped() {
                    return;
                }
                let mut b = m.fork();
                count(1, 0, 0);
                if b.dt(f, h, *l) {
                    dev(f, &b, iv, i, k - 1, ls, h);
                    if i < iv.len() {
                        dev(f, &b, iv, i + 1, k - 1, ls, h);
                    }
                }
                h.pop();
            }
        }
    });
}
