//! Large trees: thousands of keys handled by a few events each, for the trace
//! specification BulkTrace.
use crate::seq::{join, reset_steps, seq_hook, HangPanic};
use crate::ta::TA;
use crate::trees::{Drained, Tree};
use crate::util::{cur, Rng};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Args {
    pub seed: u64,
    pub out: String,
    pub emit: usize, // numbers written
    pub secs: f64,
    pub huge: u8, // 1: one tree of 66 000 keys first; 2: one of 2 000 000 bytes
}

const NV: u64 = 20;
fn val(i: usize, v: u64) -> usize {
    ((i as u64 * 7 + v) % NV) as usize
}

fn keys(r: &mut Rng, n: usize, huge: u8) -> (String, Vec<u64>) {
    // few nodes when there are very many keys: TLC's numbers have 31 bits
    let shape = [r.below(6), *r.pick(&[0, 5]), 6][huge as usize];
    let (tag, mut v): (&str, Vec<u64>) = match shape {
        0 | 1 => {
            let b = match r.below(4) {
                0 => 0u64,
                1 => (1 << (8 * (1 + r.below(6)))) - (n as u64).min(200),
                2 => u64::MAX - n as u64 - 1,
                _ => r.next() >> 1,
            };
            ("dense", (0..n as u64).map(|i| b + i).collect())
        }
        2 => {
            let s = 8 * (1 + r.below(5));
            let b = r.next() & 0xff;
            ("apart", (0..n as u64).map(|i| b + (i << s)).collect())
        }
        3 => {
            let st = *r.pick(&[2u64, 3, 5, 255, 257, 65537]);
            ("stride", (0..n as u64).map(|i| i * st).collect())
        }
        4 => ("random", (0..n).map(|_| r.next() >> 1).collect()),
        // 2 048 360 bytes of nodes: less than 2 MiB, more than 2 MB
        6 => ("five", (0..n as u64).map(|i| (i / 5) << 8 | i % 5 * 3).collect()),
        _ => {
            // full fans at two bytes
            let (a, b) = (r.below(6), 7);
            let base = (r.next() >> 1).to_be_bytes();
            let mut v = vec![];
            'o: for x in 0..=255u8 {
                for y in 0..=255u8 {
                    if v.len() >= n {
                        break 'o;
                    }
                    let mut k = base;
                    k[a] = x;
                    k[b] = y;
                    v.push(u64::from_be_bytes(k));
                }
            }
            ("fans", v)
        }
    };
    v.sort();
    v.dedup();
    v.retain(|k| *k != u64::MAX);
    (tag.into(), v)
}

struct Out {
    file: String,
    lines: usize,
    nums: usize,
}
struct Run<'a> {
    tree: Tree,
    ta: &'a TA,
    keys: Vec<u64>,
    ev: Vec<String>,
    broken: bool,
}
impl Run<'_> {
    fn call<T>(&mut self, head: &str, f: impl FnOnce(&Tree, &[u64]) -> T) -> Option<T> {
        cur::push(&format!("{{\"o\":\"call\",\"w\":\"{}\"}}", head));
        reset_steps();
        match catch_unwind(AssertUnwindSafe(|| f(&self.tree, &self.keys))) {
            Ok(x) => Some(x),
            Err(e) => {
                self.broken = true;
                self.ev.push(if e.is::<HangPanic>() {
                    "{\"o\":\"hang\"}".into()
                } else {
                    format!("{{\"o\":\"pan\",\"w\":\"{}\"}}", head)
                });
                None
            }
        }
    }
    fn emit(&mut self, l: String) {
        self.ev.push(l);
    }
    /// One point operation on each of the keys a, a+s, .. up to b (1-based).
    fn each(&mut self, r: &mut Rng, w: &str, a: usize, b: usize, s: usize, v: u64) {
        if self.broken {
            return;
        }
        let mut idx: Vec<usize> = (a..=b).step_by(s).collect();
        match r.below(4) {
            0 => {}
            1 => idx.reverse(),
            _ => r.shuffle(&mut idx),
        }
        let per = r.pct(50);
        let res = self.call(w, |t, keys| {
            let mut res = vec![-99i64; keys.len() + 1];
            let o = |x: Option<usize>| x.map_or(-1, |y| if y < 20 { y as i64 } else { -60 });
            let mut g = t.pin();
            for (n, i) in idx.iter().enumerate() {
                let k = keys[*i - 1] as usize;
                reset_steps();
                cur::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if per && n % 64 == 0 {
                    drop(g);
                    g = t.pin();
                }
                res[*i] = match w {
                    "get" => o(t.get(k, &g)),
                    "insert" => t.insert(k, val(*i, v), &g).map_or(-9, o),
                    _ => o(t.remove(k, &g)),
                };
            }
            (a..=b).step_by(s).map(|i| res[i]).collect::<Vec<i64>>()
        });
        if let Some(res) = res {
            self.emit(format!(
                "{{\"o\":\"each\",\"w\":\"{}\",\"a\":{},\"b\":{},\"s\":{},\"v\":{},\"r\":[{}]}}",
                w, a, b, s, v, join(&res)
            ));
        }
    }
    /// A few insertions and removals near one another, n times over.
    fn churn(&mut self, r: &mut Rng, n: usize) {
        if self.broken {
            return;
        }
        let at = 1 + r.below(self.keys.len());
        let mut prog: Vec<(bool, usize, usize)> = (0..1 + r.below(5))
            .map(|i| {
                let k = (at + r.below(4)).min(self.keys.len());
                (if i == 0 { true } else { r.pct(50) }, k, r.below(NV as usize))
            })
            .collect();
        if r.pct(80) {
            prog.push((false, prog[0].1, 0));
        }
        let pins = *r.pick(&[1usize, 100, usize::MAX]);
        let p2 = prog.clone();
        let res = self.call("churn", move |t, keys| {
            let o = |x: Option<usize>| x.map_or(-1, |y| if y < 20 { y as i64 } else { -60 });
            let mut first: Vec<Vec<i64>> = vec![];
            let mut same = true;
            let mut g = t.pin();
            for i in 0..n {
                if i % pins == pins - 1 {
                    drop(g);
                    g = t.pin();
                }
                cur::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let mut row = Vec::with_capacity(prog.len());
                for (ins, k, v) in &prog {
                    reset_steps();
                    let key = keys[*k - 1] as usize;
                    row.push(if *ins { t.insert(key, *v, &g).map_or(-9, o) } else { o(t.remove(key, &g)) });
                }
                if i < 2 {
                    first.push(row);
                } else {
                    same &= row == first[1];
                }
            }
            (first, same)
        });
        if let Some((f, same)) = res {
            let p: Vec<String> = p2.iter().map(|(i, k, v)| format!("[{},{},{}]", *i as u8, k, v)).collect();
            self.emit(format!(
                "{{\"o\":\"churn\",\"n\":{},\"p\":[{}],\"r1\":[{}],\"r2\":[{}],\"same\":{}}}",
                n, p.join(","), join(&f[0]), join(&f[1]), same as u8
            ));
        }
    }
    fn scan(&mut self, k: usize, h: usize, n: usize) {
        if self.broken {
            return;
        }
        let res = self.call("range", |t, keys| {
            let at = |i: usize| if i <= keys.len() { keys[i - 1] as usize } else { usize::MAX };
            let mut buf = vec![(0usize, 0usize); n];
            let c = t.range(at(k), at(h), &mut buf, &t.pin());
            (c, buf)
        });
        if let Some((c, buf)) = res {
            let got = &buf[..c.min(buf.len())];
            let ks: Vec<i64> =
                got.iter().map(|(k, _)| self.keys.binary_search(&(*k as u64)).map_or(-50, |i| i as i64 + 1)).collect();
            let vs: Vec<i64> = got.iter().map(|(_, v)| if *v < 20 { *v as i64 } else { -60 }).collect();
            self.emit(format!(
                "{{\"o\":\"scan\",\"k\":{},\"h\":{},\"n\":{},\"c\":{},\"ks\":[{}],\"vs\":[{}]}}",
                k, h, n, c, join(&ks), join(&vs)
            ));
        }
    }
    fn empty(&mut self) {
        if self.broken || matches!(self.tree, Tree::U64(_)) {
            return;
        }
        if let Some(e) = self.call("empty", |t, _| t.is_empty(&t.pin())) {
            self.emit(format!("{{\"o\":\"empty\",\"r\":[{}]}}", e as u8));
        }
    }
    fn quiet(&mut self) {
        if self.broken {
            return;
        }
        let ta = self.ta.clone();
        let st = self.call("stats", move |t, _| {
            let (mut last, mut same) = (ta.live(), 0);
            for _ in 0..100_000 {
                congee::epoch::pin().flush();
                let now = ta.live();
                same = if now == last { same + 1 } else { 0 };
                last = now;
                if same == 8 {
                    break;
                }
            }
            t.stats()
        });
        let Some(Some(st)) = st else { return };
        let (live, odd) = self.ta.live();
        let mut s = format!(
            "{{\"o\":\"q\",\"live\":{:?},\"odd\":{},\"errs\":{},\"st\":1,\"lok\":{},\"kv\":{},\"lv\":[",
            live, odd, self.ta.errs(), st.levels_ok as u8, st.kv
        );
        let lv: Vec<String> = st.lv.iter().map(|a| format!("[{}]", join(&a.map(|x| x as i64)))).collect();
        let rows: Vec<String> = st.rows.iter().map(|r| format!("[{}]", join(r))).collect();
        let _ = write!(s, "{}],\"rows\":[{}],\"sum\":[{}]}}", lv.join(","), rows.join(","), join(&st.sum));
        self.emit(s);
    }
}

fn history(r: &mut Rng, n: usize, huge: u8) -> Vec<String> {
    let short = huge > 0;
    let (tag, ks) = keys(r, n, huge);
    let n = ks.len();
    let kind = r.below(8) / 3; // the U64 tree less often
    let ta = TA::new(false, None);
    let dr: Drained = Default::default();
    cur::clear();
    let mut x = Run { tree: Tree::new(kind, &ta, &dr), ta: &ta, keys: ks, ev: vec![], broken: false };
    x.emit(format!("{{\"o\":\"new\",\"u\":{},\"kind\":{},\"tag\":\"{}\"}}", n, kind, tag));
    cur::push(&x.ev[0]);
    x.empty();
    x.each(r, "insert", 1, n, 1, 0);
    x.scan(1, n + 1, n + 1);
    x.quiet();
    x.empty();
    let sizes: Vec<usize> = [n, n - 1, 255, 256, 257, 4096, 4097, 65535, 65536, 65537].iter().copied().filter(|s| *s <= n).collect();
    x.scan(1, n + 1, *r.pick(&sizes));
    if !short {
        x.each(r, "get", 1, n, 1, 0);
        let k = 1 + r.below(n / 2);
        x.scan(k, k + 1 + r.below(n - k), n);
    }
    if huge < 2 {
        let n = if r.pct(15) { 70_000 } else { *r.pick(&[2usize, 60, 300, 5000]) };
        x.churn(r, n);
    }
    // thin it out
    let s = 1 + r.below(4);
    let (a, b) = (1 + r.below(n / 4), n - r.below(n / 4));
    x.each(r, "remove", a, b, s, 0);
    x.scan(1 + r.below(n / 3), n + 1, n);
    x.quiet();
    x.empty();
    if !short {
        let v = r.below(20) as u64;
        let a = 1 + r.below(n / 2);
        let (b, s) = (a + r.below(n - a), 1 + r.below(2));
        x.each(r, "insert", a, b, s, v);
        x.scan(1, n + 1, n);
        x.quiet();
        x.each(r, "get", 1, n, 1, 0);
    }
    for _ in 0..2 {
        let n = *r.pick(&[2usize, 60, 300, 5000]);
        x.churn(r, n);
        x.quiet();
    }
    if r.pct(50) {
        x.each(r, "remove", 1, n, 1, 0);
        x.empty();
        x.scan(1, n + 1, 10);
        x.quiet();
        let k = 1 + r.below(n);
        x.each(r, "insert", k, k, 1, 3);
        x.empty();
    }
    let Run { tree, mut ev, mut broken, keys, .. } = x;
    if broken {
        std::mem::forget(tree);
        return ev;
    }
    cur::push("{\"o\":\"call\",\"w\":\"drop\"}");
    reset_steps();
    let dn = kind < 2;
    if catch_unwind(AssertUnwindSafe(|| drop(tree))).is_err() {
        broken = true;
        ev.push("{\"o\":\"pan\",\"w\":\"drop\"}".into());
    }
    if !broken {
        for _ in 0..4 {
            congee::epoch::pin().flush();
        }
        let mut d: Vec<(i64, i64)> = dr
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| {
                (keys.binary_search(&(*k as u64)).map_or(-50, |i| i as i64 + 1), if *v < 20 { *v as i64 } else { -60 })
            })
            .collect();
        d.sort();
        let (live, odd) = ta.live();
        let (dk, dv): (Vec<i64>, Vec<i64>) = d.into_iter().unzip();
        ev.push(format!(
            "{{\"o\":\"drop\",\"dn\":{},\"dk\":[{}],\"dv\":[{}],\"live\":{:?},\"odd\":{},\"errs\":{}}}",
            dn as u8, join(&dk), join(&dv), live, odd, ta.errs()
        ));
        ta.purge(true);
    }
    ev
}

pub fn main(a: &Args) {
    congee::verif::set_hook(Some(seq_hook));
    std::panic::set_hook(Box::new(|_| {}));
    cur::install(&format!("{}.crash", a.out), 60);
    let t0 = std::time::Instant::now();
    let mut out = Out { file: String::new(), lines: 0, nums: 0 };
    let (mut traces, mut calls, mut most) = (0, 0usize, 0);
    let mut i = 0u64;
    while out.nums < a.emit && t0.elapsed().as_secs_f64() < a.secs {
        i += 1;
        let mut r = Rng::new(a.seed.wrapping_mul(9_000_011).wrapping_add(i));
        let huge = if i == 1 { a.huge } else { 0 };
        let n = if huge > 0 { [66_000, 58_000][huge as usize - 1] } else { *r.pick(&[260usize, 300, 520, 700, 1500, 3000, 5000]) + r.below(30) };
        let ev = history(&mut r, n, huge);
        most = most.max(n);
        traces += 1;
        let next = out.lines + ev.len() + 1;
        for (j, l) in ev.iter().enumerate() {
            out.nums += l.len() / 3;
            calls += l.matches(',').count();
            if j == 0 {
                out.file.push_str(&l[..l.len() - 1]);
                let _ = write!(out.file, ",\"next\":{}}}", next);
            } else {
                out.file.push_str(l);
            }
            out.file.push('\n');
        }
        out.lines += ev.len();
    }
    std::fs::write(&a.out, &out.file).unwrap();
    println!("{{\"traces\":{},\"numbers\":{},\"keys\":{}}}", traces, calls, most);
}
