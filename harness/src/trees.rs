//! The public tree types behind one interface over machine words.
use crate::ta::TA;
use congee::epoch::Guard;
use congee::{Congee, DefaultAllocator, U64Congee};
use std::sync::{Arc, Mutex};

/// Key and value types whose conversion to machine words is not the identity,
/// so that mixing up the two representations shows.
#[derive(Clone, Copy)]
pub struct Kn(u64, u8);
const KX: u64 = 0x5a00_0000_0000_00ff;
impl From<usize> for Kn {
    fn from(x: usize) -> Self {
        Kn(x as u64 ^ KX, 1)
    }
}
impl From<Kn> for usize {
    fn from(x: Kn) -> usize {
        (x.0 ^ KX) as usize
    }
}
#[derive(Clone, Copy)]
pub struct Vn(u64);
impl From<usize> for Vn {
    fn from(x: usize) -> Self {
        Vn((x as u64).rotate_left(17) ^ 0xff)
    }
}
impl From<Vn> for usize {
    fn from(x: Vn) -> usize {
        (x.0 ^ 0xff).rotate_right(17) as usize
    }
}

pub type Drained = Arc<Mutex<Vec<(usize, usize)>>>;

pub enum Tree {
    Plain(Congee<usize, usize, TA>),
    Newty(Congee<Kn, Vn, TA>),
    U64(U64Congee<usize>),
    Def(Congee<usize, usize, DefaultAllocator>),
}
unsafe impl Send for Tree {}
unsafe impl Sync for Tree {}

pub const KINDS: [&str; 4] = ["plain", "newty", "u64", "def"];

impl Tree {
    pub fn new(kind: usize, ta: &TA, dr: &Drained) -> Tree {
        let d = dr.clone();
        match kind {
            0 => Tree::Plain(Congee::new_with_drainer(ta.clone(), move |k, v| {
                d.lock().unwrap().push((k, v))
            })),
            1 => Tree::Newty(Congee::new_with_drainer(ta.clone(), move |k: Kn, v: Vn| {
                d.lock().unwrap().push((k.into(), v.into()))
            })),
            2 => Tree::U64(U64Congee::new()),
            _ => Tree::Def(Congee::new_with_drainer(DefaultAllocator {}, move |k, v| {
                d.lock().unwrap().push((k, v))
            })),
        }
    }
    pub fn get(&self, k: usize, g: &Guard) -> Option<usize> {
        match self {
            Tree::Plain(t) => t.get(&k, g),
            Tree::Newty(t) => t.get(&Kn::from(k), g).map(usize::from),
            Tree::U64(t) => t.get(k as u64, g),
            Tree::Def(t) => t.get(&k, g),
        }
    }
    /// Err(()) = out of memory
    pub fn insert(&self, k: usize, v: usize, g: &Guard) -> Result<Option<usize>, ()> {
        match self {
            Tree::Plain(t) => t.insert(k, v, g).map_err(|_| ()),
            Tree::Newty(t) => t
                .insert(Kn::from(k), Vn::from(v), g)
                .map(|o| o.map(usize::from))
                .map_err(|_| ()),
            Tree::U64(t) => t.insert(k as u64, v, g).map_err(|_| ()),
            Tree::Def(t) => t.insert(k, v, g).map_err(|_| ()),
        }
    }
    pub fn remove(&self, k: usize, g: &Guard) -> Option<usize> {
        match self {
            Tree::Plain(t) => t.remove(&k, g),
            Tree::Newty(t) => t.remove(&Kn::from(k), g).map(usize::from),
            Tree::U64(t) => t.remove(k as u64, g),
            Tree::Def(t) => t.remove(&k, g),
        }
    }
    pub fn cip(
        &self,
        k: usize,
        f: &mut dyn FnMut(usize) -> Option<usize>,
        g: &Guard,
    ) -> Option<(usize, Option<usize>)> {
        match self {
            Tree::Plain(t) => t.compute_if_present(&k, f, g),
            Tree::Newty(t) => t.compute_if_present(&Kn::from(k), f, g),
            Tree::U64(_) => unreachable!(),
            Tree::Def(t) => t.compute_if_present(&k, f, g),
        }
    }
    pub fn coi(
        &self,
        k: usize,
        f: &mut dyn FnMut(Option<usize>) -> usize,
        g: &Guard,
    ) -> Result<Option<usize>, ()> {
        match self {
            Tree::Plain(t) => t.compute_or_insert(k, f, g).map_err(|_| ()),
            Tree::Newty(t) => t
                .compute_or_insert(Kn::from(k), f, g)
                .map(|o| o.map(usize::from))
                .map_err(|_| ()),
            Tree::U64(_) => unreachable!(),
            Tree::Def(t) => t.compute_or_insert(k, f, g).map_err(|_| ()),
        }
    }
    pub fn cas(
        &self,
        k: usize,
        old: usize,
        new: Option<usize>,
        g: &Guard,
    ) -> Result<Option<usize>, Option<usize>> {
        match self {
            Tree::Plain(t) => t.compare_exchange(&k, &old, new, g),
            Tree::Newty(t) => t
                .compare_exchange(&Kn::from(k), &Vn::from(old), new.map(Vn::from), g)
                .map(|o| o.map(usize::from))
                .map_err(|o| o.map(usize::from)),
            Tree::U64(_) => unreachable!(),
            Tree::Def(t) => t.compare_exchange(&k, &old, new, g),
        }
    }
    /// Fills `out` (sized by the caller); returns the count.
    pub fn range(&self, a: usize, b: usize, out: &mut [(usize, usize)], g: &Guard) -> usize {
        match self {
            Tree::Plain(t) => t.range(&a, &b, out, g),
            Tree::Newty(t) => t.range(&Kn::from(a), &Kn::from(b), out, g),
            Tree::U64(t) => {
                let mut buf: Vec<([u8; 8], usize)> =
                    out.iter().map(|(k, v)| (k.to_be_bytes(), *v)).collect();
                let n = t.range(a as u64, b as u64, &mut buf, g);
                for (o, x) in out.iter_mut().zip(buf) {
                    *o = (usize::from_be_bytes(x.0), x.1);
                }
                n
            }
            Tree::Def(t) => t.range(&a, &b, out, g),
        }
    }
    pub fn is_empty(&self, g: &Guard) -> bool {
        match self {
            Tree::Plain(t) => t.is_empty(g),
            Tree::Newty(t) => t.is_empty(g),
            Tree::U64(_) => unreachable!(),
            Tree::Def(t) => t.is_empty(g),
        }
    }
    pub fn pin(&self) -> Guard {
        match self {
            Tree::Plain(t) => t.pin(),
            Tree::Newty(t) => t.pin(),
            Tree::U64(_) => congee::epoch::pin(),
            Tree::Def(t) => t.pin(),
        }
    }
    /// (per level: n4,s4,n16,s16,n48,s48,n256,s256; kv pairs; Display numbers)
    pub fn stats(&self) -> Option<Stats> {
        let s = match self {
            Tree::Plain(t) => t.stats(),
            Tree::Newty(t) => t.stats(),
            Tree::U64(_) => return None,
            Tree::Def(t) => t.stats(),
        };
        let j = serde_json::to_value(&s).unwrap();
        let mut lv: Vec<(u64, [u64; 8])> = j["levels"]
            .as_object()
            .unwrap()
            .iter()
            .map(|(k, l)| {
                let mut a = [0; 8];
                for (i, c) in ["n4", "n16", "n48", "n256"].iter().enumerate() {
                    a[2 * i] = l[c]["node_count"].as_u64().unwrap();
                    a[2 * i + 1] = l[c]["value_count"].as_u64().unwrap();
                }
                let level = l["level"].as_u64().unwrap();
                (if level.to_string() == *k { level } else { 99 }, a)
            })
            .collect();
        lv.sort();
        let (rows, sum) = printed(&s.to_string());
        Some(Stats {
            levels_ok: lv.iter().enumerate().all(|(i, (l, _))| i as u64 == *l),
            lv: lv.into_iter().map(|x| x.1).collect(),
            kv: j["kv_pairs"].as_u64().unwrap(),
            rows,
            sum,
        })
    }
}

pub struct Stats {
    pub levels_ok: bool,
    pub lv: Vec<[u64; 8]>,
    pub kv: u64,
    /// the printed table: level, then nodes and load factor (in hundredths) per class
    pub rows: Vec<Vec<i64>>,
    /// the printed summary: nodes, entries, load factor, whether called low, MB, pairs
    pub sum: Vec<i64>,
}

fn hundredths(t: &str) -> i64 {
    let t = t.trim();
    match t.split_once('.') {
        Some((a, b)) if b.len() == 2 => match (a.parse::<i64>(), b.parse::<i64>()) {
            (Ok(x), Ok(y)) => 100 * x + y,
            _ => -1,
        },
        _ => -1,
    }
}

fn printed(txt: &str) -> (Vec<Vec<i64>>, Vec<i64>) {
    let int = |t: &str| t.trim().parse::<i64>().unwrap_or(-1);
    let mut rows = vec![];
    let mut sum = vec![-1; 6];
    for l in txt.lines() {
        if let Some(r) = l.strip_prefix("Level: ") {
            let mut p = r.split("||");
            let mut row = vec![int(p.next().unwrap_or("").trim_end().trim_end_matches('-'))];
            for c in p {
                let Some((_, c)) = c.split_once(':') else { continue };
                let (a, b) = c.split_once(',').unwrap_or((c, ""));
                row.push(int(a));
                row.push(hundredths(b));
            }
            rows.push(row);
        } else if let Some(r) = l.strip_prefix("Overall node count: ") {
            let (a, b) = r.split_once(", entry count: ").unwrap_or((r, ""));
            sum[0] = int(a);
            sum[1] = int(b);
        } else if let Some(r) = l.strip_prefix("Load factor: ") {
            let low = r.strip_suffix(" (too low)");
            sum[2] = hundredths(low.unwrap_or(r));
            sum[3] = low.is_some() as i64;
        } else if let Some(r) = l.strip_prefix("Active memory usage: ") {
            sum[4] = int(r.trim_end_matches(" Mb"));
        } else if let Some(r) = l.strip_prefix("KV count: ") {
            sum[5] = int(r);
        }
    }
    (rows, sum)
}

impl Stats {
    /// The shadow of what SeqTrace demands of the printed form.
    pub fn printed_ok(&self, pairs: i64) -> bool {
        let near = |f: i64, num: i64, den: i64| {
            if den == 0 {
                f == 0
            } else {
                2 * (f * den - 100 * num).abs() <= den
            }
        };
        const CAP: [i64; 4] = [4, 16, 48, 256];
        let (mut n, mut s, mut w, mut mem) = (0, 0, 0, 0);
        let mut ok = self.rows.len() == self.lv.len() && self.sum.len() == 6;
        for (i, l) in self.lv.iter().enumerate() {
            let r = &self.rows[i.min(self.rows.len().max(1) - 1)];
            if r.len() != 9 {
                return false;
            }
            ok &= r[0] == i as i64;
            for c in 0..4 {
                let (nc, sc) = (l[2 * c] as i64, l[2 * c + 1] as i64);
                ok &= r[1 + 2 * c] == nc && near(r[2 + 2 * c], sc, nc * CAP[c]);
                n += nc;
                s += sc;
                w += sc * (768 / CAP[c]);
                mem += nc * crate::ta::SIZES[c] as i64;
            }
        }
        ok && self.sum[0] == n
            && self.sum[1] == s
            && near(self.sum[2], w, 768 * n)
            && (2 * w == 768 * n || (self.sum[3] == 1) == (2 * w < 768 * n))
            && self.sum[4] == mem / 1024 / 1024
            && self.sum[5] == pairs
    }
}
