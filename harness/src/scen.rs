//! Concurrent scenarios: a tree put into a structurally interesting state and
//! short programs of operations meeting in that place.
use crate::conc::{Rule, Scn};
use crate::keys::NV;
use crate::seq::{op, Op, O};
use crate::tour::Tour;
use crate::util::Rng;

#[derive(Clone, Copy)]
pub struct Focus {
    /// weights: get insert remove cip coi cas range empty stats flush repin
    pub w: [usize; 11],
    /// at least one thread runs only this
    pub one: Option<O>,
    pub mem: bool,
    pub fin: bool,
    pub inj: usize,
    pub pan: usize,
    pub guards: bool,
}

pub fn focus(name: &str) -> Focus {
    let b = Focus {
        w: [10, 16, 14, 5, 5, 3, 0, 0, 0, 0, 0],
        one: None,
        mem: false,
        fin: false,
        inj: 0,
        pan: 0,
        guards: false,
    };
    match name {
        "point" => b,
        "rmw" => Focus { w: [4, 5, 5, 12, 12, 10, 0, 0, 0, 0, 0], ..b },
        "range" => Focus { w: [0, 14, 12, 4, 3, 0, 8, 0, 0, 0, 0], one: Some(O::Range), ..b },
        "empty" => Focus { w: [1, 10, 16, 2, 1, 0, 0, 6, 0, 0, 0], one: Some(O::Empty), ..b },
        "stats" => Focus { w: [1, 16, 14, 2, 2, 0, 0, 0, 5, 2, 0], one: Some(O::Stats), mem: true, fin: true, ..b },
        "mem" => Focus { w: [2, 16, 14, 3, 5, 0, 0, 0, 0, 1, 1], fin: true, inj: 8, pan: 8, ..b },
        "reclaim" => Focus { w: [8, 14, 14, 3, 3, 0, 5, 2, 3, 10, 5], mem: true, fin: true, guards: true, ..b },
        "fault" => Focus { w: [4, 14, 10, 6, 14, 1, 1, 0, 0, 0, 0], inj: 45, pan: 0, fin: true, ..b },
        "panic" => Focus { w: [4, 10, 8, 12, 16, 1, 1, 0, 0, 0, 0], inj: 0, pan: 50, fin: true, ..b },
        "progress" => Focus { w: [5, 14, 12, 5, 5, 3, 5, 3, 3, 0, 0], inj: 8, pan: 8, ..b },
        _ => panic!("unknown focus {}", name),
    }
}

fn key(b: [u8; 8]) -> u64 {
    u64::from_be_bytes(b)
}

struct Build {
    pre: Vec<(u64, i64)>,
    hot: Vec<u64>,
    tag: String,
}

/// The state and the keys the threads fight over.
fn shape(r: &mut Rng, small: bool) -> Build {
    let mut b = Build { pre: vec![], hot: vec![], tag: String::new() };
    let mut base: [u8; 8] = match r.below(4) {
        0 => [0; 8],
        1 => [0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80],
        2 => [0xff; 8],
        _ => r.next().to_be_bytes(),
    };
    let mut v = 0i64;
    let mut put = |b: &mut Build, k: [u8; 8]| {
        b.pre.push((key(k), v % 8));
        v += 1;
    };
    let which = if small { *r.pick(&[3usize, 5, 6, 6, 7, 8, 9, 9, 9, 9]) } else { r.below(10) };
    match which {
        // fan-out at one position around a class boundary
        0..=2 => {
            let lv = match r.below(4) {
                0 | 1 => 7,
                2 => 6,
                _ => 1 + r.below(6),
            };
            let cap = *r.pick(&[4usize, 4, 4, 4, 16, 16, 48]);
            let n = match r.below(8) {
                0 => 1,
                1 => 2,
                2 => cap - 1,
                3 => cap + 1,
                _ => cap,
            };
            let stride = if n > 20 { 1 + r.below(4) } else { 1 + r.below(10) };
            let start = r.below(256usize.saturating_sub(stride * (n + 3)).max(1));
            let mut bytes: Vec<u8> = (0..n + 3).map(|i| (start + i * stride).min(255) as u8).collect();
            bytes.dedup();
            // absent ones at both ends and inside
            let mut absent = vec![];
            for _ in 0..3 {
                if bytes.len() > n {
                    let i = match r.below(3) {
                        0 => 0,
                        1 => bytes.len() - 1,
                        _ => r.below(bytes.len()),
                    };
                    absent.push(bytes.remove(i));
                }
            }
            let mut present = bytes.clone();
            r.shuffle(&mut present);
            let mk = |x: u8| {
                let mut k = base;
                k[lv] = x;
                k
            };
            for x in &present {
                put(&mut b, mk(*x));
            }
            for x in absent.iter().take(2 + r.below(2)) {
                b.hot.push(key(mk(*x)));
            }
            // present: the first, the last, one inside
            let mut ps = present.clone();
            ps.sort();
            b.hot.push(key(mk(ps[0])));
            b.hot.push(key(mk(ps[ps.len() - 1])));
            if ps.len() > 2 {
                b.hot.push(key(mk(ps[1 + r.below(ps.len() - 2)])));
            }
            // sometimes: a second entry below one child, a key splitting the node
            if lv < 7 && r.pct(50) {
                let mut k = mk(ps[0]);
                k[7] ^= 1 + r.below(3) as u8;
                if r.pct(50) {
                    put(&mut b, k);
                }
                b.hot.push(key(k));
            }
            if lv > 0 && r.pct(40) {
                let mut k = mk(ps[0]);
                let p = if lv > 1 && r.pct(70) { 1 + r.below(lv - 1) } else { r.below(lv) };
                k[p] ^= 1 << r.below(8);
                b.hot.push(key(k));
            }
            b.tag = format!("fan{}of{}at{}", n, cap, lv);
        }
        // one path; keys leaving it at different depths: racing splits
        3 | 4 => {
            put(&mut b, base);
            b.hot.push(key(base));
            for _ in 0..2 + r.below(3) {
                let mut k = base;
                let p = if r.pct(15) { 0 } else { 1 + r.below(7) };
                k[p] = k[p].wrapping_add(1 + r.below(3) as u8);
                if r.pct(30) {
                    k[7] ^= r.below(4) as u8;
                }
                if r.pct(30) {
                    put(&mut b, k);
                }
                b.hot.push(key(k));
            }
            b.tag = "path".into();
        }
        // a small inner node over small leaves: unlink, regrow, split above
        5 => {
            let d = 1 + r.below(6);
            let c = 1 + r.below(4);
            for i in 0..c {
                let mut k = base;
                k[d] = i as u8 * 7;
                put(&mut b, k);
                b.hot.push(key(k));
                if r.pct(40) {
                    k[7] = k[7].wrapping_add(1);
                    put(&mut b, k);
                    b.hot.push(key(k));
                }
            }
            let mut k = base;
            k[d] = 100;
            b.hot.push(key(k));
            if d > 1 {
                let mut k = base;
                k[d - 1] ^= 3;
                b.hot.push(key(k));
            }
            b.tag = "inner".into();
        }
        // husks: inner nodes whose entries have gone
        6 => {
            let d = 1 + r.below(6);
            let mut ks = vec![];
            for i in 0..2 + r.below(3) {
                let mut k = base;
                k[d] = i as u8;
                put(&mut b, k);
                ks.push(k);
            }
            let keep = r.below(2);
            for k in ks.iter().skip(keep) {
                b.pre.push((key(*k), -1));
            }
            for k in ks.iter().take(3) {
                b.hot.push(key(*k));
            }
            let mut k = base;
            k[d] = 77;
            b.hot.push(key(k));
            if d > 1 {
                let mut k = base;
                k[1 + r.below(d - 1)] ^= 5;
                b.hot.push(key(k));
            }
            b.tag = "husk".into();
        }
        // empty or nearly empty tree
        7 => {
            for i in 0..2 + r.below(3) {
                let mut k = base;
                if i > 0 {
                    let p = r.below(8);
                    k[p] ^= 1 << r.below(8);
                }
                b.hot.push(key(k));
                if r.pct(35) {
                    put(&mut b, k);
                }
            }
            b.tag = "bare".into();
        }
        // several inner nodes side by side, each with no, one or two leaves left
        9 => {
            let d = r.below(5);
            let e = d + 1 + r.below(6 - d);
            for i in 0..2 + r.below(2) {
                let mut k = base;
                k[d] = 10 + i as u8;
                let mut l = k;
                l[e] ^= 1 + r.below(3) as u8;
                put(&mut b, k);
                put(&mut b, l);
                let keep = if small { r.below(4) } else { r.below(6) };
                if keep != 1 {
                    b.pre.push((key(l), -1));
                }
                if keep == 0 || keep == 2 {
                    b.pre.push((key(k), -1));
                }
                b.hot.push(key(if r.pct(80) { k } else { l }));
            }
            b.tag = "shelves".into();
        }
        // two levels of fan with random members
        _ => {
            let d = 1 + r.below(6);
            base[7] = 0;
            for i in 0..2 + r.below(4) {
                for j in 0..1 + r.below(4) {
                    let mut k = base;
                    k[d] = i as u8;
                    k[7] = j as u8 * 3;
                    if r.pct(75) {
                        put(&mut b, k);
                    }
                    b.hot.push(key(k));
                }
            }
            r.shuffle(&mut b.hot);
            b.hot.truncate(5);
            b.tag = "grid".into();
        }
    }
    b
}

/// Leaves side by side for a scan to cross: writers at work inside them.
fn crossing(r: &mut Rng) -> Build {
    let mut b = Build { pre: vec![], hot: vec![], tag: "cross".into() };
    let base: [u8; 8] = match r.below(3) {
        0 => [0; 8],
        1 => [0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80],
        _ => r.next().to_be_bytes(),
    };
    // the bound may leave the path above the last node, too
    let d = if r.pct(60) { 6 } else { r.below(6) };
    let leaves = 1 + r.below(3);
    let mut last = vec![];
    for i in 0..leaves {
        let mut k = base;
        k[d] = 20 + i as u8 * 5;
        let n = match r.below(5) {
            0 => 1,
            1 | 2 => 2 + r.below(2),
            3 => 4 + r.below(3),
            _ => 14 + r.below(3),
        };
        let n = if i + 1 == leaves { n.max(2) } else { n.min(4) };
        last.clear();
        for j in 0..n {
            k[7] = 10 + j as u8 * 3;
            b.pre.push((key(k), (j % 8) as i64));
            last.push(key(k));
        }
        // in front, inside, behind; or an entry that goes
        for _ in 0..2 {
            match r.below(5) {
                0 | 1 => k[7] = 1 + r.below(9) as u8,
                2 => k[7] = 11 + 3 * r.below(n) as u8,
                3 => k[7] = 10 + 3 * r.below(n) as u8,
                _ => k[7] = 10,
            }
            b.hot.push(key(k));
        }
    }
    if r.pct(30) {
        r.shuffle(&mut b.pre);
    }
    b
}

/// A state of the structural specification's state graph.
fn model_state(r: &mut Rng, tours: &[Tour], small: bool) -> Build {
    let mut t = r.pick(tours);
    for _ in 0..3 {
        // big ballast costs time, and leaves no hope of an empty tree
        if t.ballast.len() > if small { 0 } else { 20 } {
            t = r.pick(tours);
        }
    }
    let s = r.below(t.edges.len());
    let mut b = Build { pre: vec![], hot: vec![], tag: t.name.clone() };
    for (i, x) in t.ballast.iter().map(|x| *x as i64).chain(t.path(s)).enumerate() {
        let k = t.keys[x.unsigned_abs() as usize - 1];
        b.pre.push((k, if x > 0 { (i % 8) as i64 } else { -1 }));
    }
    b.hot = t.active.iter().map(|k| t.keys[*k - 1]).collect();
    if !t.ballast.is_empty() && r.pct(50) {
        b.hot.push(t.keys[r.pick(&t.ballast) - 1]);
    }
    b
}

/// U64Congee has its own allocator and only the basic operations.
fn basic(th: &[Vec<Op>]) -> bool {
    th.iter().flatten().all(|p| {
        matches!(p.o, O::Get | O::Insert | O::Remove | O::Range | O::Repin | O::Unpin | O::Flush) && p.inj < 0
    })
}

pub fn gen(r: &mut Rng, f: &Focus, tours: &[Tour]) -> Scn {
    gen_as(r, f, false, tours)
}
/// For threads running freely: longer programs over more keys.
pub fn gen_free(r: &mut Rng, f: &Focus, tours: &[Tour]) -> Scn {
    gen_as(r, f, true, tours)
}
fn gen_as(r: &mut Rng, f: &Focus, free: bool, tours: &[Tour]) -> Scn {
    let small = f.one == Some(O::Empty);
    let cross = f.one == Some(O::Range) && !free && r.pct(30);
    let mut b = if cross {
        crossing(r)
    } else if !tours.is_empty() && r.pct(35) { model_state(r, tours, small) } else { shape(r, small) };
    b.hot.sort();
    b.hot.dedup();
    let long = free && r.pct(60);
    if long && r.pct(60) {
        // more keys around the same places, so that nodes go through classes
        let p = *r.pick(&[7usize, 7, 7, 6, 3, 1, 0]);
        for _ in 0..r.below(14) {
            let mut k = r.pick(&b.hot).to_be_bytes();
            k[p] = k[p].wrapping_add(1 + r.below(20) as u8);
            b.hot.push(key(k));
        }
        b.hot.sort();
        b.hot.dedup();
    }
    let nhot = if long { 1 + r.below(14) } else { 2 + r.below(3) };
    while b.hot.len() > nhot.max(2) {
        let i = r.below(b.hot.len());
        b.hot.remove(i);
    }
    let mut keys: Vec<u64> = b.pre.iter().map(|x| x.0).chain(b.hot.iter().copied()).collect();
    keys.sort();
    keys.dedup();
    // one more at the end, so that a scan may reach every entry
    if *keys.last().unwrap() != u64::MAX {
        keys.push(u64::MAX);
    }
    let rank = |k: u64| keys.binary_search(&k).unwrap() + 1;
    let pre: Vec<(usize, i64)> = b.pre.iter().map(|(k, v)| (rank(*k), *v)).collect();
    let present: std::collections::BTreeMap<usize, i64> = {
        let mut m = std::collections::BTreeMap::new();
        for (k, v) in &pre {
            if *v < 0 {
                m.remove(k);
            } else {
                m.insert(*k, *v);
            }
        }
        m
    };
    let hot: Vec<usize> = b.hot.iter().map(|k| rank(*k)).collect();
    let nt = if free { 2 + r.below(3) } else if r.pct(65) { 2 } else { 3 };
    let most = if long { 1 + r.below(30) } else { 1 };
    let mut th = vec![];
    let mut fresh = 8i64;
    // contention on one key is the most telling; the rest go anywhere
    let star = *r.pick(&hot);
    for t in 0..nt {
        let len = match (nt, r.below(10)) {
            _ if long => 1 + r.below(most),
            (2, 0..=2) => 1,
            (2, 3..=6) => 2,
            (2, _) => 3,
            (_, 0..=5) => 1,
            _ => 2,
        };
        let mut prog = vec![];
        for _ in 0..len {
            let only = t == 0 && f.one.is_some() && r.pct(85);
            let mut i = {
                let tot: usize = f.w.iter().sum();
                let mut x = r.below(tot);
                let mut i = 0;
                while x >= f.w[i] {
                    x -= f.w[i];
                    i += 1;
                }
                i
            };
            if only {
                i = match f.one {
                    Some(O::Range) => 6,
                    Some(O::Empty) => 7,
                    _ => 8,
                };
            }
            let k = if r.pct(35) { star } else { *r.pick(&hot) };
            let mut val = || {
                fresh += 1;
                if fresh >= NV as i64 {
                    fresh = 9;
                }
                fresh
            };
            let mut p: Op;
            match i {
                0 => p = op(O::Get, k),
                1 => {
                    p = op(O::Insert, k);
                    p.v = val();
                    if r.pct(8) {
                        p.v = *present.get(&k).unwrap_or(&1);
                    }
                }
                2 => p = op(O::Remove, k),
                3 => {
                    p = op(O::Cip, k);
                    p.f = *r.pick(&['a', 'a', 'd', 's', 'i']);
                    p.v = if p.f == 'a' { 1 } else { val() };
                }
                4 => {
                    p = op(O::Coi, k);
                    p.f = *r.pick(&['a', 'a', 's', 'i']);
                    p.v = if p.f == 'a' { 1 } else { val() };
                }
                5 => {
                    p = op(O::Cas, k);
                    p.x = *present.get(&k).unwrap_or(&9);
                    p.v = if r.pct(30) { -1 } else { val() };
                    if r.pct(8) {
                        p.v = p.x;
                    }
                }
                6 => {
                    p = op(O::Range, 1);
                    p.h = keys.len();
                    p.n = keys.len();
                    match r.below(6) {
                        0 => {
                            p.k = *r.pick(&hot);
                        }
                        1 => {
                            p.h = *r.pick(&hot);
                        }
                        2 => {
                            p.k = r.below(keys.len()) + 1;
                            p.h = (p.k + 1 + r.below(4)).min(keys.len());
                        }
                        3 => {
                            // a point: exactly one key
                            p.k = (*r.pick(&hot)).min(keys.len() - 1);
                            p.h = p.k + 1;
                        }
                        _ => {}
                    }
                    if cross {
                        p.k = if r.pct(25) { 1 } else { 1 + r.below((keys.len() / 2).min(5)) };
                        p.h = if r.pct(25) { keys.len() } else { p.k + 1 + r.below(keys.len() - p.k) };
                    }
                    if r.pct(20) {
                        p.n = 1 + r.below(4);
                    } else if r.pct(45) {
                        // as many as there are, or a little fewer or more
                        let c = if p.k < p.h { present.range(p.k..p.h).count() } else { 0 };
                        p.n = (c + r.below(3)).saturating_sub(r.below(4)).max(1);
                    }
                }
                7 => p = op(O::Empty, 0),
                8 => p = op(O::Stats, 0),
                9 => p = op(O::Flush, 0),
                _ => p = op(if r.pct(50) { O::Repin } else { O::Unpin }, 0),
            }
            if matches!(p.o, O::Insert | O::Coi) && r.pct(f.inj) {
                p.inj = r.below(2) as i64;
            }
            if matches!(p.o, O::Cip | O::Coi) && r.pct(f.pan) {
                p.pan = r.below(2) as i64;
            }
            prog.push(p);
        }
        // a key moves: one comes in before another one goes, or the reverse
        if t > 0 && small && !long && r.pct(50) && hot.len() > 1 {
            prog.clear();
            let here: Vec<usize> = hot.iter().copied().filter(|k| present.contains_key(k)).collect();
            let there: Vec<usize> = hot.iter().copied().filter(|k| !present.contains_key(k)).collect();
            let x = if here.is_empty() { *r.pick(&hot) } else { *r.pick(&here) };
            let y = if there.is_empty() { *r.pick(&hot) } else { *r.pick(&there) };
            let mut ins = op(O::Insert, y);
            ins.v = 9;
            prog.push(ins);
            prog.push(op(O::Remove, x));
            if r.pct(20) {
                prog.swap(0, 1);
            }
        }
        if f.guards && r.pct(50) {
            prog.push(op(O::Flush, 0));
        }
        th.push(prog);
    }
    let per_op: Vec<bool> = (0..nt).map(|_| r.pct(if f.guards { 40 } else { 50 })).collect();
    let desc: Vec<String> = th
        .iter()
        .filter(|_| !long)
        .map(|p| p.iter().map(|o| format!("{}{}", crate::seq::oname(o.o), o.k)).collect::<Vec<_>>().join("+"))
        .collect();
    let kind = match r.below(8) {
        0 => 1,
        1 if basic(&th) && !f.fin && !f.mem => 2,
        _ => 0,
    };
    Scn { kind, keys: keys.clone(), pre, th, per_op, tag: format!("{} {}", b.tag, desc.join(" / ")), rule: None }
}

/// Thread 0 runs a single operation, thread 1 a long program of which a part
/// runs in every attempt of thread 0: one operation at a time, so that the
/// attempt fails again and again, or as many as make a narrow version counter
/// come round.
pub fn harass(r: &mut Rng, s: Scn) -> (Scn, Vec<Rule>) {
    let real = |p: &Op| !matches!(p.o, O::Flush | O::Repin | O::Unpin);
    let mut s = s;
    let mut victim = s.th[0].iter().copied().find(real).unwrap_or(op(O::Get, 1));
    let m = crate::conc::init_map(&s);
    let leaf = |k: usize| s.keys[k - 1] >> 8;
    let group = |k: usize| -> Vec<usize> { (1..=s.keys.len()).filter(|x| leaf(*x) == leaf(k)).collect() };
    let hot: Vec<usize> = s.th.iter().flatten().filter(|p| p.k > 0 && p.o != O::Range).map(|p| p.k).collect();
    let mut star = if hot.is_empty() { 1 + r.below(s.keys.len()) } else { *r.pick(&hot) };
    if r.pct(50) {
        // rather where there are neighbours
        let c: Vec<usize> = (1..=s.keys.len()).filter(|k| group(*k).iter().filter(|x| m.contains_key(x)).count() > 1).collect();
        if !c.is_empty() {
            star = *r.pick(&c);
        }
    }
    let g = group(star);
    let there: Vec<usize> = g.iter().copied().filter(|k| *k != star && m.contains_key(k)).collect();
    let a = if there.is_empty() { star } else { *r.pick(&there) };
    let b = {
        // beside star in the order, present or not
        let c: Vec<usize> = if r.pct(70) { g.clone() } else { (1..=s.keys.len()).collect() };
        let p = c.iter().position(|k| *k >= star).unwrap_or(0);
        c[(p + r.below(3)).saturating_sub(1).min(c.len() - 1)]
    };
    if victim.k > 0 && victim.o != O::Range {
        victim.k = if r.pct(70) { star } else { *r.pick(&g) };
    }
    let wrap = r.pct(30) && (a != star || m.contains_key(&star));
    let steps = if matches!(victim.o, O::Range | O::Empty | O::Stats) { 26 } else { 12 };
    let (len, ops, half) = if wrap {
        let j = if r.pct(12) { 1 << 14 } else { 4usize << r.below(8) };
        (j + 2, j, 0)
    } else {
        (12 + r.below(100), 1 + r.below(6) / 5, *r.pick(&[0, 30, 30, 60]))
    };
    let mut rules = vec![];
    for at in 1..=if len > 10_000 { steps.min(14) } else { steps } {
        for _ in 0..1 + (half > 0) as usize * 2 {
            rules.push(Rule { at, ops: ops as u64, half, seed: r.next() >> 40 });
        }
    }
    let style = if wrap { r.below(4) } else { *r.pick(&[0, 1, 2, 3, 3, 3, 4, 4]) };
    let (mut in_s, mut in_b) = (m.contains_key(&star), m.contains_key(&b));
    let mut v = 8i64;
    let mut prog = vec![];
    for i in 0..len {
        v = if v + 1 >= NV as i64 { 9 } else { v + 1 };
        let put = |k: usize| {
            let mut p = op(O::Insert, k);
            p.v = v;
            p
        };
        let rmw = |k: usize| {
            let mut p = op(O::Cip, k);
            p.f = 'a';
            p.v = 1;
            p
        };
        let flip = |k: usize, on: &mut bool| {
            *on = !*on;
            if *on { put(k) } else { op(O::Remove, k) }
        };
        prog.push(match style {
            // the values change; with as many changes as it takes, entries
            // come or go at the end
            0 if wrap && i + 1 == ops => flip(star, &mut in_s),
            3 if wrap && i + 2 == ops => flip(star, &mut in_s),
            3 if wrap && i + 1 == ops && b != star => flip(b, &mut in_b),
            0 => put(if in_s && (a == star || !wrap && r.pct(70)) { star } else { a }),
            1 => if in_s { rmw(star) } else { put(a) },
            2 => flip(star, &mut in_s),
            3 if wrap => put(if in_s { star } else { a }),
            3 => flip(b, &mut in_b),
            // never both absent
            _ => match (in_s, in_b) {
                (true, true) => if i % 4 < 2 { flip(star, &mut in_s) } else { flip(b, &mut in_b) },
                (true, false) => flip(b, &mut in_b),
                _ => flip(star, &mut in_s),
            },
        });
    }
    s.tag = format!("{} {}{}x{}", if wrap { "long" } else { "again" }, s.tag, style, len);
    s.th = vec![vec![victim], prog];
    s.per_op = vec![r.pct(50), r.pct(50)];
    if s.kind == 2 && !basic(&s.th) {
        s.kind = 0;
    }
    (s, rules)
}
