//! Walks over the state graphs of the structural specification (specs/tours,
//! written by TLC): every edge of every graph is taken on the real tree, with
//! the operations and probes of one property around it.  The histories go to
//! SeqTrace like the random ones.  Concurrent scenarios start from the states.
use crate::keys::NV;
use crate::seq::{self, op, Cfg, Emitter, Focus, Next, Op, Vals, O};
use crate::trees::KINDS;
use crate::util::{cur, Rng};
use std::collections::{BTreeMap, HashSet, VecDeque};

pub struct Tour {
    pub name: String,
    pub keys: Vec<u64>,
    pub ballast: Vec<usize>,
    pub active: Vec<usize>,
    pub edges: Vec<Vec<(i64, usize)>>,
    pub parent: Vec<(usize, i64)>,
}

pub fn load(dir: &str) -> Vec<Tour> {
    let mut names: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().is_some_and(|x| x == "tour"))
        .collect();
    names.sort();
    names
        .iter()
        .map(|p| {
            let txt = std::fs::read_to_string(p).unwrap();
            let mut ls = txt.lines().skip(1);
            let nums = |l: &str| -> Vec<u64> { l.split(' ').skip(1).map(|x| x.parse().unwrap()).collect() };
            let mut keys = nums(ls.next().unwrap());
            let ballast: Vec<usize> = nums(ls.next().unwrap()).iter().map(|x| *x as usize).collect();
            let edges: Vec<Vec<(i64, usize)>> = ls
                .map(|l| {
                    l.split(' ')
                        .map(|e| {
                            let (a, b) = e.split_once(':').unwrap();
                            (a.parse().unwrap(), b.parse().unwrap())
                        })
                        .collect()
                })
                .collect();
            let mut parent = vec![(usize::MAX, 0); edges.len()];
            for (s, es) in edges.iter().enumerate() {
                for (x, t) in es {
                    if *t > s && parent[*t].0 == usize::MAX {
                        parent[*t] = (s, *x);
                    }
                }
            }
            let active = edges[0].iter().filter(|e| e.0 > 0).map(|e| e.0 as usize).collect();
            // one more key at the end, so that a scan may reach every entry
            if *keys.last().unwrap() != u64::MAX {
                keys.push(u64::MAX);
            }
            Tour { name: p.file_stem().unwrap().to_string_lossy().into(), keys, ballast, active, edges, parent }
        })
        .collect()
}

impl Tour {
    /// How to get to a state: signed keys.
    pub fn path(&self, mut s: usize) -> Vec<i64> {
        let mut v = vec![];
        while s != 0 {
            v.push(self.parent[s].1);
            s = self.parent[s].0;
        }
        v.reverse();
        v
    }
}

enum Item {
    Op(Op),
    Plain(i64),
    Edge(i64),
    Fault(usize, i64),
    Boom(usize),
}

/// What one property wants to see at an edge and at a state.
#[derive(Clone, Copy, Default)]
pub struct Probe {
    faults: bool,
    panics: bool,
    gets: bool,
    ranges: bool,
    empty: bool,
    q: usize, // per cent of edges; every new state gets one if not 0
    stop: bool,
}
fn probe(name: &str) -> Probe {
    let d = Probe::default();
    match name {
        "point" | "rmw" => Probe { gets: true, ..d },
        "range" => Probe { ranges: true, ..d },
        "empty" => Probe { empty: true, ..d },
        "oom" | "oomdef" => Probe { faults: true, gets: true, q: 2, ..d },
        "panic" => Probe { panics: true, gets: true, q: 2, ..d },
        "shape" | "stats" => Probe { q: 20, ..d },
        "mem" => Probe { q: 5, faults: true, panics: true, ..d },
        "drain" => Probe { stop: true, ..d },
        _ => panic!("unknown focus {}", name),
    }
}

struct Walk<'a> {
    t: &'a Tour,
    todo: &'a mut [Vec<bool>],
    left: &'a mut usize,
    seen: &'a mut Vec<bool>,
    at: usize,
    q: VecDeque<Item>,
    r: Rng,
    p: Probe,
    kind: usize,
    len: usize,
    stop: bool,
}

impl Walk<'_> {
    fn value(&mut self) -> i64 {
        self.r.below(NV) as i64
    }
    fn step(&mut self, x: i64, sh: &BTreeMap<usize, i64>) -> Op {
        let k = x.unsigned_abs() as usize;
        let all = self.kind != 2;
        let mut p;
        match (x > 0, sh.get(&k).copied()) {
            (true, cur) => match self.r.below(if all { 6 } else { 1 }) {
                4 | 5 => {
                    p = op(O::Coi, k);
                    p.v = self.value();
                    p.f = *self.r.pick(&['s', 'i', 'a']);
                }
                2 if cur.is_some() => {
                    p = op(O::Cip, k);
                    p.v = self.value();
                    p.f = *self.r.pick(&['s', 'i', 'a']);
                }
                3 if cur.is_some() => {
                    p = op(O::Cas, k);
                    p.x = cur.unwrap();
                    p.v = self.value();
                }
                _ => {
                    p = op(O::Insert, k);
                    p.v = self.value();
                }
            },
            (false, cur) => match self.r.below(if all { 4 } else { 1 }) {
                2 => {
                    p = op(O::Cip, k);
                    p.f = 'd';
                }
                3 if cur.is_some() => {
                    p = op(O::Cas, k);
                    p.x = cur.unwrap();
                    p.v = -1;
                }
                _ => p = op(O::Remove, k),
            },
        }
        p
    }
    fn range(&mut self) -> Op {
        let u = self.t.keys.len();
        let mut p = op(O::Range, 1 + self.r.below(u));
        p.h = match self.r.below(4) {
            0 => u,
            1 => (p.k + 1 + self.r.below(3)).min(u),
            _ => 1 + self.r.below(u),
        };
        if p.h < p.k && self.r.pct(90) {
            std::mem::swap(&mut p.h, &mut p.k);
        }
        p.n = if self.r.pct(40) { self.r.below(5) } else { u + 1 };
        p
    }
    fn all(&self, n: usize) -> Op {
        let mut p = op(O::Range, 1);
        p.h = self.t.keys.len();
        p.n = n;
        p
    }
    /// The next edge to take, with everything around it.
    fn plan(&mut self) -> bool {
        if self.stop || self.len > 500 {
            return false;
        }
        let mine: Vec<usize> = (0..self.t.edges[self.at].len()).filter(|i| self.todo[self.at][*i]).collect();
        if mine.is_empty() {
            // to the nearest state with an edge still to be taken
            let n = self.t.edges.len();
            let mut from: Vec<Option<(usize, i64)>> = vec![None; n];
            let mut q = VecDeque::from([self.at]);
            let mut goal = None;
            'bfs: while let Some(s) = q.pop_front() {
                for (x, t) in &self.t.edges[s] {
                    if *t != self.at && from[*t].is_none() {
                        from[*t] = Some((s, *x));
                        if self.todo[*t].iter().any(|b| *b) {
                            goal = Some(*t);
                            break 'bfs;
                        }
                        q.push_back(*t);
                    }
                }
            }
            let Some(g) = goal else { return false };
            let mut s = g;
            while s != self.at {
                let (a, x) = from[s].unwrap();
                self.q.push_front(Item::Plain(x));
                s = a;
            }
            self.at = g;
            return true;
        }
        let i = *self.r.pick(&mine);
        let (x, to) = self.t.edges[self.at][i];
        self.todo[self.at][i] = false;
        *self.left -= 1;
        let k = x.unsigned_abs() as usize;
        if self.p.faults && x > 0 && self.r.pct(60) {
            self.q.push_back(Item::Fault(k, self.r.below(2) as i64));
        }
        if self.p.panics && self.r.pct(60) && self.kind != 2 {
            self.q.push_back(Item::Boom(k));
        }
        self.q.push_back(Item::Edge(x));
        let new = !std::mem::replace(&mut self.seen[to], true);
        if self.p.gets {
            let mut ks = if new { self.t.active.clone() } else { vec![k] };
            for _ in 0..2 {
                ks.push(1 + self.r.below(self.t.keys.len()));
            }
            for k in ks {
                self.q.push_back(Item::Op(op(O::Get, k)));
            }
        }
        if self.p.ranges {
            let n = if new { 5 } else { 1 };
            for _ in 0..n {
                let p = self.range();
                self.q.push_back(Item::Op(p));
            }
            if new {
                let u = self.t.keys.len() + 1;
                let p = self.all(u);
                self.q.push_back(Item::Op(p));
            }
        }
        if self.p.empty {
            self.q.push_back(Item::Op(op(O::Empty, 0)));
        }
        if self.p.q > 0 && (new || self.r.pct(self.p.q)) {
            self.q.push_back(Item::Op(op(O::Q, 0)));
        }
        if self.p.stop && (new || self.r.pct(3)) {
            self.stop = true;
        }
        self.at = to;
        true
    }
    fn next(&mut self, sh: &BTreeMap<usize, i64>) -> Next {
        while self.q.is_empty() {
            if !self.plan() {
                return Next::End;
            }
        }
        self.len += 1;
        let p = match self.q.pop_front().unwrap() {
            Item::Op(p) => p,
            Item::Plain(x) | Item::Edge(x) => self.step(x, sh),
            Item::Fault(k, n) => {
                let mut p = op(if self.kind != 2 && self.r.pct(40) { O::Coi } else { O::Insert }, k);
                p.v = self.value();
                p.inj = n;
                p
            }
            Item::Boom(k) => {
                let mut p = op(if sh.contains_key(&k) && self.r.pct(60) { O::Cip } else { O::Coi }, k);
                p.v = self.value();
                if p.o == O::Cip && self.r.pct(40) {
                    p.f = 'd';
                }
                p.pan = 0;
                p
            }
        };
        Next::Op(p)
    }
}

pub struct Args {
    pub dir: String,
    pub focus: String,
    pub seed: u64,
    pub shard: usize,
    pub of: usize,
    pub out: String,
    pub emit_events: usize,
    pub secs: f64,
}

pub fn main(a: &Args) {
    congee::verif::set_hook(Some(seq::seq_hook));
    std::panic::set_hook(Box::new(|_| {}));
    cur::install(&format!("{}.crash", a.out), 40);
    let vals = Vals::new();
    let f: Focus = seq::focus(&a.focus);
    let p = probe(&a.focus);
    let t0 = std::time::Instant::now();
    let tours = load(&a.dir);
    let mut em = Emitter::default();
    let (mut taken, mut total, mut states, mut walks, mut ops_total, mut sus) = (0usize, 0usize, 0usize, 0, 0, 0);
    let all: usize = tours.iter().map(|t| t.edges.iter().map(|e| e.len()).sum::<usize>()).sum::<usize>() / a.of;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut lines = vec![];
    let mut kinds = [0usize; KINDS.len()];
    let mut r = Rng::new(a.seed.wrapping_mul(9_000_011));
    let mut order: Vec<usize> = (0..tours.len()).collect();
    r.shuffle(&mut order);
    'out: for ti in order {
        let t = &tours[ti];
        let mut todo: Vec<Vec<bool>> = vec![];
        let mut left = 0;
        for (s, es) in t.edges.iter().enumerate() {
            todo.push(
                es.iter()
                    .map(|(x, _)| {
                        let m = (s.wrapping_mul(31) + (*x + 1000) as usize) % a.of == a.shard;
                        left += m as usize;
                        m
                    })
                    .collect(),
            );
        }
        let n0 = left;
        total += n0;
        let mut seen = vec![false; t.edges.len()];
        while left > 0 {
            if t0.elapsed().as_secs_f64() > a.secs || sus >= 3 {
                taken += n0 - left;
                break 'out;
            }
            let mut x = r.below(100);
            let mut kind = 0;
            for (i, w) in f.kinds.iter().enumerate() {
                if x < *w {
                    kind = i;
                    break;
                }
                x -= w;
            }
            let cfg = Cfg { kind, keys: t.keys.clone(), per_op_guard: r.pct(50) };
            let mut w = Walk {
                t,
                todo: &mut todo,
                left: &mut left,
                seen: &mut seen,
                at: 0,
                q: t.ballast.iter().map(|k| Item::Plain(*k as i64)).collect(),
                r: Rng::new(r.next()),
                p,
                kind,
                len: 0,
                stop: false,
            };
            let mut ops: Vec<Op> = vec![];
            let o = seq::run(&cfg, &vals, &mut lines, |sh| {
                let n = w.next(sh);
                if let Next::Op(p) = &n {
                    ops.push(*p);
                }
                n
            });
            walks += 1;
            kinds[kind] += 1;
            ops_total += o.ops;
            {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                lines.hash(&mut h);
                distinct.insert(h.finish());
            }
            let done = taken + n0 - left;
            if o.suspicious {
                sus += 1;
                em.suspicious(&cfg, &vals, &ops, &lines);
            } else if em.nlines < 200 + a.emit_events * done / all.max(1) {
                em.put(&lines);
            }
        }
        taken += n0 - left;
        states += seen.iter().filter(|b| **b).count();
    }
    std::fs::write(&a.out, &em.file).unwrap();
    println!(
        "{{\"graphs\":{},\"edges\":{},\"edges_taken\":{},\"states_seen\":{},\"traces\":{},\"ops\":{},\"emitted\":{},\"events\":{},\"suspicious\":{},\"kinds\":{:?},\"distinct\":{}}}",
        tours.len(), total, taken, states, walks, ops_total, em.traces, em.nlines, sus, kinds, distinct.len()
    );
}
