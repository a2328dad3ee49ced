//! Several trees at a time, used alternately by several threads (one call at a
//! time), created and dropped at any moment, also while guards are held and
//! after threads that used them have ended.  Recorded for MultiTrace.
use crate::keys::{self, NV};
use crate::seq::{fn_cip, fn_coi, fname, oname, op, Emitter, HangPanic, Op, Vals, O};
use crate::ta::TA;
use crate::trees::{Drained, Tree, KINDS};
use crate::util::{cur, Rng};
use congee::epoch::Guard;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};

const NT: usize = 3; // tree slots
const NA: usize = 2; // tracked allocators
const NW: usize = 3; // threads
const NG: usize = 2; // guards a thread may hold

type Guards = [Option<Guard>; NG];
type Job = Box<dyn FnOnce(&mut Guards) + Send>;

struct Worker {
    tx: Sender<Job>,
    done: Receiver<bool>,
    h: Option<std::thread::JoinHandle<()>>,
}
impl Worker {
    fn new() -> Worker {
        let (tx, rx) = channel::<Job>();
        let (dtx, done) = channel();
        let h = std::thread::spawn(move || {
            let mut g: Guards = [None, None];
            while let Ok(j) = rx.recv() {
                j(&mut g);
                if dtx.send(true).is_err() {
                    break;
                }
            }
        });
        Worker { tx, done, h: Some(h) }
    }
    /// Runs f on the worker and waits for it.
    fn on<R: Send>(&self, f: impl FnOnce(&mut Guards) -> R + Send) -> Result<R, &'static str> {
        let mut out: Option<Result<R, &'static str>> = None;
        {
            let o = &mut out;
            let j: Box<dyn FnOnce(&mut Guards) + Send + '_> = Box::new(move |g: &mut Guards| {
                *o = Some(catch_unwind(AssertUnwindSafe(|| f(g))).map_err(|e| {
                    if e.is::<HangPanic>() {
                        "hang"
                    } else {
                        "pan"
                    }
                }));
            });
            let j: Job = unsafe { std::mem::transmute(j) };
            self.tx.send(j).unwrap();
            self.done.recv().unwrap();
        }
        out.unwrap()
    }
    fn end(mut self) {
        let h = self.h.take().unwrap();
        drop(self.tx);
        let _ = h.join();
    }
}

struct Slot {
    tree: Box<Tree>,
    dr: Drained,
    sh: BTreeMap<usize, i64>,
}
struct SendPtr<T>(T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn get(self) -> T {
        self.0
    }
}

#[derive(Clone, Copy, Debug)]
pub enum St {
    Mk { tr: usize, kind: usize, al: usize, th: usize },
    Call { tr: usize, th: usize, g: usize, p: Op },
    Pin { th: usize, g: usize, tr: usize },
    Unpin { th: usize, g: usize },
    Drop { tr: usize, th: usize },
    Die { th: usize },
    Q { th: usize },
}

pub struct Cfg {
    pub keys: Vec<u64>,
    pub quarantine: bool,
}

fn join(v: &[i64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

#[derive(Default)]
pub struct Outcome {
    pub suspicious: bool,
    pub calls: usize,
}

fn run(cfg: &Cfg, vals: &Vals, prog: &[St], lines: &mut Vec<String>) -> Outcome {
    lines.clear();
    cur::clear();
    let mut out = Outcome::default();
    let kb: Vec<String> = cfg
        .keys
        .iter()
        .map(|k| format!("[{}]", join(&k.to_be_bytes().map(|x| x as i64))))
        .collect();
    let push = |lines: &mut Vec<String>, l: String| {
        cur::push(&l);
        lines.push(l);
    };
    push(lines, format!("{{\"o\":\"new\",\"u\":{},\"kb\":[{}]}}", cfg.keys.len(), kb.join(",")));
    let tas: Vec<TA> = (0..NA).map(|_| TA::new(cfg.quarantine, None)).collect();
    let mut slots: Vec<Option<Slot>> = (0..NT).map(|_| None).collect();
    let mut ws: Vec<Worker> = (0..NW).map(|_| Worker::new()).collect();
    let rank = |x: usize| cfg.keys.binary_search(&(x as u64)).map_or(-50, |i| i as i64 + 1);
    let real = |k: usize| cfg.keys[k - 1] as usize;
    let mut broken = false;
    let mut graves: Vec<Box<std::mem::MaybeUninit<Tree>>> = vec![];
    for st in prog {
        let mark = cur::len();
        cur::push(&format!("{{\"o\":\"call\",\"w\":\"{}\"}}", format!("{:?}", st).replace(['"', '\\', '\''], "")));
        let mut what = String::new();
        let mut fail = None;
        match *st {
            St::Mk { tr, kind, al, th } => {
                if slots[tr].is_some() {
                    continue;
                }
                let dr: Drained = Default::default();
                let ta = &tas[al];
                match ws[th].on(|_| SendPtr(Box::new(Tree::new(kind, ta, &dr)))) {
                    Ok(t) => {
                        slots[tr] = Some(Slot { tree: t.get(), dr, sh: BTreeMap::new() });
                        let al = if kind == 2 { 0 } else { al + 1 };
                        what = format!(
                            "{{\"o\":\"mk\",\"tr\":{},\"kind\":\"{}\",\"al\":{},\"th\":{}}}",
                            tr + 1, KINDS[kind], al, th + 1
                        );
                    }
                    Err(e) => fail = Some(e),
                }
            }
            St::Pin { th, g, tr } => {
                let t: Option<&Tree> = slots[tr].as_ref().map(|s| &*s.tree);
                let _ = ws[th].on(|gs| {
                    gs[g] = None;
                    gs[g] = Some(match t {
                        Some(t) => t.pin(),
                        None => congee::epoch::pin(),
                    })
                });
            }
            St::Unpin { th, g } => {
                if let Err(e) = ws[th].on(|gs| gs[g] = None) {
                    fail = Some(e)
                }
            }
            St::Die { th } => {
                let w = std::mem::replace(&mut ws[th], Worker::new());
                w.end();
            }
            St::Q { th } => {
                // everybody lets go, and the epoch advances
                for i in 0..NW {
                    if let Err(e) = ws[i].on(|gs| *gs = [None, None]) {
                        fail = Some(e)
                    }
                }
                for _ in 0..4 {
                    for i in 0..NW {
                        if let Err(e) = ws[(i + th) % NW].on(|_| {
                            congee::epoch::pin().flush();
                            congee::epoch::pin().flush();
                        }) {
                            fail = Some(e)
                        }
                    }
                }
                let mut tr = vec![];
                let mut nodes = [[0i64; 4]; NA + 1];
                for (i, s) in slots.iter().enumerate() {
                    let Some(s) = s else { continue };
                    let t: &Tree = &s.tree;
                    match ws[th].on(|_| t.stats()) {
                        Ok(Some(x)) => {
                            let lv: Vec<String> =
                                x.lv.iter().map(|a| format!("[{}]", join(&a.map(|x| x as i64)))).collect();
                            for a in &x.lv {
                                for c in 0..4 {
                                    nodes[0][c] += a[2 * c] as i64;
                                }
                            }
                            out.suspicious |= x.kv != s.sh.len() as u64;
                            tr.push(format!("[{},{},[{}]]", i + 1, x.kv, lv.join(",")));
                        }
                        Ok(None) => {}
                        Err(e) => fail = Some(e),
                    }
                }
                let mut al = vec![];
                let mut tot = [0i64; 4];
                for ta in &tas {
                    let (l, o) = ta.live();
                    for c in 0..4 {
                        tot[c] += l[c] as i64;
                    }
                    out.suspicious |= o != 0 || ta.errs() != 0;
                    al.push(format!("[[{}],{},{}]", join(&l.map(|x| x as i64)), o, ta.errs()));
                }
                out.suspicious |= tot != nodes[0];
                what = format!("{{\"o\":\"q\",\"al\":[{}],\"st\":[{}]}}", al.join(","), tr.join(","));
            }
            St::Drop { tr, th } => {
                let Some(s) = slots[tr].take() else { continue };
                let Slot { tree, dr, sh } = s;
                let pre = dr.lock().unwrap().len();
                let dn = !matches!(*tree, Tree::U64(_));
                let b = SendPtr(Box::into_raw(tree));
                let dropped = ws[th].on(move |_| {
                    crate::seq::reset_steps();
                    let p = b.get();
                    unsafe {
                        std::ptr::drop_in_place(p);
                        // nothing may look at the tree from here on
                        std::ptr::write_bytes(p as *mut u8, 0xDD, std::mem::size_of::<Tree>());
                    }
                    SendPtr(p)
                });
                match dropped {
                    Ok(p) => {
                        graves.push(unsafe { Box::from_raw(p.get() as *mut std::mem::MaybeUninit<Tree>) });
                        if !cfg.quarantine {
                            graves.clear();
                        }
                        let mut d = dr.lock().unwrap().clone();
                        d.sort();
                        let mut v = vec![];
                        for (k, x) in &d {
                            v.push(rank(*k));
                            v.push(vals.idof(*x));
                        }
                        let mut e = vec![];
                        for (k, x) in &sh {
                            e.push(*k as i64);
                            e.push(*x);
                        }
                        out.suspicious |= dn && (v != e || pre != 0);
                        let al: Vec<String> = tas
                            .iter()
                            .map(|a| format!("[{}]", join(&a.live().0.map(|x| x as i64))))
                            .collect();
                        what = format!(
                            "{{\"o\":\"drop\",\"tr\":{},\"th\":{},\"dn\":{},\"pre\":{},\"dr\":[{}],\"al\":[{}]}}",
                            tr + 1, th + 1, dn as u8, pre, join(&v), al.join(",")
                        );
                    }
                    Err(e) => fail = Some(e),
                }
            }
            St::Call { tr, th, g, p } => {
                let Some(s) = slots[tr].as_mut() else { continue };
                let t: &Tree = &s.tree;
                let u64tree = matches!(t, Tree::U64(_));
                if u64tree && matches!(p.o, O::Cip | O::Coi | O::Cas | O::Empty) {
                    continue;
                }
                out.calls += 1;
                let res = ws[th].on(|gs| {
                    crate::seq::reset_steps();
                    if gs[g].is_none() {
                        gs[g] = Some(congee::epoch::pin());
                    }
                    let gd = gs[g].as_ref().unwrap();
                    let opt = |x: Option<usize>| vals.oid(x);
                    match p.o {
                        O::Get => vec![opt(t.get(real(p.k), gd))],
                        O::Insert => match t.insert(real(p.k), vals.v[p.v as usize], gd) {
                            Ok(x) => vec![opt(x)],
                            Err(()) => vec![-9],
                        },
                        O::Remove => vec![opt(t.remove(real(p.k), gd))],
                        O::Cip => match t.cip(
                            real(p.k),
                            &mut |old| {
                                let n = fn_cip(p.f, p.v, vals.idof(old));
                                (n >= 0).then(|| vals.v[n as usize])
                            },
                            gd,
                        ) {
                            None => vec![-1],
                            Some((a, b)) => vec![vals.idof(a), opt(b)],
                        },
                        O::Coi => match t.coi(
                            real(p.k),
                            &mut |old| vals.v[fn_coi(p.f, p.v, opt(old)).max(0) as usize],
                            gd,
                        ) {
                            Ok(x) => vec![opt(x)],
                            Err(()) => vec![-9],
                        },
                        O::Cas => {
                            let new = (p.v >= 0).then(|| vals.v[p.v as usize]);
                            match t.cas(real(p.k), vals.v[p.x as usize], new, gd) {
                                Ok(x) => vec![1, opt(x)],
                                Err(x) => vec![0, opt(x)],
                            }
                        }
                        O::Range => {
                            let mut buf = vec![(0usize, 0usize); p.n];
                            let c = t.range(real(p.k), real(p.h), &mut buf, gd).min(p.n);
                            buf[..c].iter().flat_map(|(k, v)| [rank(*k), vals.idof(*v)]).collect()
                        }
                        _ => vec![t.is_empty(gd) as i64],
                    }
                });
                let mut w = format!("{{\"o\":\"{}\",\"tr\":{},\"th\":{}", oname(p.o), tr + 1, th + 1);
                let _ = match p.o {
                    O::Get | O::Remove => write!(w, ",\"k\":{}", p.k),
                    O::Insert => write!(w, ",\"k\":{},\"v\":{}", p.k, p.v),
                    O::Cip | O::Coi => write!(w, ",\"k\":{},\"v\":{},\"f\":\"{}\"", p.k, p.v, fname(p.f)),
                    O::Cas => write!(w, ",\"k\":{},\"x\":{},\"v\":{}", p.k, p.x, p.v),
                    O::Range => write!(w, ",\"k\":{},\"h\":{},\"n\":{}", p.k, p.h, p.n),
                    _ => Ok(()),
                };
                match res {
                    Ok(r) => {
                        let _ = write!(w, ",\"r\":[{}]}}", join(&r));
                        what = w;
                        let sh = &mut s.sh;
                        let old = sh.get(&p.k).copied().unwrap_or(-1);
                        let mut set = |v: i64| {
                            if v < 0 {
                                sh.remove(&p.k);
                            } else {
                                sh.insert(p.k, v);
                            }
                        };
                        let exp = match p.o {
                            O::Get => vec![old],
                            O::Insert => {
                                set(p.v);
                                vec![old]
                            }
                            O::Remove => {
                                set(-1);
                                vec![old]
                            }
                            O::Cip if old < 0 => vec![-1],
                            O::Cip => {
                                let n = fn_cip(p.f, p.v, old);
                                set(n);
                                vec![old, n]
                            }
                            O::Coi => {
                                set(fn_coi(p.f, p.v, old));
                                vec![old]
                            }
                            O::Cas if old == p.x => {
                                set(p.v);
                                vec![1, p.v]
                            }
                            O::Cas => vec![0, old],
                            O::Range => {
                                let mut e = vec![];
                                if p.k < p.h {
                                    for (k, v) in sh.range(p.k..p.h).take(p.n) {
                                        e.push(*k as i64);
                                        e.push(*v);
                                    }
                                }
                                e
                            }
                            _ => vec![sh.is_empty() as i64],
                        };
                        out.suspicious |= exp != r;
                    }
                    Err(e) => fail = Some(e),
                }
            }
        }
        if let Some(e) = fail {
            lines.push(format!("{{\"o\":\"call\",\"w\":\"{:?}\"}}", st).replace(['\\', '\''], ""));
            push(lines, format!("{{\"o\":\"{}\"}}", e));
            out.suspicious = true;
            broken = true;
            break;
        }
        cur::truncate(mark);
        if !what.is_empty() {
            push(lines, what);
        }
        if out.suspicious {
            break;
        }
    }
    // left over when something failed, or when a shorter version was tried
    for s in slots {
        std::mem::forget(s);
    }
    for w in ws {
        w.end();
    }
    for _ in 0..8 {
        congee::epoch::pin().flush();
    }
    for ta in &tas {
        if !broken && !out.suspicious {
            ta.purge(true);
        } else {
            std::mem::forget(ta.clone());
        }
    }
    out
}

fn gen(r: &mut Rng, u: usize) -> Vec<St> {
    let mut p = vec![];
    let mut sh: Vec<Option<BTreeMap<usize, i64>>> = (0..NT).map(|_| None).collect();
    let len = 60 + r.below(120);
    let few = r.pct(50); // nearly the same keys everywhere
    let burst = if u > 40 { 40 } else { 15 };
    let mut focus_t = 0;
    let mut focus_w = 0;
    while p.len() < len {
        if r.pct(25) {
            focus_t = r.below(NT);
        }
        if r.pct(25) {
            focus_w = r.below(NW);
        }
        let (tr, th) = (
            if r.pct(70) { focus_t } else { r.below(NT) },
            if r.pct(70) { focus_w } else { r.below(NW) },
        );
        let Some(m) = sh[tr].as_mut() else {
            let kind = *r.pick(&[0usize, 0, 0, 1, 2]);
            p.push(St::Mk { tr, kind, al: r.below(NA), th });
            sh[tr] = Some(BTreeMap::new());
            continue;
        };
        let x = r.below(1000);
        if x < 12 {
            p.push(St::Drop { tr, th });
            sh[tr] = None;
            continue;
        } else if x < 24 {
            p.push(St::Die { th });
            continue;
        } else if x < 45 {
            p.push(St::Q { th });
            continue;
        } else if x < 110 {
            p.push(St::Pin { th, g: r.below(NG), tr: r.below(NT) });
            continue;
        } else if x < 220 {
            p.push(St::Unpin { th, g: r.below(NG) });
            continue;
        }
        if x < 220 + burst {
            // many keys at once, so that nodes grow and empty
            let mut ks: Vec<usize> = (1..=u).collect();
            r.shuffle(&mut ks);
            let del = r.pct(30);
            let g = r.below(NG);
            for k in ks.into_iter().take(if r.pct(70) { u } else { u / 2 }) {
                if !del {
                    let mut c = op(O::Insert, k);
                    c.v = (r.below(NV / NT) * NT + tr) as i64;
                    m.insert(k, c.v);
                    p.push(St::Call { tr, th, g, p: c });
                } else if m.remove(&k).is_some() {
                    p.push(St::Call { tr, th, g, p: op(O::Remove, k) });
                }
            }
            continue;
        }
        let key = |r: &mut Rng, m: &BTreeMap<usize, i64>, present: usize| {
            if !m.is_empty() && r.pct(present) {
                *m.keys().nth(r.below(m.len())).unwrap()
            } else if few {
                r.below(u.min(5)) + 1
            } else {
                r.below(u) + 1
            }
        };
        let v = (r.below(NV / NT) * NT + tr) as i64; // each tree has its own values
        let c = match r.below(100) {
            0..=37 => {
                let mut c = op(O::Insert, key(r, m, 20));
                c.v = v;
                m.insert(c.k, v);
                c
            }
            38..=53 => {
                let c = op(O::Remove, key(r, m, 85));
                m.remove(&c.k);
                c
            }
            54..=73 => op(O::Get, key(r, m, 50)),
            74..=79 => {
                let mut c = op(O::Cip, key(r, m, 70));
                c.v = v;
                c.f = *r.pick(&['s', 'd', 'i', 'a']);
                if let Some(o) = m.get(&c.k).copied() {
                    let n = fn_cip(c.f, v, o);
                    if n < 0 {
                        m.remove(&c.k);
                    } else {
                        m.insert(c.k, n);
                    }
                }
                c
            }
            80..=84 => {
                let mut c = op(O::Coi, key(r, m, 30));
                c.v = v;
                c.f = *r.pick(&['s', 'i', 'a']);
                let n = fn_coi(c.f, v, m.get(&c.k).copied().unwrap_or(-1));
                m.insert(c.k, n);
                c
            }
            85..=88 => {
                let mut c = op(O::Cas, key(r, m, 80));
                c.x = m.get(&c.k).copied().unwrap_or(0);
                c.v = if r.pct(30) { -1 } else { v };
                if m.contains_key(&c.k) {
                    if c.v < 0 {
                        m.remove(&c.k);
                    } else {
                        m.insert(c.k, c.v);
                    }
                }
                c
            }
            89..=96 => {
                let a = r.below(u) + 1;
                let mut c = op(O::Range, if r.pct(40) { 1 } else { a });
                c.h = if r.pct(40) { u } else { r.below(u) + 1 };
                c.n = *r.pick(&[1usize, 2, u + 1, u + 1]);
                c
            }
            _ => op(O::Empty, 0),
        };
        let g = r.below(NG);
        p.push(St::Call { tr, th, g, p: c });
    }
    // the end: trees go in some order, some while guards are held
    if r.pct(30) {
        p.push(St::Q { th: r.below(NW) });
    }
    let mut o: Vec<usize> = (0..NT).collect();
    r.shuffle(&mut o);
    for tr in o {
        p.push(St::Drop { tr, th: r.below(NW) });
        if r.pct(30) {
            p.push(St::Die { th: r.below(NW) });
        }
    }
    p.push(St::Q { th: r.below(NW) });
    p
}

pub struct Args {
    pub seed: u64,
    pub out: String,
    pub emit_events: usize,
    pub secs: f64,
}

pub fn main(a: &Args) {
    congee::verif::set_hook(Some(crate::seq::seq_hook));
    std::panic::set_hook(Box::new(|_| {}));
    cur::install(&format!("{}.crash", a.out), 40);
    let vals = Vals::new();
    let t0 = std::time::Instant::now();
    let mut em = Emitter::default();
    let (mut traces, mut calls, mut odd) = (0usize, 0usize, 0usize);
    let mut lines = vec![];
    let mut i = 0u64;
    loop {
        if (em.nlines >= a.emit_events && t0.elapsed().as_secs_f64() >= a.secs) || odd >= 3 {
            break;
        }
        i += 1;
        let mut r = Rng::new(a.seed.wrapping_mul(7_000_003).wrapping_add(i));
        let prof = if r.pct(25) { 0 } else { r.below(keys::PROFILES) };
        let keys = keys::universe(&mut r, prof, false);
        let cfg = Cfg { keys, quarantine: r.pct(50) };
        let mut prog = gen(&mut r, cfg.keys.len());
        let o = run(&cfg, &vals, &prog, &mut lines);
        traces += 1;
        calls += o.calls;
        if o.suspicious {
            odd += 1;
            let first = lines.clone();
            // a shorter version of it
            let mut chunk = prog.len() / 2;
            let mut tries = 0;
            while chunk > 0 && tries < 150 {
                let mut j = 0;
                while j < prog.len() && tries < 150 {
                    let mut c = prog.clone();
                    c.drain(j..(j + chunk).min(prog.len()));
                    tries += 1;
                    let mut l2 = vec![];
                    if run(&cfg, &vals, &c, &mut l2).suspicious {
                        prog = c;
                        lines = l2;
                    } else {
                        j += chunk;
                    }
                }
                chunk /= 2;
            }
            em.put(&lines);
            em.put(&first);
        } else if em.nlines < a.emit_events {
            em.put(&lines);
        }
    }
    std::fs::write(&a.out, &em.file).unwrap();
    println!(
        "{{\"traces\":{},\"calls\":{},\"emitted\":{},\"events\":{},\"suspicious\":{}}}",
        traces, calls, em.traces, em.nlines, odd
    );
}
