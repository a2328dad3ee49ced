//! Single-threaded histories of the real library, recorded as NDJSON for the
//! trace specification SeqTrace.  A cheap shadow map decides only which
//! histories are worth handing to TLC in addition to the sampled ones; the
//! verdict is TLC's.
use crate::galloc;
use crate::keys::{self, NV};
use crate::ta::TA;
use crate::trees::{Drained, Tree, KINDS};
use crate::util::{cur, Rng};
use congee::epoch::Guard;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum O {
    Get,
    Insert,
    Remove,
    Cip,
    Coi,
    Cas,
    Range,
    Empty,
    Q,
    Repin,
    Flush,
    Unpin,
    Stats,
}

#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub o: O,
    pub k: usize, // 1-based rank
    pub v: i64,
    pub x: i64,
    pub f: char, // s d i a
    pub h: usize,
    pub n: usize,
    pub inj: i64, // refuse the inj-th allocation of this call
    pub pan: i64, // panic in the pan-th closure invocation
}
pub fn op(o: O, k: usize) -> Op {
    Op { o, k, v: 0, x: 0, f: 's', h: 0, n: 0, inj: -1, pan: -1 }
}
pub fn oname(o: O) -> &'static str {
    match o {
        O::Get => "get",
        O::Insert => "insert",
        O::Remove => "remove",
        O::Cip => "cip",
        O::Coi => "coi",
        O::Cas => "cas",
        O::Range => "range",
        O::Empty => "empty",
        O::Q => "q",
        O::Repin => "repin",
        O::Flush => "flush",
        O::Unpin => "unpin",
        O::Stats => "stats",
    }
}
pub fn fname(f: char) -> &'static str {
    match f {
        's' => "set",
        'd' => "del",
        'i' => "id",
        _ => "add",
    }
}

pub struct ClosurePanic;
pub struct HangPanic;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
}
const STEP_LIMIT: u64 = 2_000_000;
pub fn seq_hook(_s: congee::verif::Site, _a: usize) {
    let n = STEPS.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    if n > STEP_LIMIT && !std::thread::panicking() {
        std::panic::panic_any(HangPanic);
    }
}

/// Starts the count of hook sites a call may pass.
pub fn reset_steps() {
    STEPS.with(|s| s.set(0));
}

pub struct Cfg {
    pub kind: usize,
    pub keys: Vec<u64>,
    pub per_op_guard: bool,
}

pub struct Vals {
    pub v: [usize; NV],
    pub id: HashMap<usize, i64>,
}
impl Vals {
    pub fn new() -> Self {
        let v = keys::values();
        let id = v.iter().enumerate().map(|(i, x)| (*x, i as i64)).collect();
        Vals { v, id }
    }
    pub fn idof(&self, x: usize) -> i64 {
        *self.id.get(&x).unwrap_or(&-50)
    }
    pub fn oid(&self, x: Option<usize>) -> i64 {
        x.map_or(-1, |x| self.idof(x))
    }
}

pub fn fn_cip(f: char, a: i64, x: i64) -> i64 {
    match f {
        's' => a,
        'd' => -1,
        'i' => x,
        _ => {
            if x < 0 {
                a
            } else {
                (x + a) % NV as i64
            }
        }
    }
}
pub fn fn_coi(f: char, a: i64, x: i64) -> i64 {
    if x == -1 {
        a
    } else if f == 'd' {
        x
    } else {
        fn_cip(f, a, x)
    }
}

pub enum Next {
    Op(Op),
    End,
}

pub fn join(v: &[i64]) -> String {
    let mut s = String::with_capacity(v.len() * 3);
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", x);
    }
    s
}

/// What one trace did, for the caller's decision and for coverage counts.
#[derive(Default, Clone)]
pub struct Outcome {
    pub suspicious: bool,
    pub events: usize,
    pub ops: usize,
    pub ended: bool,
}

/// Runs one trace; its lines are left in `cur`'s buffer and in `lines`.
pub fn run(
    cfg: &Cfg,
    vals: &Vals,
    lines: &mut Vec<String>,
    mut next: impl FnMut(&BTreeMap<usize, i64>) -> Next,
) -> Outcome {
    let u = cfg.keys.len();
    let mut out = Outcome::default();
    lines.clear();
    cur::clear();
    let mut kb = String::new();
    for (i, k) in cfg.keys.iter().enumerate() {
        if i > 0 {
            kb.push(',');
        }
        let b: Vec<i64> = k.to_be_bytes().iter().map(|x| *x as i64).collect();
        let _ = write!(kb, "[{}]", join(&b));
    }
    let hdr = format!(
        "{{\"o\":\"new\",\"u\":{},\"kind\":\"{}\",\"kb\":[{}]}}",
        u, KINDS[cfg.kind], kb
    );
    cur::push(&hdr);
    lines.push(hdr);

    let ta = TA::new(true, None);
    let dr: Drained = Default::default();
    let def = cfg.kind >= 2;
    let track = |b: bool| galloc::TRACK.with(|t| t.set(b && def));
    for _ in 0..6 {
        congee::epoch::pin().flush();
    }
    galloc::LIVE.with(|l| l.set([0; 4]));
    let pin = |t: &Tree| {
        track(true);
        let g = t.pin();
        track(false);
        g
    };
    let unpin = |g: Option<Guard>| {
        track(true);
        drop(g);
        track(false);
    };
    track(true);
    let tree = Tree::new(cfg.kind, &ta, &dr);
    track(false);
    let mut guard: Option<Guard> = Some(pin(&tree));
    let mut sh: BTreeMap<usize, i64> = BTreeMap::new(); // shadow: rank -> value id
    let real = |k: usize| cfg.keys[k - 1] as usize;
    let sent = (0xDEAD_BEEFusize, 0xFEED_FACEusize);
    let mut buf: Vec<(usize, usize)> = Vec::new();
    let rank = |x: usize| -> i64 {
        cfg.keys
            .binary_search(&(x as u64))
            .map_or(-50, |i| i as i64 + 1)
    };
    let mut broken = false;
    let live_now = |ta: &TA| -> ([i64; 4], i64, i64) {
        if def {
            let l = galloc::LIVE.with(|l| l.get());
            ([l[0] as i64, l[1] as i64, l[2] as i64, l[3] as i64], 0, 0)
        } else {
            let (l, o) = ta.live();
            (
                [l[0] as i64, l[1] as i64, l[2] as i64, l[3] as i64],
                o as i64,
                ta.errs() as i64,
            )
        }
    };

    loop {
        let p = match next(&sh) {
            Next::End => break,
            Next::Op(p) => p,
        };
        out.ops += 1;
        STEPS.with(|s| s.set(0));
        if p.o == O::Repin {
            unpin(guard.take());
            guard = Some(pin(&tree));
            continue;
        }
        let head = {
            let mut s = format!("{{\"o\":\"{}\"", oname(p.o));
            match p.o {
                O::Get | O::Remove => {
                    let _ = write!(s, ",\"k\":{}", p.k);
                }
                O::Insert => {
                    let _ = write!(s, ",\"k\":{},\"v\":{}", p.k, p.v);
                }
                O::Cip | O::Coi => {
                    let _ = write!(s, ",\"k\":{},\"v\":{},\"f\":\"{}\"", p.k, p.v, fname(p.f));
                }
                O::Cas => {
                    let _ = write!(s, ",\"k\":{},\"x\":{},\"v\":{}", p.k, p.x, p.v);
                }
                O::Range => {
                    let _ = write!(s, ",\"k\":{},\"h\":{},\"n\":{}", p.k, p.h, p.n);
                }
                _ => {}
            }
            s
        };
        let mark = cur::len();
        {
            let mut c = head.replacen("\"o\":", "\"o\":\"call\",\"w\":", 1);
            c.push('}');
            cur::push(&c);
        }
        if p.o == O::Q {
            let held = guard.is_some();
            unpin(guard.take());
            let r = catch_unwind(AssertUnwindSafe(|| {
                track(true);
                for _ in 0..8 {
                    congee::epoch::pin().flush();
                }
                let s = tree.stats();
                track(false);
                s
            }));
            track(false);
            let st = match r {
                Ok(s) => s,
                Err(e) => {
                    let l = if e.is::<HangPanic>() {
                        "{\"o\":\"hang\"}".into()
                    } else {
                        "{\"o\":\"pan\",\"w\":\"stats\"}".to_string()
                    };
                    cur::push(&l);
                    lines.push(l);
                    out.suspicious = true;
                    broken = true;
                    break;
                }
            };
            let (live, odd, errs) = live_now(&ta);
            let mut s = head;
            let _ = write!(s, ",\"live\":[{}],\"odd\":{},\"errs\":{}", join(&live), odd, errs);
            let mut sus = errs != 0 || odd != 0;
            if let Some(st) = st {
                let lv: Vec<String> = st
                    .lv
                    .iter()
                    .map(|a| format!("[{}]", join(&a.map(|x| x as i64))))
                    .collect();
                let _ = write!(
                    s,
                    ",\"st\":1,\"lv\":[{}],\"lok\":{},\"kv\":{},\"rows\":[{}],\"sum\":[{}]",
                    lv.join(","),
                    st.levels_ok as u8,
                    st.kv,
                    st.rows.iter().map(|r| format!("[{}]", join(r))).collect::<Vec<_>>().join(","),
                    join(&st.sum)
                );
                let mut cls = [0i64; 4];
                let mut slots = 0i64;
                for a in &st.lv {
                    for c in 0..4 {
                        cls[c] += a[2 * c] as i64;
                        slots += a[2 * c + 1] as i64;
                    }
                }
                let nodes: i64 = cls.iter().sum();
                sus |= cls != live || st.kv != sh.len() as u64;
                sus |= slots != nodes - 1 + sh.len() as i64 || !st.levels_ok;
                sus |= !st.printed_ok(sh.len() as i64);
            } else {
                s.push_str(",\"st\":0");
            }
            s.push('}');
            out.suspicious |= sus;
            cur::truncate(mark);
            cur::push(&s);
            lines.push(s);
            if held {
                guard = Some(pin(&tree));
            }
            continue;
        }
        if cfg.per_op_guard {
            unpin(guard.take());
        }
        if guard.is_none() {
            guard = Some(pin(&tree));
        }
        let g: &Guard = guard.as_ref().unwrap();
        // --- the call
        let mut cl: Vec<i64> = Vec::new();
        let mut r: Vec<i64> = Vec::new();
        let mut tl = 1;
        ta.with(|s| {
            s.fail_in = p.inj;
            s.injected = false;
            s.allocs = [0; 5];
        });
        if p.o == O::Range {
            buf.clear();
            buf.resize(p.n + 4, sent);
        }
        galloc::FAIL_IN.with(|f| f.set(if def { p.inj } else { -1 }));
        galloc::REFUSED.with(|f| f.set(false));
        galloc::ALLOCS.with(|f| f.set([0; 5]));
        track(p.o != O::Range);
        let res = catch_unwind(AssertUnwindSafe(|| {
            let opt = |x: Option<usize>| vals.oid(x);
            match p.o {
                O::Get => vec![opt(tree.get(real(p.k), g))],
                O::Insert => match tree.insert(real(p.k), vals.v[p.v as usize], g) {
                    Ok(x) => vec![opt(x)],
                    Err(()) => vec![-9],
                },
                O::Remove => vec![opt(tree.remove(real(p.k), g))],
                O::Cip => {
                    let x = tree.cip(
                        real(p.k),
                        &mut |old| {
                            let i = vals.idof(old);
                            cl.push(i);
                            if p.pan >= 0 && cl.len() as i64 > p.pan {
                                std::panic::panic_any(ClosurePanic);
                            }
                            let n = fn_cip(p.f, p.v, i);
                            if n < 0 {
                                None
                            } else {
                                Some(vals.v[n as usize])
                            }
                        },
                        g,
                    );
                    match x {
                        None => vec![-1],
                        Some((a, b)) => vec![vals.idof(a), opt(b)],
                    }
                }
                O::Coi => {
                    let x = tree.coi(
                        real(p.k),
                        &mut |old| {
                            let i = opt(old);
                            cl.push(i);
                            if p.pan >= 0 && cl.len() as i64 > p.pan {
                                std::panic::panic_any(ClosurePanic);
                            }
                            let n = fn_coi(p.f, p.v, i);
                            vals.v[if n < 0 { 0 } else { n as usize }]
                        },
                        g,
                    );
                    match x {
                        Ok(x) => vec![opt(x)],
                        Err(()) => vec![-9],
                    }
                }
                O::Cas => {
                    let new = if p.v < 0 { None } else { Some(vals.v[p.v as usize]) };
                    match tree.cas(real(p.k), vals.v[p.x as usize], new, g) {
                        Ok(x) => vec![1, opt(x)],
                        Err(x) => vec![0, opt(x)],
                    }
                }
                O::Range => {
                    let n = p.n;
                    let c = tree.range(real(p.k), real(p.h), &mut buf[..n], g);
                    let mut r = Vec::with_capacity(2 * c);
                    if c > n {
                        r.push(-51);
                    } else {
                        for (k, v) in &buf[..c] {
                            r.push(rank(*k));
                            r.push(vals.idof(*v));
                        }
                        if buf[c..].iter().any(|x| *x != sent) {
                            tl = 0;
                        }
                    }
                    r
                }
                O::Empty => vec![tree.is_empty(g) as i64],
                _ => unreachable!(),
            }
        }));
        track(false);
        galloc::FAIL_IN.with(|f| f.set(-1));
        let mut pan = 0;
        match res {
            Ok(x) => r = x,
            Err(e) => {
                if e.is::<ClosurePanic>() {
                    pan = 1;
                } else {
                    let l = if e.is::<HangPanic>() {
                        "{\"o\":\"hang\"}".to_string()
                    } else {
                        format!("{{\"o\":\"pan\",\"w\":\"{}\"}}", oname(p.o))
                    };
                    cur::push(&l);
                    lines.push({
                        let mut c = head.replacen("\"o\":", "\"o\":\"call\",\"w\":", 1);
                        c.push('}');
                        c
                    });
                    lines.push(l);
                    out.suspicious = true;
                    broken = true;
                }
            }
        }
        if broken {
            break;
        }
        let (al, ij) = if def {
            (galloc::ALLOCS.with(|a| a.get()), galloc::REFUSED.with(|a| a.get()))
        } else {
            ta.with(|s| (s.allocs, s.injected))
        };
        ta.with(|s| s.fail_in = -1);
        galloc::FAIL_IN.with(|f| f.set(-1));
        let mut s = head;
        let al: Vec<i64> = al.iter().map(|x| *x as i64).collect();
        let _ = write!(
            s,
            ",\"r\":[{}],\"c\":[{}],\"al\":[{}],\"ij\":{},\"p\":{}",
            join(&r),
            join(&cl),
            join(&al),
            ij as u8,
            pan
        );
        if p.o == O::Range {
            let _ = write!(s, ",\"tl\":{}", tl);
        }
        s.push('}');
        cur::truncate(mark);
        cur::push(&s);
        lines.push(s);
        // --- shadow
        let old = sh.get(&p.k).copied().unwrap_or(-1);
        let mut sus = false;
        if pan == 1 {
            sus |= cl.iter().any(|c| *c != old);
        } else if ij {
            sus |= r != [-9];
        } else {
            let mut set = |k: usize, v: i64| {
                if v < 0 {
                    sh.remove(&k);
                } else {
                    sh.insert(k, v);
                }
            };
            let exp: Vec<i64> = match p.o {
                O::Get => vec![old],
                O::Insert => {
                    set(p.k, p.v);
                    vec![old]
                }
                O::Remove => {
                    set(p.k, -1);
                    vec![old]
                }
                O::Cip => {
                    if old < 0 {
                        sus |= !cl.is_empty();
                        vec![-1]
                    } else {
                        let n = fn_cip(p.f, p.v, old);
                        set(p.k, n);
                        sus |= cl.is_empty() || cl.iter().any(|c| *c != old);
                        vec![old, n]
                    }
                }
                O::Coi => {
                    set(p.k, fn_coi(p.f, p.v, old));
                    sus |= cl.is_empty() || cl.iter().any(|c| *c != old);
                    vec![old]
                }
                O::Cas => {
                    if old < 0 {
                        vec![0, -1]
                    } else if old == p.x {
                        set(p.k, p.v);
                        vec![1, p.v]
                    } else {
                        vec![0, old]
                    }
                }
                O::Range => {
                    sus |= tl != 1;
                    let mut e = vec![];
                    if p.k < p.h {
                        for (k, v) in sh.range(p.k..p.h).take(p.n) {
                            e.push(*k as i64);
                            e.push(*v);
                        }
                    }
                    e
                }
                O::Empty => vec![sh.is_empty() as i64],
                _ => unreachable!(),
            };
            sus |= exp != r;
        }
        out.suspicious |= sus;
        if out.suspicious && sus {
            // the shadow no longer predicts anything; stop early to keep it short
            break;
        }
    }
    unpin(guard.take());
    if broken {
        std::mem::forget(tree);
        for _ in 0..8 {
            congee::epoch::pin().flush();
        }
    } else {
        let pre = dr.lock().unwrap().len();
        let mark = cur::len();
        cur::push("{\"o\":\"call\",\"w\":\"drop\"}");
        STEPS.with(|s| s.set(0));
        track(true);
        let r = catch_unwind(AssertUnwindSafe(|| drop(tree)));
        track(false);
        if let Err(e) = r {
            let l = if e.is::<HangPanic>() {
                "{\"o\":\"hang\"}".to_string()
            } else {
                "{\"o\":\"pan\",\"w\":\"drop\"}".to_string()
            };
            lines.push("{\"o\":\"call\",\"w\":\"drop\"}".into());
            cur::push(&l);
            lines.push(l);
            out.suspicious = true;
        } else {
            track(true);
            for _ in 0..8 {
                congee::epoch::pin().flush();
            }
            track(false);
            let (live, odd, errs) = live_now(&ta);
            let d = dr.lock().unwrap();
            let mut v: Vec<i64> = vec![];
            let mut pairs: Vec<(usize, usize)> = d.clone();
            pairs.sort();
            for (k, x) in &pairs {
                v.push(rank(*k));
                v.push(vals.idof(*x));
            }
            let s = format!(
                "{{\"o\":\"drop\",\"dn\":{},\"dr\":[{}],\"pre\":{},\"live\":[{}],\"odd\":{},\"errs\":{}}}",
                (cfg.kind != 2) as u8,
                join(&v),
                pre,
                join(&live),
                odd,
                errs
            );
            let mut e = vec![];
            for (k, x) in &sh {
                e.push(*k as i64);
                e.push(*x);
            }
            out.suspicious |= (cfg.kind != 2 && e != v)
                || pre != 0
                || live != [0; 4]
                || odd != 0
                || errs != 0;
            cur::truncate(mark);
            cur::push(&s);
            lines.push(s);
            out.ended = true;
        }
    }
    ta.purge(true);
    out.events = lines.len();
    out
}

// ---------------------------------------------------------------- generation

/// Weights of the operations and options for one property.
#[derive(Clone, Copy)]
pub struct Focus {
    pub w: [usize; 8], // get insert remove cip coi cas range empty
    pub q: usize,      // per mille
    pub inj: usize,    // per cent of insert/coi
    pub pan: usize,    // per cent of cip/coi
    pub kinds: [usize; 4],
    pub big: usize, // per cent of big universes
}

pub fn focus(name: &str) -> Focus {
    let d = Focus {
        w: [20, 30, 22, 8, 10, 8, 0, 0],
        q: 0,
        inj: 0,
        pan: 0,
        kinds: [40, 25, 20, 15],
        big: 60,
    };
    match name {
        "point" => d,
        "range" => Focus { w: [2, 22, 16, 1, 2, 2, 55, 0], ..d },
        "rmw" => Focus { w: [6, 14, 10, 26, 26, 18, 0, 0], kinds: [50, 30, 0, 20], ..d },
        "empty" => Focus {
            w: [2, 30, 36, 6, 4, 2, 0, 20],
            kinds: [60, 20, 0, 20],
            big: 25,
            ..d
        },
        "oom" => Focus { w: [12, 36, 20, 4, 16, 2, 10, 0], q: 30, inj: 45, kinds: [50, 15, 0, 35], ..d },
        "oomdef" => Focus { w: [12, 36, 20, 0, 0, 0, 10, 0], q: 30, inj: 45, kinds: [0, 0, 40, 60], ..d },
        "panic" => Focus { w: [8, 20, 16, 20, 30, 0, 6, 0], q: 30, pan: 45, kinds: [60, 20, 0, 20], ..d },
        "shape" => Focus { w: [6, 38, 32, 4, 8, 6, 4, 1], q: 60, kinds: [50, 20, 0, 30], ..d },
        "mem" => Focus { w: [4, 38, 34, 6, 8, 6, 4, 0], q: 40, inj: 8, pan: 8, kinds: [55, 20, 5, 20], ..d },
        "drain" => Focus { w: [2, 44, 30, 8, 8, 6, 0, 0], kinds: [50, 30, 0, 20], ..d },
        "stats" => Focus { w: [2, 44, 34, 6, 6, 4, 0, 0], q: 80, kinds: [50, 30, 0, 20], ..d },
        "all" => Focus { w: [10, 30, 26, 8, 8, 6, 8, 3], q: 20, inj: 4, pan: 4, ..d },
        _ => panic!("unknown focus {}", name),
    }
}

pub struct Gen {
    pub r: Rng,
    pub f: Focus,
    pub u: usize,
    pub kind: usize,
    pub left: usize,
    pub phase: usize,
    pub phase_left: usize,
    pub hot: Vec<usize>,
}

impl Gen {
    pub fn cfg(r: &mut Rng, f: &Focus, big_ok: bool, profile: Option<usize>) -> Cfg {
        let profile = profile.unwrap_or_else(|| r.below(keys::PROFILES));
        let big = big_ok && r.pct(f.big);
        let keys = keys::universe(r, profile, big);
        let mut t = r.below(100);
        let mut kind = 0;
        for (i, w) in f.kinds.iter().enumerate() {
            if t < *w {
                kind = i;
                break;
            }
            t -= w;
        }
        Cfg { kind, keys, per_op_guard: r.pct(50) }
    }
    pub fn new(mut r: Rng, f: Focus, cfg: &Cfg, len: usize) -> Self {
        let u = cfg.keys.len();
        let hot = (0..3).map(|_| r.below(u) + 1).collect();
        Gen { r, f, u, kind: cfg.kind, left: len, phase: 0, phase_left: u, hot }
    }
    fn key(&mut self, sh: &BTreeMap<usize, i64>, want_present: usize) -> usize {
        if self.r.pct(10) {
            return *self.r.pick(&self.hot);
        }
        for _ in 0..6 {
            let k = self.r.below(self.u) + 1;
            let pr = self.r.pct(want_present);
            if sh.contains_key(&k) == pr {
                return k;
            }
        }
        if self.r.pct(want_present) && !sh.is_empty() {
            let k = self.r.below(self.u) + 1;
            return *sh.range(k..).next().or_else(|| sh.iter().next()).unwrap().0;
        }
        self.r.below(self.u) + 1
    }
    pub fn next(&mut self, sh: &BTreeMap<usize, i64>) -> Next {
        if self.left == 0 {
            return Next::End;
        }
        self.left -= 1;
        if self.phase_left == 0 {
            self.phase = self.r.below(4);
            self.phase_left = 1 + self.u / 2 + self.r.below(self.u);
        }
        self.phase_left -= 1;
        if self.r.below(1000) < self.f.q {
            return Next::Op(op(O::Q, 0));
        }
        if self.r.pct(2) {
            return Next::Op(op(O::Repin, 0));
        }
        let mut w = self.f.w;
        match self.phase {
            0 => {
                w[1] *= 3; // grow
                w[4] *= 2;
                w[2] /= 3
            }
            1 => {
                w[2] *= 4; // shrink
                w[1] /= 4;
                w[4] /= 4
            }
            _ => {}
        }
        if self.kind == 2 {
            w[3] = 0;
            w[4] = 0;
            w[5] = 0;
            w[7] = 0;
        }
        let tot: usize = w.iter().sum();
        let mut t = self.r.below(tot);
        let mut i = 0;
        while t >= w[i] {
            t -= w[i];
            i += 1;
        }
        let val = |s: &mut Self| s.r.below(NV) as i64;
        let mut p;
        match i {
            0 => p = op(O::Get, self.key(sh, 60)),
            1 => {
                let want = if self.phase == 0 { 15 } else { 40 };
                p = op(O::Insert, self.key(sh, want));
                p.v = val(self);
                if self.r.pct(10) {
                    // overwrite with the value already there
                    if let Some(x) = sh.get(&p.k) {
                        p.v = *x;
                    }
                }
            }
            2 => p = op(O::Remove, self.key(sh, 88)),
            3 => {
                p = op(O::Cip, self.key(sh, 80));
                p.v = val(self);
                p.f = *self.r.pick(&['s', 'd', 'i', 'a', 'a', 's']);
                if self.phase == 1 && self.r.pct(50) {
                    p.f = 'd';
                }
            }
            4 => {
                p = op(O::Coi, self.key(sh, 45));
                p.v = val(self);
                p.f = *self.r.pick(&['s', 'd', 'i', 'a', 'a', 's']);
            }
            5 => {
                p = op(O::Cas, self.key(sh, 80));
                p.x = if self.r.pct(70) {
                    sh.get(&p.k).copied().unwrap_or(0)
                } else {
                    val(self)
                };
                p.v = if self.r.pct(if self.phase == 1 { 60 } else { 25 }) { -1 } else { val(self) };
                if self.r.pct(10) {
                    p.v = p.x;
                }
            }
            6 => {
                let a = if self.r.pct(30) { self.key(sh, 50) } else { self.r.below(self.u) + 1 };
                let b = match self.r.below(10) {
                    0 => a,
                    1 => self.u,
                    2..=5 => (a + self.r.below(6)).min(self.u),
                    6 => self.r.below(self.u) + 1,
                    _ => a + self.r.below(self.u - a + 1),
                };
                p = op(O::Range, if self.r.pct(15) { 1 } else { a });
                p.h = b;
                p.n = match self.r.below(10) {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    3..=5 => self.r.below(8),
                    6 => {
                        // exactly as many as there are, or one off
                        let c = if p.k < p.h { sh.range(p.k..p.h).count() } else { 0 };
                        (c + self.r.below(3)).saturating_sub(1)
                    }
                    _ => self.u + 2,
                };
            }
            _ => p = op(O::Empty, 0),
        }
        if matches!(p.o, O::Insert | O::Coi) && self.r.pct(self.f.inj) {
            p.inj = self.r.below(2) as i64;
            if self.r.pct(30) {
                p.inj = 0;
            }
        }
        if matches!(p.o, O::Cip | O::Coi) && self.r.pct(self.f.pan) {
            p.pan = 0;
        }
        Next::Op(p)
    }
}

/// Drops operations from a suspicious trace while it stays suspicious.
pub fn shrink(cfg: &Cfg, vals: &Vals, ops: &[Op], budget: usize) -> Vec<Op> {
    let test = |o: &[Op]| {
        let mut i = 0;
        let mut lines = vec![];
        run(cfg, vals, &mut lines, |_| {
            i += 1;
            if i <= o.len() {
                Next::Op(o[i - 1])
            } else {
                Next::End
            }
        })
        .suspicious
    };
    let mut best = ops.to_vec();
    let mut tries = 0;
    let mut chunk = (best.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.len() && tries < budget {
            let mut c = best.clone();
            let e = (i + chunk).min(c.len());
            c.drain(i..e);
            tries += 1;
            if test(&c) {
                best = c;
                any = true;
            } else {
                i += chunk;
            }
        }
        if tries >= budget || (chunk == 1 && !any) {
            return best;
        }
        if !any {
            chunk = (chunk / 2).max(1);
        }
    }
}

/// Collects histories for TLC.
#[derive(Default)]
pub struct Emitter {
    pub file: String,
    pub nlines: usize,
    pub traces: usize,
}
impl Emitter {
    pub fn put(&mut self, lines: &[String]) {
        let next = self.nlines + lines.len() + 1;
        for (i, l) in lines.iter().enumerate() {
            if i == 0 {
                self.file.push_str(&l[..l.len() - 1]);
                let _ = write!(self.file, ",\"next\":{}}}", next);
            } else {
                self.file.push_str(l);
            }
            self.file.push('\n');
        }
        self.nlines += lines.len();
        self.traces += 1;
    }
    /// A history the shadow finds odd: a short version of it, and itself
    /// (what is odd may not concern the property being checked).
    pub fn suspicious(&mut self, cfg: &Cfg, vals: &Vals, ops: &[Op], lines: &[String]) {
        let best = shrink(cfg, vals, ops, 400);
        let mut j = 0;
        let mut l2 = vec![];
        let o2 = run(cfg, vals, &mut l2, |_| {
            j += 1;
            if j <= best.len() {
                Next::Op(best[j - 1])
            } else {
                Next::End
            }
        });
        if o2.suspicious {
            self.put(&l2);
        }
        self.put(lines);
    }
}

/// Options of the `seq` subcommand.
pub struct Args {
    pub focus: String,
    pub seed: u64,
    pub out: String,
    pub emit_events: usize,
    pub secs: f64,
    pub small: bool,
    pub min_traces: usize,
}

pub fn main(a: &Args) {
    congee::verif::set_hook(Some(seq_hook));
    std::panic::set_hook(Box::new(|_| {}));
    cur::install(&format!("{}.crash", a.out), 40);
    let vals = Vals::new();
    let f = focus(&a.focus);
    let t0 = std::time::Instant::now();
    let mut traces = 0usize;
    let mut ops_total = 0usize;
    let mut suspicious = 0usize;
    let mut lines = vec![];
    let mut kinds = [0usize; 4];
    let mut profs = [0usize; keys::PROFILES];
    let mut distinct: std::collections::HashSet<u64> = Default::default();
    let mut em = Emitter::default();
    let mut i = 0u64;
    loop {
        let sampling = em.nlines < a.emit_events || traces < a.min_traces;
        if !sampling && t0.elapsed().as_secs_f64() >= a.secs {
            break;
        }
        if suspicious >= 3 {
            break;
        }
        i += 1;
        let mut r = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(i));
        let prof = (i as usize + r.below(2)) % keys::PROFILES;
        let cfg = Gen::cfg(&mut r, &f, !a.small, Some(prof));
        let u = cfg.keys.len();
        let len = 20 + r.below(u * 3) + if r.pct(30) { u * 4 } else { 0 };
        let len = if sampling { len.min(700) } else { len };
        let mut g = Gen::new(r, f, &cfg, len);
        let mut ops: Vec<Op> = vec![];
        let o = run(&cfg, &vals, &mut lines, |sh| {
            let n = g.next(sh);
            if let Next::Op(p) = &n {
                ops.push(*p);
            }
            n
        });
        traces += 1;
        ops_total += o.ops;
        kinds[cfg.kind] += 1;
        profs[prof] += 1;
        if distinct.len() < 2_000_000 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            lines.hash(&mut h);
            distinct.insert(h.finish());
        }
        if o.suspicious {
            suspicious += 1;
            em.suspicious(&cfg, &vals, &ops, &lines);
        } else if sampling {
            em.put(&lines);
        }
    }
    std::fs::write(&a.out, &em.file).unwrap();
    println!(
        "{{\"traces\":{},\"ops\":{},\"emitted\":{},\"events\":{},\"suspicious\":{},\"kinds\":{:?},\"profiles\":{:?},\"distinct\":{}}}",
        traces, ops_total, em.traces, em.nlines, suspicious, kinds, profs, distinct.len()
    );
}
