//! Controlled concurrency: the library runs on real threads, exactly one of
//! which holds the baton; at every hook site the scheduler may pass it on.
//! Scenarios (a prepared tree, a short program per thread) are generated,
//! every schedule with one preemption is run, and many with two and three.
//! Histories go to LinTrace, memory events to ReclaimTrace.  A shadow decides
//! only which histories TLC sees besides the distinct ones that fit.
use crate::keys::NV;
use crate::seq::{fn_cip, fn_coi, fname, oname, ClosurePanic, HangPanic, Op, Vals, O};
use crate::ta::{BlkState, TA, TFAIL, TINJ};
use crate::trees::{Drained, Tree};
use crate::util::{cur, Rng};
use congee::epoch::Guard;
use congee::verif::Site;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::thread::Thread;

pub const MAXT: usize = 4;
const MAIN: usize = 99;

#[derive(Clone, Debug)]
pub struct Scn {
    pub keys: Vec<u64>,
    pub pre: Vec<(usize, i64)>, // (rank, value) stored, or -1: removed
    pub th: Vec<Vec<Op>>,
    pub per_op: Vec<bool>, // a guard per operation, or one for the program
    pub tag: String,
    pub rule: Option<Rule>,
    pub kind: usize, // of the tree
}

/// The operation of thread 0 is disturbed at step `at` of each of its attempts
/// (an attempt begins where its first one did): thread 1 completes `ops`
/// operations of its program there, or, in `half` of 100 cases, is left in the
/// middle of a change.
#[derive(Clone, Copy, Debug)]
pub struct Rule {
    pub at: u64,
    pub ops: u64,
    pub half: usize,
    pub seed: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Inv(u8, usize),
    Cl(u8, i64),
    Res(u8, Vec<i64>, u8, u8), // result, injected, panicked
    Pan(u8, &'static str),
    Stuck(u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mv {
    Pin(u8),
    Unpin(u8),
    Inv(u8, usize),
    Acc(u8, usize), // op instance is the thread's latest Inv
    Free(u8, usize, bool),
}

#[derive(Default)]
struct Sched {
    n: usize,
    steps: u64,
    limit: u64,
    /// steps at which the thread with the baton holds a write lock
    held: [usize; MAXT],
    inside: Vec<u64>,
    dec: Vec<(u64, usize)>,
    di: usize,
    prio: Vec<usize>,
    done: [bool; MAXT],
    abort: bool,
    main_steps: u64,
    log: Vec<Ev>,
    mem: Vec<Mv>,
    want_mem: bool,
    cmd_flush: bool,
    uaf: bool,
    switches: u64,
    quantum: u64,
    rule: Option<Rule>,
    rng: Option<Rng>,
    root: usize,
    since: u64,
    ops1: u64,
    torn: usize,
    locking: [bool; MAXT],
    in_op: [bool; MAXT],
    ta: Option<TA>,
    tree: Option<std::sync::Arc<Tree>>,
    scn: Option<*const Scn>,
}
static mut S: Option<Box<Sched>> = None;
static CUR: AtomicUsize = AtomicUsize::new(MAIN);
static mut THREADS: Vec<Thread> = Vec::new();
static mut MAINT: Option<Thread> = None;

thread_local! {
    pub static WID: Cell<usize> = const { Cell::new(MAIN) };
}

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}
#[allow(static_mut_refs)]
fn pass(to: usize) {
    CUR.store(to, SeqCst);
    unsafe {
        if to == MAIN {
            MAINT.as_ref().unwrap().unpark()
        } else {
            THREADS[to].unpark()
        }
    }
}
fn wait(me: usize) {
    while CUR.load(SeqCst) != me {
        std::thread::park();
    }
}
fn next_runnable(me: usize) -> Option<usize> {
    // the next in priority order after me, cyclically
    let sc = s();
    let n = sc.n;
    let p = sc.prio.iter().position(|x| *x == me).unwrap_or(n - 1);
    for i in 1..=n {
        let t = sc.prio[(p + i) % n];
        if t != me && !sc.done[t] {
            return Some(t);
        }
    }
    None
}
fn first_runnable() -> Option<usize> {
    let sc = s();
    sc.prio.iter().copied().find(|t| !sc.done[*t])
}
fn give(me: usize, to: usize) {
    let sc = s();
    sc.switches += 1;
    sc.quantum = 0;
    pass(to);
    wait(me);
}

const MAIN_LIMIT: u64 = 200_000;

pub fn hook(site: Site, addr: usize) {
    let me = WID.with(|w| w.get());
    if me != MAIN && crate::free::ON.load(Relaxed) {
        return crate::free::hook(site);
    }
    if me == MAIN {
        let sc = s();
        sc.main_steps += 1;
        if sc.main_steps > MAIN_LIMIT && !std::thread::panicking() {
            std::panic::panic_any(HangPanic);
        }
        return;
    }
    let sc = s();
    if sc.cmd_flush {
        return;
    }
    let unwinding = std::thread::panicking();
    if sc.abort {
        if !unwinding {
            std::panic::panic_any(HangPanic);
        }
        return;
    }
    use Site::*;
    let failed = std::mem::replace(&mut sc.locking[me], site == ReadLock);
    match site {
        ReadLocked | Checked | Obsolete => return,
        _ => {}
    }
    sc.steps += 1;
    // the limit on steps deals with loops that come through here
    if sc.steps % 128 == 0 {
        cur::PROGRESS.fetch_add(1, Relaxed);
    }
    sc.quantum += 1;
    match site {
        Upgraded => sc.held[me] += 1,
        Unlocked => sc.held[me] = sc.held[me].saturating_sub(1),
        _ => {}
    }
    if site == Torn || (sc.held[me] > 0 && sc.steps % 2 == 0) {
        sc.inside.push(sc.steps);
    }
    if sc.steps > sc.limit {
        sc.log.push(Ev::Stuck(me as u8));
        sc.abort = true;
        if !unwinding {
            std::panic::panic_any(HangPanic);
        }
        return;
    }
    let mut to = None;
    if sc.di < sc.dec.len() && sc.dec[sc.di].0 == sc.steps {
        let t = sc.dec[sc.di].1;
        sc.di += 1;
        if t != me && t < sc.n && !sc.done[t] {
            to = Some(t);
        }
    }
    if let (None, Some(rule)) = (to, sc.rule) {
        if me == 0 {
            if site == ReadLock {
                if sc.root == 0 {
                    sc.root = addr;
                }
                if sc.root == addr {
                    sc.since = 0;
                }
            }
            sc.since += 1;
            if sc.since == rule.at && sc.in_op[0] && !sc.done[1] {
                sc.ops1 = 0;
                let r = sc.rng.as_mut().unwrap();
                sc.torn = if r.pct(rule.half) { 1 + r.below(3) } else { usize::MAX };
                to = Some(1);
            }
        } else if me == 1 {
            if site == Torn {
                sc.torn = sc.torn.saturating_sub(1);
            }
            if (sc.ops1 >= rule.ops || sc.torn == 0) && !sc.done[0] {
                to = Some(0);
            }
        }
    }
    if to.is_none() && (site == Spin || failed || (sc.quantum > 1500 && sc.rule.is_none())) {
        // a retry is pointless until somebody else has run
        to = next_runnable(me);
    }
    if let Some(t) = to {
        give(me, t);
        let sc = s();
        if sc.abort {
            if !std::thread::panicking() {
                std::panic::panic_any(HangPanic);
            }
            return;
        }
    }
    if addr != 0 && sc.want_mem && !matches!(site, Torn | Unlocked | Spin) {
        access(me, addr);
    }
}

fn access(me: usize, addr: usize) {
    let sc = s();
    if !sc.in_op[me] {
        return;
    }
    let (id, st) = match sc.ta.as_ref().unwrap().with(|t| t.blks.get(&addr).map(|b| (b.id, b.state))) {
        Some(x) => x,
        None => return,
    };
    let freed = st == BlkState::Freed;
    if freed && sc.uaf {
        return; // the first one is enough
    }
    // once per operation while the block lives
    if !freed {
        for m in sc.mem.iter().rev() {
            match m {
                Mv::Acc(t, n) if *t == me as u8 && *n == id => return,
                Mv::Inv(t, _) if *t == me as u8 => break,
                _ => {}
            }
        }
    } else {
        sc.uaf = true;
    }
    sc.mem.push(Mv::Acc(me as u8, id));
}

pub fn alloc_hook(is_alloc: bool, _addr: usize, id: usize, ok: bool) {
    if is_alloc || crate::free::ON.load(Relaxed) {
        return;
    }
    let me = WID.with(|w| w.get());
    let sc = s();
    if !sc.want_mem {
        return;
    }
    let t = if me == MAIN || sc.cmd_flush { 9 } else { me as u8 };
    sc.mem.push(Mv::Free(t, id, ok));
}

fn pin(t: &Tree, me: usize) -> Guard {
    let g = t.pin();
    if s().want_mem {
        s().mem.push(Mv::Pin(me as u8));
    }
    g
}
fn unpin(g: &mut Option<Guard>, me: usize) {
    if g.is_some() {
        if s().want_mem {
            s().mem.push(Mv::Unpin(me as u8));
        }
        *g = None;
    }
}

fn logev(id: u8, e: Ev) {
    if id != 9 && crate::free::ON.load(Relaxed) {
        crate::free::log(e);
    } else {
        s().log.push(e);
    }
}

/// Executes one call; pushes Cl/Res/Pan events of thread `id`.
pub fn exec(tree: &Tree, scn: &Scn, vals: &Vals, p: &Op, g: &Guard, id: u8) {
    let real = |k: usize| scn.keys[k - 1] as usize;
    let rank = |x: usize| -> i64 { scn.keys.binary_search(&(x as u64)).map_or(-50, |i| i as i64 + 1) };
    let opt = |x: Option<usize>| vals.oid(x);
    TFAIL.with(|f| f.set(p.inj));
    TINJ.with(|f| f.set(false));
    let mut ncl = 0i64;
    let mut sink = |x: i64| {
        logev(id, Ev::Cl(id, x));
        ncl += 1;
        if p.pan >= 0 && ncl > p.pan {
            std::panic::panic_any(ClosurePanic);
        }
    };
    let res = catch_unwind(AssertUnwindSafe(|| match p.o {
        O::Get => vec![opt(tree.get(real(p.k), g))],
        O::Insert => match tree.insert(real(p.k), vals.v[p.v as usize], g) {
            Ok(x) => vec![opt(x)],
            Err(()) => vec![-9],
        },
        O::Remove => vec![opt(tree.remove(real(p.k), g))],
        O::Cip => {
            let x = tree.cip(
                real(p.k),
                &mut |old| {
                    let i = vals.idof(old);
                    sink(i);
                    let n = fn_cip(p.f, p.v, i);
                    if n < 0 {
                        None
                    } else {
                        Some(vals.v[n as usize])
                    }
                },
                g,
            );
            match x {
                None => vec![-1],
                Some((a, b)) => vec![vals.idof(a), opt(b)],
            }
        }
        O::Coi => {
            let x = tree.coi(
                real(p.k),
                &mut |old| {
                    let i = opt(old);
                    sink(i);
                    let n = fn_coi(p.f, p.v, i);
                    vals.v[if n < 0 { 0 } else { n as usize }]
                },
                g,
            );
            match x {
                Ok(x) => vec![opt(x)],
                Err(()) => vec![-9],
            }
        }
        O::Cas => {
            let new = if p.v < 0 { None } else { Some(vals.v[p.v as usize]) };
            match tree.cas(real(p.k), vals.v[p.x as usize], new, g) {
                Ok(x) => vec![1, opt(x)],
                Err(x) => vec![0, opt(x)],
            }
        }
        O::Range => {
            let sent = (0xDEAD_BEEFusize, 0xFEED_FACEusize);
            let mut buf = vec![sent; p.n + 2];
            let c = tree.range(real(p.k), real(p.h), &mut buf[..p.n], g);
            if c > p.n {
                vec![-51]
            } else {
                buf[..c].iter().flat_map(|(k, v)| [rank(*k), vals.idof(*v)]).collect()
            }
        }
        O::Empty => vec![tree.is_empty(g) as i64],
        O::Stats => {
            let _ = tree.stats();
            vec![]
        }
        _ => unreachable!(),
    }));
    TFAIL.with(|f| f.set(-1));
    let ij = TINJ.with(|f| f.get()) as u8;
    match res {
        Ok(r) => logev(id, Ev::Res(id, r, ij, 0)),
        Err(e) if e.is::<ClosurePanic>() => logev(id, Ev::Res(id, vec![], ij, 1)),
        Err(e) if e.is::<HangPanic>() => {
            if id == 9 {
                logev(id, Ev::Stuck(9));
            }
        }
        Err(_) => logev(id, Ev::Pan(id, oname(p.o))),
    }
}

fn program(me: usize, vals: &Vals) {
    let sc = s();
    let scn: &Scn = unsafe { &*sc.scn.unwrap() };
    let tree = sc.tree.as_ref().unwrap().clone();
    let mut g: Option<Guard> = None;
    if !scn.per_op[me] {
        g = Some(pin(&tree, me));
    }
    for (i, p) in scn.th[me].iter().enumerate() {
        if s().abort {
            break;
        }
        match p.o {
            O::Flush => {
                // gives other threads the chance to have run before it
                hook(Site::Unlocked, 0);
                let h = congee::epoch::pin();
                for _ in 0..4 {
                    h.flush();
                }
                drop(h);
                if g.is_none() {
                    for _ in 0..4 {
                        congee::epoch::pin().flush();
                    }
                }
            }
            O::Repin => {
                hook_safe();
                unpin(&mut g, me);
                g = Some(pin(&tree, me));
            }
            O::Unpin => {
                hook_safe();
                unpin(&mut g, me);
            }
            _ => {
                let tmp = g.is_none() && p.o != O::Stats;
                if tmp {
                    g = Some(pin(&tree, me));
                }
                s().log.push(Ev::Inv(me as u8, i));
                if s().want_mem {
                    s().mem.push(Mv::Inv(me as u8, i));
                }
                s().in_op[me] = true;
                let un;
                let gr = match &g {
                    Some(g) => g,
                    None => {
                        un = unsafe { congee_unprotected() };
                        un
                    }
                };
                exec(&tree, scn, vals, p, gr, me as u8);
                s().in_op[me] = false;
                s().ops1 += (me == 1) as u64;
                if s().rule.is_some() && me == 1 && s().done[0] {
                    break;
                }
                if tmp && scn.per_op[me] {
                    unpin(&mut g, me);
                }
            }
        }
    }
    unpin(&mut g, me);
}
fn hook_safe() {
    if !s().abort {
        let _ = catch_unwind(|| hook(Site::Unlocked, 0));
    }
}
unsafe fn congee_unprotected() -> &'static Guard {
    crossbeam_epoch::unprotected()
}

fn worker(me: usize) {
    WID.with(|w| w.set(me));
    let vals = Vals::new();
    loop {
        wait(me);
        if s().cmd_flush {
            for _ in 0..3 {
                congee::epoch::pin().flush();
            }
            pass(MAIN);
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| program(me, &vals)));
        let _ = r;
        let sc = s();
        sc.in_op[me] = false;
        sc.done[me] = true;
        match first_runnable() {
            Some(t) => pass(t),
            None => pass(MAIN),
        }
    }
}

pub struct RunOut {
    pub lin: Vec<Ev>,
    pub mem: Vec<Mv>,
    pub steps: u64,
    pub inside: Vec<u64>,
    pub fin: Option<String>,
    pub fin_bad: bool,
    pub probes: Vec<Op>,
    pub uaf: bool,
}

/// Runs one schedule of a scenario.
pub fn run(scn: &Scn, vals: &Vals, prio: &[usize], dec: &[(u64, usize)], mem: bool, fin: bool) -> RunOut {
    run_as(scn, vals, prio, dec, mem, fin, None)
}
/// With `free`, the threads run as they like instead.
pub fn run_as(
    scn: &Scn,
    vals: &Vals,
    prio: &[usize],
    dec: &[(u64, usize)],
    mem: bool,
    fin: bool,
    free: Option<u64>,
) -> RunOut {
    let ta = TA::new(true, Some(alloc_hook));
    let dr: Drained = Default::default();
    let sc = s();
    sc.n = scn.th.len();
    sc.want_mem = false;
    sc.main_steps = 0;
    sc.cmd_flush = false;
    sc.abort = false;
    let mut out = RunOut { lin: vec![], mem: vec![], steps: 0, inside: vec![], fin: None, fin_bad: false, probes: vec![], uaf: false };
    let tree = std::sync::Arc::new(Tree::new(scn.kind, &ta, &dr));
    {
        let g = tree.pin();
        for (k, v) in &scn.pre {
            sc.main_steps = 0;
            let key = scn.keys[*k - 1] as usize;
            let _ = catch_unwind(AssertUnwindSafe(|| {
                if *v < 0 {
                    tree.remove(key, &g);
                } else {
                    let _ = tree.insert(key, vals.v[*v as usize], &g);
                }
            }));
        }
    }
    let sc = s();
    sc.steps = 0;
    sc.held = [0; MAXT];
    sc.inside.clear();
    sc.limit = 20_000 + 100 * scn.th.iter().map(|p| p.len() as u64).sum::<u64>();
    sc.rule = scn.rule;
    sc.rng = scn.rule.map(|r| Rng::new(r.seed));
    sc.root = 0;
    sc.since = 0;
    sc.ops1 = 0;
    sc.torn = usize::MAX;
    sc.dec = dec.to_vec();
    sc.di = 0;
    sc.prio = prio.to_vec();
    sc.done = [false; MAXT];
    sc.log.clear();
    sc.mem.clear();
    sc.want_mem = mem;
    sc.uaf = false;
    sc.switches = 0;
    sc.quantum = 0;
    sc.locking = [false; MAXT];
    sc.in_op = [false; MAXT];
    sc.ta = Some(ta.clone());
    sc.tree = Some(tree.clone());
    sc.scn = Some(scn as *const Scn);
    match free {
        None => {
            pass(prio[0]);
            wait(MAIN);
        }
        Some(seed) => {
            let (l, bad) = crate::free::go(scn, &tree, seed);
            s().log = l;
            s().abort = bad;
        }
    }
    let sc = s();
    sc.want_mem = false;
    sc.tree = None;
    out.steps = sc.steps;
    out.inside = std::mem::take(&mut sc.inside);
    out.uaf = sc.uaf;
    let mut ok = !sc.abort && !sc.log.iter().any(|e| matches!(e, Ev::Pan(..)));
    let broken_early = !ok;
    sc.abort = false;
    if ok || !s().log.iter().any(|e| matches!(e, Ev::Stuck(_))) {
        // probes: every key once, alone; then writes to some
        let mut hot: Vec<usize> = scn.th.iter().flatten().filter(|p| p.k > 0).map(|p| p.k).collect();
        hot.sort();
        hot.dedup();
        let mut probes: Vec<Op> = (1..=scn.keys.len()).map(|k| crate::seq::op(O::Get, k)).collect();
        for k in &hot {
            let mut p = crate::seq::op(O::Insert, *k);
            p.v = 11;
            probes.push(p);
        }
        for k in &hot {
            probes.push(crate::seq::op(O::Get, *k));
            if fin {
                // leave some behind for the drainer
                if k % 2 == 0 {
                    continue;
                }
            }
            probes.push(crate::seq::op(O::Remove, *k));
            probes.push(crate::seq::op(O::Get, *k));
        }
        let mut p = crate::seq::op(O::Range, 1);
        p.h = scn.keys.len();
        p.n = scn.keys.len();
        probes.push(p);
        let g = tree.pin();
        for (i, p) in probes.iter().enumerate() {
            s().main_steps = 0;
            s().log.push(Ev::Inv(9, i));
            exec(&tree, scn, vals, p, &g, 9);
            match s().log.last() {
                Some(Ev::Stuck(_)) | Some(Ev::Pan(..)) => {
                    ok = false;
                    break;
                }
                _ => {}
            }
        }
        drop(g);
        out.probes = probes;
    }
    out.lin = std::mem::take(&mut s().log);
    out.mem = std::mem::take(&mut s().mem);
    if fin && ok {
        s().cmd_flush = true;
        for t in 0..scn.th.len() {
            if free.is_some() {
                break; // they have done it themselves
            }
            pass(t);
            wait(MAIN);
        }
        // a collection takes up only so much garbage at a time
        let (mut last, mut same) = (ta.live(), 0);
        for _ in 0..20_000 {
            congee::epoch::pin().flush();
            let now = ta.live();
            same = if now == last { same + 1 } else { 0 };
            last = now;
            if same == 8 {
                break;
            }
        }
        s().cmd_flush = false;
        s().main_steps = 0;
        let st = catch_unwind(AssertUnwindSafe(|| tree.stats().unwrap()));
        let (live, odd) = ta.live();
        let errs = ta.errs();
        let mut f = String::new();
        match st {
            Err(_) => {
                f.push_str("{\"o\":\"pan\",\"t\":9,\"w\":\"stats\"}");
                out.fin_bad = true;
                ok = false;
            }
            Ok(st) => {
                let mut cls = [0u64; 4];
                for a in &st.lv {
                    for c in 0..4 {
                        cls[c] += a[2 * c];
                    }
                }
                out.fin_bad |= odd > 0 || errs > 0 || (0..4).any(|c| cls[c] != live[c] as u64);
                let _ = write!(
                    f,
                    "{{\"o\":\"fin\",\"live\":{:?},\"odd\":{},\"errs\":{},\"kv\":{},\"nodes\":{:?}}}",
                    live, odd, errs, st.kv, cls
                );
            }
        }
        out.fin = Some(f);
    }
    // the drop
    let tree = std::sync::Arc::try_unwrap(tree);
    match tree {
        Ok(t) if ok || !broken_early => {
            s().main_steps = 0;
            let r = catch_unwind(AssertUnwindSafe(|| drop(t)));
            if fin && ok {
                let mut f = out.fin.take().unwrap();
                f.push('\n');
                if r.is_err() {
                    f.push_str("{\"o\":\"pan\",\"t\":9,\"w\":\"drop\"}");
                    out.fin_bad = true;
                } else {
                    for _ in 0..4 {
                        congee::epoch::pin().flush();
                    }
                    let (live, odd) = ta.live();
                    let errs = ta.errs();
                    let d = dr.lock().unwrap();
                    let mut v: Vec<(i64, i64)> = d
                        .iter()
                        .map(|(k, v)| {
                            (
                                scn.keys.binary_search(&(*k as u64)).map_or(-50, |i| i as i64 + 1),
                                vals.idof(*v),
                            )
                        })
                        .collect();
                    v.sort();
                    let fl: Vec<String> = v.iter().map(|(a, b)| format!("{},{}", a, b)).collect();
                    out.fin_bad |= live != [0; 4] || odd > 0 || errs > 0;
                    let _ = write!(
                        f,
                        "{{\"o\":\"drop\",\"live\":{:?},\"odd\":{},\"errs\":{},\"dr\":[{}]}}",
                        live,
                        odd,
                        errs,
                        fl.join(",")
                    );
                }
                out.fin = Some(f);
            }
        }
        Ok(t) => std::mem::forget(t),
        Err(t) => std::mem::forget(t),
    }
    out
}

// ------------------------------------------------------------ presentation
pub fn op_json(p: &Op) -> String {
    let mut x = format!("\"w\":\"{}\"", oname(p.o));
    match p.o {
        O::Get | O::Remove => {
            let _ = write!(x, ",\"k\":{}", p.k);
        }
        O::Insert => {
            let _ = write!(x, ",\"k\":{},\"v\":{}", p.k, p.v);
        }
        O::Cip | O::Coi => {
            let _ = write!(x, ",\"k\":{},\"v\":{},\"f\":\"{}\"", p.k, p.v, fname(p.f));
        }
        O::Cas => {
            let _ = write!(x, ",\"k\":{},\"x\":{},\"v\":{}", p.k, p.x, p.v);
        }
        O::Range => {
            let _ = write!(x, ",\"k\":{},\"h\":{},\"n\":{}", p.k, p.h, p.n);
        }
        _ => {}
    }
    x
}
fn ints(v: &[i64]) -> String {
    let x: Vec<String> = v.iter().map(|a| a.to_string()).collect();
    x.join(",")
}
pub fn init_map(scn: &Scn) -> BTreeMap<usize, i64> {
    let mut m = BTreeMap::new();
    for (k, v) in &scn.pre {
        if *v < 0 {
            m.remove(k);
        } else {
            m.insert(*k, *v);
        }
    }
    m
}
fn sched_json(scn: &Scn, prio: &[usize], dec: &[(u64, usize)]) -> String {
    let d: Vec<String> = dec.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
    let rule = scn.rule.map_or(String::new(), |r| format!(",\"rule\":[{},{},{},{}]", r.at, r.ops, r.half, r.seed));
    format!("\"prio\":{:?},\"dec\":[{}]{}", prio, d.join(","), rule)
}
pub fn header(scn: &Scn, prio: &[usize], dec: &[(u64, usize)]) -> String {
    let m = init_map(scn);
    let init: Vec<i64> = (1..=scn.keys.len()).map(|k| *m.get(&k).unwrap_or(&-1)).collect();
    let keys: Vec<String> = scn.keys.iter().map(|k| format!("\"{:016x}\"", k)).collect();
    format!(
        "{{\"o\":\"new\",\"u\":{},\"th\":{},\"init\":[{}],\"keys\":[{}],\"tag\":\"{} {}\",{}}}",
        scn.keys.len(),
        scn.th.len(),
        ints(&init),
        keys.join(","),
        crate::trees::KINDS[scn.kind],
        scn.tag,
        sched_json(scn, prio, dec)
    )
}
pub fn lin_lines(scn: &Scn, prio: &[usize], dec: &[(u64, usize)], o: &RunOut) -> Vec<String> {
    let mut v = vec![header(scn, prio, dec)];
    for e in &o.lin {
        v.push(match e {
            Ev::Inv(t, i) => {
                let p = if *t == 9 { &o.probes[*i] } else { &scn.th[*t as usize][*i] };
                format!("{{\"o\":\"inv\",\"t\":{},{}}}", t, op_json(p))
            }
            Ev::Cl(t, x) => format!("{{\"o\":\"cl\",\"t\":{},\"x\":{}}}", t, x),
            Ev::Res(t, r, ij, p) => {
                format!("{{\"o\":\"res\",\"t\":{},\"r\":[{}],\"ij\":{},\"p\":{}}}", t, ints(r), ij, p)
            }
            Ev::Pan(t, w) => format!("{{\"o\":\"pan\",\"t\":{},\"w\":\"{}\"}}", t, w),
            Ev::Stuck(t) => format!("{{\"o\":\"stuck\",\"t\":{}}}", t),
        });
    }
    if let Some(f) = &o.fin {
        for l in f.lines() {
            v.push(l.to_string());
        }
    }
    v
}

/// Memory events, reduced to blocks given back during the run.
pub fn mem_lines(scn: &Scn, prio: &[usize], dec: &[(u64, usize)], o: &RunOut) -> Option<Vec<String>> {
    let freed: HashSet<usize> = o.mem.iter().filter_map(|m| if let Mv::Free(_, n, _) = m { Some(*n) } else { None }).collect();
    if freed.is_empty() {
        return None;
    }
    let mut ids: BTreeMap<usize, usize> = BTreeMap::new();
    let mut v = vec![header(scn, prio, dec)];
    for e in &o.mem {
        let mut nid = |n: &usize| {
            let l = ids.len() + 1;
            *ids.entry(*n).or_insert(l)
        };
        v.push(match e {
            Mv::Pin(t) => format!("{{\"o\":\"pin\",\"t\":{}}}", t),
            Mv::Unpin(t) => format!("{{\"o\":\"unpin\",\"t\":{}}}", t),
            Mv::Inv(t, i) => format!("{{\"o\":\"inv\",\"t\":{},{}}}", t, op_json(&scn.th[*t as usize][*i])),
            Mv::Acc(t, n) if freed.contains(n) => format!("{{\"o\":\"acc\",\"t\":{},\"n\":{}}}", t, nid(n)),
            Mv::Acc(..) => continue,
            Mv::Free(t, n, ok) => format!("{{\"o\":\"free\",\"t\":{},\"n\":{},\"ok\":{}}}", t, nid(n), *ok as u8),
        });
    }
    Some(v)
}

// ------------------------------------------------------------ shadow check
/// The set-of-configurations check of LinTrace, used only to pick histories.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Conf {
    m: Vec<i64>,
    st: Vec<Option<Vec<i64>>>, // per slot: linearized with this result
    seen: Vec<Vec<Vec<i64>>>,  // per slot, per key
}
fn apply(m: &mut [i64], p: &Op) -> Vec<i64> {
    let k = p.k.wrapping_sub(1);
    match p.o {
        O::Get => vec![m[k]],
        O::Insert => {
            let o = m[k];
            m[k] = p.v;
            vec![o]
        }
        O::Remove => {
            let o = m[k];
            m[k] = -1;
            vec![o]
        }
        O::Cip => {
            if m[k] < 0 {
                return vec![-1];
            }
            let o = m[k];
            m[k] = fn_cip(p.f, p.v, o);
            vec![o, m[k]]
        }
        O::Coi => {
            let o = m[k];
            m[k] = fn_coi(p.f, p.v, o);
            vec![o]
        }
        O::Cas => {
            if m[k] < 0 {
                vec![0, -1]
            } else if m[k] == p.x {
                m[k] = p.v;
                vec![1, p.v]
            } else {
                vec![0, m[k]]
            }
        }
        O::Empty => vec![m.iter().all(|x| *x < 0) as i64],
        _ => vec![],
    }
}
pub fn shadow_ok(scn: &Scn, o: &RunOut) -> bool {
    let u = scn.keys.len();
    let im = init_map(scn);
    let slots = MAXT + 1;
    let sl = |t: u8| if t == 9 { MAXT } else { t as usize };
    let mut cs: HashSet<Conf> = HashSet::new();
    cs.insert(Conf {
        m: (1..=u).map(|k| *im.get(&k).unwrap_or(&-1)).collect(),
        st: vec![None; slots],
        seen: vec![vec![]; slots],
    });
    let mut pd: Vec<Option<Op>> = vec![None; slots];
    let mut lastc: Vec<i64> = vec![-77; slots];
    let watch = |p: &Op| matches!(p.o, O::Range | O::Cip | O::Coi);
    for e in &o.lin {
        cur::PROGRESS.fetch_add(1, Relaxed);
        let expand = |cs: HashSet<Conf>, pd: &[Option<Op>]| {
            let mut all = cs;
            let open = |c: &&Conf| (0..slots).any(|t| pd[t].is_some() && c.st[t].is_none());
            let mut todo: Vec<Conf> = all.iter().filter(open).cloned().collect();
            while let Some(c) = todo.pop() {
                for t in 0..slots {
                    if let Some(p) = &pd[t] {
                        if c.st[t].is_none() && !matches!(p.o, O::Range | O::Stats) {
                            let mut d = c.clone();
                            let r = apply(&mut d.m, p);
                            d.st[t] = Some(r);
                            for x in 0..slots {
                                if !d.seen[x].is_empty() && p.k > 0 {
                                    let v = d.m[p.k - 1];
                                    if !d.seen[x][p.k - 1].contains(&v) {
                                        d.seen[x][p.k - 1].push(v);
                                        d.seen[x][p.k - 1].sort();
                                    }
                                }
                            }
                            if all.insert(d.clone()) {
                                todo.push(d);
                            }
                        }
                    }
                }
            }
            all
        };
        match e {
            Ev::Inv(t, i) => {
                let p = if *t == 9 { o.probes[*i] } else { scn.th[*t as usize][*i] };
                let x = sl(*t);
                pd[x] = Some(p);
                lastc[x] = -77;
                cs = cs
                    .into_iter()
                    .map(|mut c| {
                        c.st[x] = None;
                        c.seen[x] = if watch(&p) { c.m.iter().map(|v| vec![*v]).collect() } else { vec![] };
                        c
                    })
                    .collect();
            }
            Ev::Cl(t, a) => {
                let x = sl(*t);
                lastc[x] = *a;
                let k = pd[x].unwrap().k - 1;
                cs = expand(cs, &pd);
                cs.retain(|c| c.seen[x][k].contains(a));
            }
            Ev::Res(t, r, ij, p) => {
                let x = sl(*t);
                let op = pd[x].unwrap();
                cs = expand(cs, &pd);
                if *p == 1 || *r == [-9] {
                    if *p == 0 && *ij == 0 {
                        return false;
                    }
                    cs.retain(|c| c.st[x].is_none());
                } else {
                    match op.o {
                        O::Range => cs.retain(|c| range_ok(&c.seen[x], &op, r)),
                        O::Stats => {}
                        _ => cs.retain(|c| c.st[x].as_ref() == Some(r)),
                    }
                    if op.o == O::Coi && lastc[x] != r[0] {
                        return false;
                    }
                    if op.o == O::Cip && r[0] != -1 && lastc[x] != r[0] {
                        return false;
                    }
                }
                pd[x] = None;
                cs = cs
                    .into_iter()
                    .map(|mut c| {
                        c.st[x] = None;
                        c.seen[x] = vec![];
                        c
                    })
                    .collect();
            }
            Ev::Pan(..) | Ev::Stuck(_) => return false,
        }
        if cs.is_empty() {
            return false;
        }
    }
    true
}
fn range_ok(seen: &[Vec<i64>], p: &Op, r: &[i64]) -> bool {
    if r.len() % 2 == 1 || r.len() / 2 > p.n {
        return false;
    }
    let mut last = 0i64;
    let mut got = HashSet::new();
    for c in r.chunks(2) {
        if c[0] <= last || c[0] < p.k as i64 || c[0] >= p.h as i64 {
            return false;
        }
        last = c[0];
        if !seen[c[0] as usize - 1].contains(&c[1]) {
            return false;
        }
        got.insert(c[0]);
    }
    let full = r.len() / 2 == p.n;
    for k in p.k..p.h.max(p.k) {
        if !seen[k - 1].contains(&-1) && !got.contains(&(k as i64)) && !(full && k as i64 > last) && p.n > 0 {
            return false;
        }
    }
    true
}

// --------------------------------------------------------------- the driver
pub struct Args {
    pub focus: String,
    pub seed: u64,
    pub lin: String,
    pub rec: String,
    pub emit: usize,
    pub secs: f64,
    pub p2: usize,
    pub p3: usize,
    pub walk: usize,
    pub tours: String,
    pub core: usize,
    pub only: usize,
}

pub fn start(core: usize) {
    unsafe {
        if core != usize::MAX {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(core, &mut set);
            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
        }
        S = Some(Box::default());
        MAINT = Some(std::thread::current());
    }
    if core == usize::MAX {
        congee::verif::set_hook(Some(hook));
        return;
    }
    for i in 0..MAXT {
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || worker(i)).unwrap();
        #[allow(static_mut_refs)]
        unsafe {
            THREADS.push(h.thread().clone())
        };
    }
    congee::verif::set_hook(Some(hook));
}

pub struct Sink {
    pub file: String,
    pub lines: usize,
    pub seen: HashSet<u64>,
    pub hist: usize,
}
impl Sink {
    pub fn new() -> Self {
        Sink { file: String::new(), lines: 0, seen: HashSet::new(), hist: 0 }
    }
    pub fn put(&mut self, v: &[String]) {
        let next = self.lines + v.len() + 1;
        for (i, l) in v.iter().enumerate() {
            if i == 0 {
                self.file.push_str(&l[..l.len() - 1]);
                let _ = write!(self.file, ",\"next\":{}}}", next);
            } else {
                self.file.push_str(l);
            }
            self.file.push('\n');
        }
        self.lines += v.len();
        self.hist += 1;
    }
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 1 {
        return vec![vec![0]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

pub fn main(a: &Args) {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VH_DEBUG").is_ok() {
            eprintln!("{} {:?}", i, i.payload().downcast_ref::<&str>());
        }
    }));
    cur::install(&format!("{}.crash", a.lin), 30);
    start(a.core);
    let vals = Vals::new();
    let t0 = std::time::Instant::now();
    let f = crate::scen::focus(&a.focus);
    let tours = if a.tours.is_empty() { vec![] } else { crate::tour::load(&a.tours) };
    let mut lin = Sink::new();
    let mut rec = Sink::new();
    let (mut scns, mut runs, mut sus, mut steps) = (0usize, 0usize, 0usize, 0u64);
    let mut tags: BTreeMap<String, usize> = BTreeMap::new();
    let mut i = 0u64;
    while t0.elapsed().as_secs_f64() < a.secs && sus < 6 {
        i += 1;
        if a.only > 0 && i > a.only as u64 {
            break;
        }
        let mut r = Rng::new(a.seed.wrapping_mul(7_000_003).wrapping_add(i));
        let scn = crate::scen::gen(&mut r, &f, &tours);
        let mem = f.mem;
        scns += 1;
        *tags.entry(scn.tag.split(' ').next().unwrap().to_string()).or_default() += 1;
        let n = scn.th.len();
        let mut scn_hits = 0usize;
        let quota = a.emit / 40;
        let mut go = |scn: &Scn, prio: &[usize], dec: &[(u64, usize)], lin: &mut Sink, rec: &mut Sink| -> (u64, Vec<u64>) {
            cur::clear();
            cur::push(&header(scn, prio, dec));
            for (t, th) in scn.th.iter().enumerate() {
                for p in th {
                    cur::push(&format!("{{\"o\":\"prog\",\"t\":{},{}}}", t, op_json(p)));
                }
            }
            let o = run(scn, &vals, prio, dec, mem, f.fin);
            runs += 1;
            steps += o.steps;
            let h = {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (i, &o.lin, &o.fin).hash(&mut h);
                h.finish()
            };
            if lin.seen.insert(h) {
                let bad = o.fin_bad || !shadow_ok(scn, &o);
                if bad || (lin.lines < a.emit && scn_hits < quota.max(30) && o.lin.len() < 600) {
                    let mut l = lin_lines(scn, prio, dec, &o);
                    if bad {
                        l[0] = l[0].replacen("\"th\"", "\"sus\":1,\"th\"", 1);
                    }
                    scn_hits += l.len();
                    if bad {
                        sus += 1;
                    }
                    if sus < 20 {
                        lin.put(&l);
                    }
                }
            }
            if mem {
                if let Some(l) = mem_lines(scn, prio, dec, &o) {
                    let h = {
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        l[1..].hash(&mut h);
                        h.finish()
                    };
                    if rec.seen.insert(h) && (rec.lines < a.emit || o.uaf) {
                        rec.put(&l);
                        if o.uaf {
                            sus += 1;
                        }
                    }
                }
            }
            (o.steps, o.inside)
        };
        if i % 3 == 0 {
            // one operation disturbed again and again, or for long
            for x in 0..6 {
                let mut r = Rng::new(a.seed.wrapping_mul(7_000_003).wrapping_add(i * 6 + x + (1 << 40)));
                let base = crate::scen::gen(&mut r, &f, &tours);
                let (h, rules) = crate::scen::harass(&mut r, base);
                for rule in rules {
                    let h = Scn { rule: Some(rule), ..h.clone() };
                    go(&h, &[0, 1], &[], &mut lin, &mut rec);
                    if t0.elapsed().as_secs_f64() > a.secs * 1.3 {
                        break;
                    }
                }
            }
            continue;
        }
        for prio in perms(n) {
            let (n0, _) = go(&scn, &prio, &[], &mut lin, &mut rec);
            let mut lens: Vec<(u64, usize, u64)> = vec![];
            let mut half: Vec<(u64, usize, u64)> = vec![];
            for s1 in 1..=n0 {
                for t1 in 0..n {
                    let (n1, inside) = go(&scn, &prio, &[(s1, t1)], &mut lin, &mut rec);
                    lens.push((s1, t1, n1));
                    half.extend(inside.iter().filter(|s| **s > s1).map(|s| (s1, t1, *s)));
                }
                if t0.elapsed().as_secs_f64() > a.secs * 1.3 {
                    break;
                }
            }
            if lens.is_empty() {
                continue;
            }
            // back again while a change is half done
            r.shuffle(&mut half);
            for (s1, t1, s2) in half.iter().take(a.p2 / perms(n).len() / n) {
                for t2 in 0..n {
                    go(&scn, &prio, &[(*s1, *t1), (*s2, t2)], &mut lin, &mut rec);
                }
                if t0.elapsed().as_secs_f64() > a.secs * 1.3 {
                    break;
                }
            }
            let total: u64 = lens.iter().map(|(s, _, m)| m.saturating_sub(*s) * n as u64).sum();
            let budget = a.p2 / perms(n).len();
            if total as usize <= budget {
                for (s1, t1, n1) in &lens {
                    for s2 in s1 + 1..=*n1 {
                        for t2 in 0..n {
                            go(&scn, &prio, &[(*s1, *t1), (s2, t2)], &mut lin, &mut rec);
                        }
                    }
                }
            } else {
                for _ in 0..budget {
                    let (s1, t1, n1) = *r.pick(&lens);
                    let s2 = s1 + 1 + r.below(n1.saturating_sub(s1).max(1) as usize) as u64;
                    let t2 = r.below(n);
                    go(&scn, &prio, &[(s1, t1), (s2, t2)], &mut lin, &mut rec);
                    if t0.elapsed().as_secs_f64() > a.secs * 1.3 {
                        break;
                    }
                }
            }
            for _ in 0..a.p3 / perms(n).len() {
                let (s1, t1, n1) = *r.pick(&lens);
                let mut d = vec![(s1, t1)];
                let mut last = s1;
                for _ in 0..2 + r.below(2) {
                    last += 1 + r.below((n1.saturating_sub(last)).max(1) as usize) as u64;
                    d.push((last, r.below(n)));
                }
                go(&scn, &prio, &d, &mut lin, &mut rec);
            }
            // walks: many switches, so that long chains of half-done steps meet
            for _ in 0..a.walk / perms(n).len() {
                let one_in = *r.pick(&[2usize, 4, 10]);
                let d: Vec<(u64, usize)> =
                    (1..=2 * n0).filter_map(|s| (r.below(one_in) == 0).then(|| (s, r.below(n)))).collect();
                go(&scn, &prio, &d, &mut lin, &mut rec);
                if t0.elapsed().as_secs_f64() > a.secs * 1.3 {
                    break;
                }
            }
        }
    }
    std::fs::write(&a.lin, &lin.file).unwrap();
    if !a.rec.is_empty() {
        std::fs::write(&a.rec, &rec.file).unwrap();
    }
    println!(
        "{{\"scenarios\":{},\"schedules\":{},\"steps\":{},\"distinct\":{},\"emitted\":{},\"rec_distinct\":{},\"rec_emitted\":{},\"suspicious\":{},\"tags\":{}}}",
        scns, runs, steps, lin.seen.len(), lin.hist, rec.seen.len(), rec.hist, sus,
        serde_json::to_string(&tags).unwrap()
    );
    let _ = NV;
}
