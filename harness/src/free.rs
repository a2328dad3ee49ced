//! Free-running concurrency: the threads of a scenario run truly in parallel,
//! with random pauses at the hook sites.  Invocations and responses are
//! stamped from one global counter, so the merged history orders two calls
//! only if one really ended before the other began.  This reaches the windows
//! between two instructions that contain no hook site at all.
use crate::conc::{exec, header, lin_lines, op_json, run_as, shadow_ok, start, Ev, Scn, Sink, MAXT, WID};
use crate::seq::{HangPanic, Vals, O};
use crate::trees::Tree;
use crate::util::{cur, Rng};
use congee::epoch::Guard;
use congee::verif::Site;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub static ON: AtomicBool = AtomicBool::new(false);
static ABORT: AtomicBool = AtomicBool::new(false);
static STAMP: AtomicU64 = AtomicU64::new(0);
static GEN: AtomicUsize = AtomicUsize::new(0);
static N: AtomicUsize = AtomicUsize::new(0);
static READY: AtomicUsize = AtomicUsize::new(0);
static FIN1: AtomicUsize = AtomicUsize::new(0);
static FIN2: AtomicUsize = AtomicUsize::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
type Job = Option<(usize, Arc<Tree>)>; // scenario address
static JOB: Mutex<Job> = Mutex::new(None);
static LOGS: Mutex<Vec<(u64, Ev)>> = Mutex::new(Vec::new());
static mut TH: Vec<std::thread::Thread> = Vec::new();
const GIVE_UP_SECS: u64 = 25;

thread_local! {
    static LOG: RefCell<Vec<(u64, Ev)>> = const { RefCell::new(Vec::new()) };
    static RNG: Cell<u64> = const { Cell::new(1) };
    static NOISE: Cell<u64> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static T0: Cell<Option<Instant>> = const { Cell::new(None) };
}

pub fn log(e: Ev) {
    let bad = matches!(e, Ev::Pan(..));
    let n = STAMP.fetch_add(1, SeqCst);
    LOG.with(|l| l.borrow_mut().push((n, e)));
    if bad {
        // a lock may be lost: the others need not wait for it
        ABORT.store(true, SeqCst);
    }
}

pub fn hook(_s: Site) {
    let n = STEPS.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    if ABORT.load(Relaxed) && !std::thread::panicking() {
        std::panic::panic_any(HangPanic);
    }
    let x = RNG.with(|r| {
        let mut x = r.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r.set(x);
        x
    });
    match NOISE.with(|n| n.get()) {
        0 => {}
        1 => {
            if x & 31 == 0 {
                for _ in 0..(x >> 8) & 127 {
                    std::hint::spin_loop();
                }
            }
        }
        _ => {
            if x & 15 == 0 {
                for _ in 0..(x >> 8) & 511 {
                    std::hint::spin_loop();
                }
            }
            if x & 0x3ff0 == 0 {
                std::thread::yield_now();
            }
        }
    }
    if n & 0x3fff == 0 {
        if let Some(t) = T0.with(|t| t.get()) {
            if t.elapsed().as_secs() >= GIVE_UP_SECS && !std::thread::panicking() {
                let me = WID.with(|w| w.get()) as u8;
                let n = STAMP.fetch_add(1, SeqCst);
                LOG.with(|l| l.borrow_mut().push((n, Ev::Stuck(me))));
                ABORT.store(true, SeqCst);
                std::panic::panic_any(HangPanic);
            }
        }
    }
}

fn meet(c: &AtomicUsize, n: usize) {
    c.fetch_add(1, SeqCst);
    let mut i = 0u32;
    while c.load(SeqCst) < n {
        i += 1;
        if i > 2000 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

fn program(me: usize, scn: &Scn, tree: &Tree, vals: &Vals) {
    let mut g: Option<Guard> = None;
    if !scn.per_op[me] {
        g = Some(tree.pin());
    }
    for (i, p) in scn.th[me].iter().enumerate() {
        if ABORT.load(Relaxed) {
            break;
        }
        match p.o {
            O::Flush => congee::epoch::pin().flush(),
            O::Repin => {
                drop(g.take());
                g = Some(tree.pin());
            }
            O::Unpin => drop(g.take()),
            _ => {
                let tmp = g.is_none();
                if tmp {
                    g = Some(tree.pin());
                }
                STEPS.with(|s| s.set(0));
                T0.with(|t| t.set(Some(Instant::now())));
                log(Ev::Inv(me as u8, i));
                exec(tree, scn, vals, p, g.as_ref().unwrap(), me as u8);
                if tmp && scn.per_op[me] {
                    g = None;
                }
            }
        }
    }
}

fn worker(me: usize) {
    WID.with(|w| w.set(me));
    let vals = Vals::new();
    let mut last = 0;
    loop {
        let mut i = 0u32;
        while GEN.load(SeqCst) == last {
            i += 1;
            if i > 3000 {
                std::thread::park();
            } else {
                std::hint::spin_loop();
            }
        }
        last = GEN.load(SeqCst);
        let n = N.load(SeqCst);
        if me >= n {
            continue;
        }
        let (a, tree) = JOB.lock().unwrap().clone().unwrap();
        let scn: &Scn = unsafe { &*(a as *const Scn) };
        let sd = SEED.load(SeqCst);
        RNG.with(|r| r.set(sd.wrapping_mul(2 * me as u64 + 3) | 1));
        NOISE.with(|x| x.set(sd % 3));
        meet(&READY, n);
        // a little stagger, different each time
        for _ in 0..(sd >> (8 + 8 * me)) & 0x3f {
            std::hint::spin_loop();
        }
        let _ = catch_unwind(AssertUnwindSafe(|| program(me, scn, &tree, &vals)));
        drop(tree);
        LOG.with(|l| LOGS.lock().unwrap_or_else(|e| e.into_inner()).append(&mut l.borrow_mut()));
        meet(&FIN1, n);
        for _ in 0..3 {
            congee::epoch::pin().flush();
        }
        FIN2.fetch_add(1, SeqCst);
    }
}

/// Runs the programs; the merged history, and whether it was broken off.
#[allow(static_mut_refs)]
pub fn go(scn: &Scn, tree: &Arc<Tree>, seed: u64) -> (Vec<Ev>, bool) {
    ABORT.store(false, SeqCst);
    ON.store(true, SeqCst);
    *JOB.lock().unwrap() = Some((scn as *const Scn as usize, tree.clone()));
    LOGS.lock().unwrap().clear();
    READY.store(0, SeqCst);
    FIN1.store(0, SeqCst);
    FIN2.store(0, SeqCst);
    SEED.store(seed, SeqCst);
    let n = scn.th.len();
    N.store(n, SeqCst);
    GEN.fetch_add(1, SeqCst);
    for t in unsafe { TH.iter() } {
        t.unpark();
    }
    let mut i = 0u32;
    while FIN2.load(SeqCst) < n {
        i += 1;
        if i > 2000 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
    *JOB.lock().unwrap() = None;
    ON.store(false, SeqCst);
    let mut l = std::mem::take(&mut *LOGS.lock().unwrap());
    l.sort_by_key(|x| x.0);
    let bad = ABORT.swap(false, SeqCst);
    (l.into_iter().map(|x| x.1).collect(), bad)
}

pub struct Args {
    pub focus: String,
    pub seed: u64,
    pub lin: String,
    pub emit: usize,
    pub secs: f64,
    pub tours: String,
}

pub fn main(a: &Args) {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VH_DEBUG").is_ok() {
            eprintln!("{} {:?}", i, i.payload().downcast_ref::<&str>());
        }
    }));
    cur::install(&format!("{}.crash", a.lin), 90);
    start(usize::MAX);
    for i in 0..MAXT {
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || worker(i)).unwrap();
        #[allow(static_mut_refs)]
        unsafe {
            TH.push(h.thread().clone())
        };
    }
    let vals = Vals::new();
    let t0 = Instant::now();
    let f = crate::scen::focus(&a.focus);
    let mut lin = Sink::new();
    let (mut scns, mut runs, mut calls, mut sus) = (0usize, 0usize, 0usize, 0usize);
    let mut tags: BTreeMap<String, usize> = BTreeMap::new();
    let mut i = 0u64;
    let tours = if a.tours.is_empty() { vec![] } else { crate::tour::load(&a.tours) };
    while t0.elapsed().as_secs_f64() < a.secs && sus < 4 {
        i += 1;
        let mut r = Rng::new(a.seed.wrapping_mul(9_000_011).wrapping_add(i));
        let scn = crate::scen::gen_free(&mut r, &f, &tours);
        let n = scn.th.len();
        scns += 1;
        *tags.entry(scn.tag.split(' ').next().unwrap().to_string()).or_default() += 1;
        cur::clear();
        cur::push(&header(&scn, &[], &[]));
        for (t, th) in scn.th.iter().enumerate() {
            for p in th {
                cur::push(&format!("{{\"o\":\"prog\",\"t\":{},{}}}", t, op_json(p)));
            }
        }
        let reps = if scn.th.iter().all(|t| t.len() <= 3) { 40 } else { 12 };
        let mut shown = 0;
        for _ in 0..reps {
            cur::PROGRESS.fetch_add(1, Relaxed);
            let prio: Vec<usize> = (0..n).collect();
            let o = run_as(&scn, &vals, &prio, &[], false, f.fin, Some(r.next()));
            runs += 1;
            calls += o.lin.iter().filter(|e| matches!(e, Ev::Inv(..))).count();
            let bad = o.fin_bad || !shadow_ok(&scn, &o);
            if bad || (shown < 1 && lin.lines < a.emit) {
                let mut l = lin_lines(&scn, &prio, &[], &o);
                if bad {
                    l[0] = l[0].replacen("\"th\"", "\"sus\":1,\"th\"", 1);
                    sus += 1;
                }
                shown += 1;
                lin.put(&l);
                if bad {
                    break;
                }
            }
        }
    }
    std::fs::write(&a.lin, &lin.file).unwrap();
    println!(
        "{{\"scenarios\":{},\"runs\":{},\"calls\":{},\"emitted\":{},\"suspicious\":{},\"tags\":{}}}",
        scns,
        runs,
        calls,
        lin.hist,
        sus,
        serde_json::to_string(&tags).unwrap()
    );
}
