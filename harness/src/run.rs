//! Deterministic runner of cases and recorder of violations.
use crate::arena::Arena;
use crate::elem::reg;
use crate::env;
use crate::rng::{mix, Rng};
use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};

static PROP: OnceLock<String> = OnceLock::new();
static OWN: Mutex<&'static [&'static str]> = Mutex::new(&["ANY"]);
static OWN_PTR: AtomicUsize = AtomicUsize::new(0);
static N_OWN: AtomicUsize = AtomicUsize::new(0);
static N_FOREIGN: AtomicUsize = AtomicUsize::new(0);
static MSGS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static FOREIGN: Mutex<Vec<String>> = Mutex::new(Vec::new());
static VERBOSE: AtomicBool = AtomicBool::new(false);
static CASE: AtomicU64 = AtomicU64::new(0);
static OPS: AtomicU64 = AtomicU64::new(0);

pub fn prop() -> &'static str {
    PROP.get().map(|s| s.as_str()).unwrap_or("ALL")
}

/// Properties to which ownership errors of elements are attributed in this workload.
pub fn set_own_tags(t: &'static [&'static str]) {
    static SETS: Mutex<Vec<&'static [&'static str]>> = Mutex::new(Vec::new());
    let mut s = SETS.lock().unwrap();
    s.push(t);
    *OWN.lock().unwrap() = t;
    // The pointer is read without the lock in the monitors.
    let b: &'static &'static [&'static str] = Box::leak(Box::new(t));
    OWN_PTR.store(b as *const _ as usize, Relaxed);
}

pub fn own_tags() -> &'static [&'static str] {
    match OWN_PTR.load(Relaxed) {
        0 => &["ANY"],
        p => unsafe { *(p as *const &'static [&'static str]) },
    }
}

/// Properties whose violations leave the containers usable.
const SOFT: &[&str] = &["C08", "C09", "C11", "C20"];

/// Record violation of the listed properties. `ANY` stands for each property: the execution
/// itself is broken (memory is corrupted, operation did not complete).
#[cold]
pub fn report(tags: &[&str], msg: String) {
    let p = prop();
    let own = tags.iter().any(|t| *t == "ANY" || *t == p) || p == "ALL";
    if verbose() {
        eprintln!("   !! {} {:?}: {}", if own { "VIOL" } else { "foreign" }, tags, msg);
    }
    if own {
        N_OWN.fetch_add(1, Relaxed);
        let mut m = MSGS.lock().unwrap();
        if m.len() < 8 {
            m.push(format!("{tags:?} {msg}"));
        }
    } else {
        // Wrong number or place does not endanger the rest of the case: go on, to judge the
        // checked property in it.
        if !tags.iter().all(|t| SOFT.contains(t)) {
            N_FOREIGN.fetch_add(1, Relaxed);
        }
        let mut m = FOREIGN.lock().unwrap();
        if m.len() < 8 {
            m.push(format!("{tags:?} {msg}"));
        }
    }
}

/// Findings which the check lists as known ones, and those which were observed.
static KNOWN: OnceLock<Vec<String>> = OnceLock::new();
static OBSERVED: Mutex<Vec<(&'static str, u64)>> = Mutex::new(Vec::new());

/// Record what may be a known finding: it is a violation unless the finding is listed.
pub fn known(key: &'static str, tags: &[&str], msg: String) {
    if KNOWN.get().is_some_and(|k| k.iter().any(|k| k == key)) {
        crate::note!("   known finding {key}: {msg}");
        let mut o = OBSERVED.lock().unwrap();
        match o.iter_mut().find(|o| o.0 == key) {
            Some(o) => o.1 += 1,
            None => o.push((key, 1)),
        }
    } else {
        report(tags, format!("{msg} [{key}]"));
    }
}

/// Violation of the checked property was recorded.
pub fn failed() -> bool {
    N_OWN.load(Relaxed) > 0
}

/// Any violation was recorded.
pub fn tainted() -> bool {
    failed() || N_FOREIGN.load(Relaxed) > 0
}

pub fn verbose() -> bool {
    VERBOSE.load(Relaxed)
}

#[macro_export]
macro_rules! note {
    ($($t:tt)*) => { if $crate::run::verbose() { eprintln!($($t)*); } };
}

/// Check the condition, report violation of the properties otherwise.
#[macro_export]
macro_rules! want {
    ([$($tag:expr),*], $c:expr, $($t:tt)*) => {
        if !$c { $crate::run::report(&[$($tag),*], format!($($t)*)); }
    };
}

/// Context of one case.
pub struct Ctx {
    pub rng: Rng,
    pub case: u64,
    /// Signature of what the case did.
    sig: u64,
    /// Effective steps: those that the monitors could judge.
    pub steps: u64,
    /// Arena of the base scope.
    pub a0: &'static Arena,
    /// Arenas of inner scopes.
    pub arenas: Vec<&'static Arena>,
    pub scale: usize,
    pub counters: Vec<(&'static str, u64)>,
}

impl Ctx {
    pub fn sig(&mut self, v: u64) {
        self.sig = mix(self.sig ^ v);
    }
    /// One step of the case with its kind and shape.
    pub fn step(&mut self, kind: u64, shape: u64) {
        self.steps += 1;
        OPS.fetch_add(1, Relaxed);
        self.sig(kind << 32 | shape);
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        match self.counters.iter_mut().find(|c| c.0 == name) {
            Some(c) => c.1 += n,
            None => self.counters.push((name, n)),
        }
    }
}

/// Check that a case left nothing: elements and blocks of the base arena.
pub fn settle(cx: &mut Ctx, elem_tags: &[&str], block_tags: &[&str], exp_elems: isize, exp_blocks: isize) {
    let live = reg().live;
    want_live(elem_tags, live, exp_elems);
    let blocks = cx.a0.live_blocks();
    if blocks != exp_blocks {
        report(
            block_tags,
            format!(
                "{blocks} blocks remain allocated after all the owners are gone, expected {exp_blocks} (sizes {:?})",
                cx.a0.leaks()
            ),
        );
    }
}

pub fn want_live(tags: &[&str], live: isize, exp: isize) {
    if live > exp {
        report(tags, format!("{} elements are leaked", live - exp));
    }
    if live < exp {
        report(tags, format!("{} elements are dropped while owned", exp - live));
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// The workload has threads: hang detection counts the case as a whole.
    pub arenas: usize,
}

struct Args {
    seed: u64,
    start: u64,
    step: u64,
    cases: u64,
    scale: usize,
    time: f64,
    one: Option<u64>,
}

fn parse(args: &[String]) -> Args {
    let mut a = Args { seed: 1, start: 0, step: 1, cases: 100, scale: 1, time: 1e9, one: None };
    let mut i = 0;
    let mut p = "ALL".to_string();
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        let n = || v.parse::<u64>().expect("number");
        match args[i].as_str() {
            "--prop" => p = v.clone(),
            "--suite" => {}
            "--seed" => a.seed = n(),
            "--start" => a.start = n(),
            "--step" => a.step = n(),
            "--cases" => a.cases = n(),
            "--scale" => a.scale = n() as usize,
            "--time" => a.time = v.parse().unwrap(),
            "--known" => drop(KNOWN.set(v.split(',').map(|s| s.to_string()).collect())),
            "--case" => a.one = Some(n()),
            "--verbose" => {
                VERBOSE.store(true, Relaxed);
                i += 1;
                continue;
            }
            x => panic!("unknown argument {x}"),
        }
        i += 2;
    }
    let _ = PROP.set(p);
    a
}

#[cfg(not(miri))]
mod sys {
    use super::*;
    extern "C" {
        fn signal(sig: i32, h: usize) -> usize;
        fn raise(sig: i32) -> i32;
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    }
    fn put(s: &str) {
        unsafe { write(1, s.as_ptr(), s.len()) };
    }
    fn put_num(mut v: u64) {
        let mut b = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            b[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        put(std::str::from_utf8(&b[i..]).unwrap_or(""));
    }
    extern "C" fn on_signal(sig: i32) {
        put("\nCRASH signal=");
        put_num(sig as u64);
        put(" case=");
        put_num(CASE.load(Relaxed));
        put("\n");
        unsafe {
            signal(sig, 0);
            raise(sig);
        }
    }
    pub fn cpu_time() -> f64 {
        let mut t = [0i64; 2];
        // CLOCK_PROCESS_CPUTIME_ID
        unsafe { clock_gettime(2, &mut t) };
        t[0] as f64 + t[1] as f64 * 1e-9
    }
    pub fn init() {
        for s in [4, 6, 7, 8, 11] {
            unsafe { signal(s, on_signal as extern "C" fn(i32) as usize) };
        }
        if !cfg!(feature = "sysalloc") {
            // RLIMIT_AS
            let l = [3u64 << 30; 2];
            unsafe { setrlimit(9, &l) };
        }
        // An operation which burns this much CPU time does not terminate: usual one takes
        // microseconds. CPU time is used as it does not depend on the load of the machine.
        std::thread::spawn(|| {
            let mut last = (CASE.load(Relaxed), OPS.load(Relaxed));
            let mut since = cpu_time();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let cur = (CASE.load(Relaxed), OPS.load(Relaxed));
                let now = cpu_time();
                if cur != last {
                    last = cur;
                    since = now;
                } else if now - since > 15.0 {
                    put("\nHANG case=");
                    put_num(CASE.load(Relaxed));
                    put("\n");
                    std::process::exit(1);
                }
            }
        });
    }
}

fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// Entry point of a workload binary.
pub fn main_run(suite: &'static str, n_arenas: usize, f: fn(&mut Ctx)) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a = parse(&args);
    #[cfg(not(miri))]
    sys::init();
    env::init_env();
    static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        if verbose() {
            eprintln!("   (panic: {i})");
        }
        if !cfg!(miri) {
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = i.to_string();
        }
    }));

    let arenas: Vec<&'static Arena> = (0..n_arenas.max(1)).map(|i| Arena::leak(i as u32)).collect();
    let started = std::time::Instant::now();
    let mut sigs: HashSet<u64> = HashSet::new();
    let (mut ran, mut nontrivial, mut steps, mut events, mut elems) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut counters: Vec<(&'static str, u64)> = Vec::new();
    let list: Box<dyn Iterator<Item = u64>> = match a.one {
        Some(c) => Box::new(std::iter::once(c)),
        None => Box::new((0..a.cases).map(|i| a.start + i * a.step)),
    };
    let mut bad = None;
    for case in list {
        if !cfg!(miri) && started.elapsed().as_secs_f64() > a.time {
            break;
        }
        CASE.store(case, Relaxed);
        for ar in &arenas {
            ar.reset();
        }
        reg().reset();
        env::set_base(arenas[0]);
        env::reset_env();
        let mut cx = Ctx {
            rng: Rng::for_case(suite, a.seed, case),
            case,
            sig: 0,
            steps: 0,
            a0: arenas[0],
            arenas: arenas.clone(),
            scale: a.scale,
            counters: Vec::new(),
        };
        N_FOREIGN.store(0, Relaxed);
        note!("== suite {suite} seed {} case {case} property {}", a.seed, prop());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx)));
        if r.is_err() {
            let m = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            if m.contains("HARNESS") {
                println!("HARNESS {m} case={case}");
                std::process::exit(3);
            }
            report(&["ANY"], format!("unexpected panic: {m}"));
        }
        for ar in &arenas {
            ar.audit();
            events += ar.events() as u64;
        }
        ran += 1;
        steps += cx.steps;
        elems += reg().created;
        for (k, v) in cx.counters.iter() {
            match counters.iter_mut().find(|c| c.0 == *k) {
                Some(c) => c.1 += v,
                None => counters.push((k, *v)),
            }
        }
        if cx.steps >= 2 {
            nontrivial += 1;
            sigs.insert(cx.sig);
        }
        if failed() {
            bad = Some(case);
            break;
        }
    }
    let mut out = format!(
        "{{\"suite\":{},\"seed\":{},\"cases\":{ran},\"nontrivial\":{nontrivial},\"distinct\":{},\"steps\":{steps},\"alloc_events\":{events},\"elements\":{elems}",
        json_str(suite), a.seed, sigs.len()
    );
    if !cfg!(miri) {
        let mut s: Vec<String> = sigs.iter().map(|v| format!("{}", v & 0xFFFF_FFFF_FFFF)).collect();
        s.truncate(200_000);
        out += &format!(",\"sigs\":[{}]", s.join(","));
    }
    out += &format!(
        ",\"counters\":{{{}}}",
        counters.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")
    );
    let fm = FOREIGN.lock().unwrap();
    out += &format!(",\"foreign\":[{}]", fm.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    let ob = OBSERVED.lock().unwrap();
    out += &format!(",\"known\":{{{}}}", ob.iter().map(|o| format!("{}:{}", json_str(o.0), o.1)).collect::<Vec<_>>().join(","));
    if let Some(c) = bad {
        let m = MSGS.lock().unwrap();
        out += &format!(
            ",\"violation\":{{\"case\":{c},\"messages\":[{}]}}",
            m.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
        );
    }
    out.push('}');
    println!("RESULT {out}");
    let _ = std::io::stdout().flush();
    // Skip destructors of leaked state.
    std::process::exit(if bad.is_some() { 1 } else { 0 });
}
