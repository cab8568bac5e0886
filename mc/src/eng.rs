//! Exploration engine: guarded calls into the implementation, exhaustive parallel
//! iteration over a work list, violation recording, replay artefacts and evidence.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- the operations
pub const FN_NAMES: [&str; 12] = ["pt", "ph", "ps", "hs", "pv", "tv", "th", "ts", "px", "tx", "hx", "sx"];
pub const PT: usize = 0;
pub const PH: usize = 1;
pub const PS: usize = 2;
pub const HS: usize = 3;
pub const PV: usize = 4;
pub const TV: usize = 5;
pub const TH: usize = 6;
pub const TS: usize = 7;
pub const PX: usize = 8;
pub const TX: usize = 9;
pub const HX: usize = 10;
pub const SX: usize = 11;
/// the two property ids a function takes
pub const IN: [(i32, i32); 12] =
    [(0, 1), (0, 4), (0, 5), (4, 5), (0, 3), (1, 3), (1, 4), (1, 5), (0, 15), (1, 15), (4, 15), (5, 15)];
pub const NOREG: i32 = i32::MIN + 7; // no region argument

fn raw(f: usize, a: f64, b: f64, o: i32, reg: i32) -> f64 {
    use seuif97::*;
    if reg == NOREG {
        match f {
            PT => pt(a, b, o),
            PH => ph(a, b, o),
            PS => ps(a, b, o),
            HS => hs(a, b, o),
            PV => pv(a, b, o),
            TV => tv(a, b, o),
            TH => th(a, b, o),
            TS => ts(a, b, o),
            PX => px(a, b, o),
            TX => tx(a, b, o),
            HX => hx(a, b, o),
            _ => sx(a, b, o),
        }
    } else {
        match f {
            PT => pt(a, b, (o, reg)),
            PH => ph(a, b, (o, reg)),
            PS => ps(a, b, (o, reg)),
            HS => hs(a, b, (o, reg)),
            PV => pv(a, b, (o, reg)),
            TV => tv(a, b, (o, reg)),
            TH => th(a, b, (o, reg)),
            TS => ts(a, b, (o, reg)),
            PX => px(a, b, o),
            TX => tx(a, b, o),
            HX => hx(a, b, o),
            _ => sx(a, b, o),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Call {
    pub f: usize,
    pub a: f64,
    pub b: f64,
    pub o: i32,
    pub reg: i32,
}
impl Call {
    pub fn new(f: usize, a: f64, b: f64, o: i32) -> Call {
        Call { f, a, b, o, reg: NOREG }
    }
    pub fn run(&self) -> f64 {
        callr(self.f, self.a, self.b, self.o, self.reg)
    }
    pub fn text(&self) -> String {
        if self.reg == NOREG {
            format!("{}({:?},{:?},{})", FN_NAMES[self.f], self.a, self.b, self.o)
        } else {
            format!("{}({:?},{:?},({},{}))", FN_NAMES[self.f], self.a, self.b, self.o, self.reg)
        }
    }
    /// with the value the call returns now, unless it does not return
    pub fn json(&self, returns: bool) -> String {
        let v = if returns { format!("\"{:016x}\"", self.run().to_bits()) } else { "null".into() };
        format!(
            "{{\"value_bits\":{v},\"fn\":\"{}\",\"a_bits\":\"{:016x}\",\"b_bits\":\"{:016x}\",\"o\":{},\"reg\":{},\"text\":{}}}",
            FN_NAMES[self.f], self.a.to_bits(), self.b.to_bits(), self.o,
            if self.reg == NOREG { "null".to_string() } else { self.reg.to_string() },
            jstr(&self.text())
        )
    }
}

// ------------------------------------------------- per-thread record of the running call
#[repr(C)]
pub struct Slot {
    pub seq: AtomicU64, // odd while a call is running
    f: AtomicU64,
    a: AtomicU64,
    b: AtomicU64,
    or: AtomicU64,
    pad: [u64; 3],
}
pub const NSLOT: usize = 64;
static SLOTS: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MY: Cell<*const Slot> = const { Cell::new(std::ptr::null()) };
    static INCALL: Cell<bool> = const { Cell::new(false) };
    static PANICS: RefCell<Vec<(Call, String)>> = const { RefCell::new(Vec::new()) };
}
pub fn slots() -> &'static [Slot] {
    unsafe { std::slice::from_raw_parts(SLOTS.load(Relaxed) as *const Slot, NSLOT) }
}
pub fn init_slots() {
    unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(), NSLOT * std::mem::size_of::<Slot>(), libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0,
        );
        assert!(m != libc::MAP_FAILED);
        SLOTS.store(m as usize, SeqCst);
    }
}
impl Slot {
    pub fn call(&self) -> Call {
        let or = self.or.load(Relaxed);
        Call {
            f: self.f.load(Relaxed) as usize,
            a: f64::from_bits(self.a.load(Relaxed)),
            b: f64::from_bits(self.b.load(Relaxed)),
            o: (or >> 32) as i32,
            reg: or as u32 as i32,
        }
    }
}
fn my_slot() -> &'static Slot {
    let p = MY.with(|m| m.get());
    if p.is_null() {
        let i = NEXT.fetch_add(1, Relaxed) % NSLOT;
        let p = &slots()[i] as *const Slot;
        MY.with(|m| m.set(p));
        return unsafe { &*p };
    }
    unsafe { &*p }
}
/// value a call is given when it panicked (a quiet NaN with a payload)
pub const PANICKED: u64 = 0x7ff8_dead_0000_0001;

pub fn callr(f: usize, a: f64, b: f64, o: i32, reg: i32) -> f64 {
    let s = my_slot();
    s.f.store(f as u64, Relaxed);
    s.a.store(a.to_bits(), Relaxed);
    s.b.store(b.to_bits(), Relaxed);
    s.or.store(((o as u32 as u64) << 32) | reg as u32 as u64, Relaxed);
    s.seq.fetch_add(1, Relaxed);
    INCALL.with(|i| i.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| raw(f, a, b, o, reg)));
    INCALL.with(|i| i.set(false));
    s.seq.fetch_add(1, Relaxed);
    match r {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            PANICS.with(|p| {
                let mut p = p.borrow_mut();
                if p.len() < 50 {
                    p.push((Call { f, a, b, o, reg }, m.unwrap_or_default()))
                }
            });
            f64::from_bits(PANICKED)
        }
    }
}
/// run foreign code that stands for the call `c` under the watch of the supervisor
pub fn guarded(c: &Call, g: impl FnOnce() -> f64) -> f64 {
    let s = my_slot();
    s.f.store(c.f as u64, Relaxed);
    s.a.store(c.a.to_bits(), Relaxed);
    s.b.store(c.b.to_bits(), Relaxed);
    s.or.store(((c.o as u32 as u64) << 32) | c.reg as u32 as u64, Relaxed);
    s.seq.fetch_add(1, Relaxed);
    let v = g();
    s.seq.fetch_add(1, Relaxed);
    v
}
pub fn call(f: usize, a: f64, b: f64, o: i32) -> f64 {
    callr(f, a, b, o, NOREG)
}

// ------------------------------------------------------------------ results
#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub calls: Vec<Call>,
    pub msg: String,
}
#[derive(Default)]
pub struct Local {
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub skipped: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub worst: BTreeMap<String, (f64, String)>,
    pub viols: Vec<Viol>,
    pub nviol: u64,
    pub kinds: BTreeMap<String, u64>,
}
impl Local {
    pub fn viol(&mut self, kind: &str, calls: &[Call], msg: String) {
        self.nviol += 1;
        let k = self.kinds.entry(kind.to_string()).or_insert(0);
        *k += 1;
        if *k <= 3 {
            self.viols.push(Viol { kind: kind.into(), calls: calls.to_vec(), msg });
        }
    }
    pub fn outcome(&mut self, k: String) {
        *self.outcomes.entry(k).or_insert(0) += 1;
    }
    pub fn skip(&mut self, k: &str) {
        if let Some(x) = self.skipped.get_mut(k) {
            *x += 1
        } else {
            self.skipped.insert(k.into(), 1);
        }
    }
    /// remember the largest deviation seen per class
    pub fn worst(&mut self, k: &str, e: f64, at: impl FnOnce() -> String) {
        match self.worst.get_mut(k) {
            Some(w) => {
                if !(e <= w.0) {
                    *w = (e, at())
                }
            }
            None => {
                self.worst.insert(k.into(), (e, at()));
            }
        }
    }
    pub fn merge(&mut self, o: Local) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.validated += o.validated;
        self.nviol += o.nviol;
        for (k, v) in o.skipped {
            *self.skipped.entry(k).or_insert(0) += v
        }
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v
        }
        for (k, v) in o.worst {
            self.worst(&k, v.0, || v.1.clone())
        }
        for (k, v) in o.kinds {
            *self.kinds.entry(k).or_insert(0) += v
        }
        for v in o.viols {
            if self.viols.iter().filter(|w| w.kind == v.kind).count() < 3 {
                self.viols.push(v)
            }
        }
    }
}
pub static STOP: AtomicBool = AtomicBool::new(false);
pub static INCOMPLETE: AtomicBool = AtomicBool::new(false);
static DEADLINE: Mutex<Option<Instant>> = Mutex::new(None);
pub fn set_deadline(s: u64) {
    *DEADLINE.lock().unwrap() = Some(Instant::now() + Duration::from_secs(s));
}

/// run `f` on every item, on all cores, and merge what the workers found
pub fn explore<T: Sync>(items: &[T], f: impl Fn(&T, &mut Local) + Sync) -> Local {
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Local::default());
    let dl = *DEADLINE.lock().unwrap();
    let nt = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let chunk = (items.len() / (nt * 64)).clamp(1, 256);
    std::thread::scope(|sc| {
        for _ in 0..nt {
            sc.spawn(|| {
                let mut l = Local::default();
                loop {
                    let i = next.fetch_add(chunk, Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    if STOP.load(Relaxed) {
                        break;
                    }
                    if let Some(d) = dl {
                        if Instant::now() > d {
                            INCOMPLETE.store(true, Relaxed);
                            break;
                        }
                    }
                    for it in &items[i..(i + chunk).min(items.len())] {
                        f(it, &mut l);
                    }
                    drain_panics(&mut l);
                    if l.nviol > 20000 {
                        STOP.store(true, Relaxed)
                    }
                }
                total.lock().unwrap().merge(l);
            });
        }
    });
    total.into_inner().unwrap()
}
pub fn drain_panics(l: &mut Local) {
    PANICS.with(|p| {
        for (c, m) in p.borrow_mut().drain(..) {
            l.viol("panic", &[c], format!("{} panicked: {}", c.text(), m));
        }
    });
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if !INCALL.with(|c| c.get()) {
            eprintln!("engine error: {i}");
            std::process::exit(2);
        }
    }));
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Run {
    pub prop: String,
    pub tier: String,
    pub seed: i64,
    pub t0: Instant,
}
fn sanitize(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(40).collect()
}
impl Run {
    pub fn write_replay(&self, v: &Viol, n: usize) -> String {
        let dir = "/verif/replays";
        let _ = std::fs::create_dir_all(dir);
        let path = format!("{dir}/{}_{}_{n}.json", self.prop, sanitize(&v.kind));
        // in a process of its own: the calls are made again, in a fresh state, to record their values
        unsafe {
            let pid = libc::fork();
            if pid > 0 {
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                return path;
            }
            libc::alarm(30);
        }
        let calls: Vec<String> = v.calls.iter().map(|c| c.json(v.kind != "hang" && v.kind != "crash")).collect();
        let s = format!(
            "{{\"property\":\"{}\",\"kind\":{},\"message\":{},\"calls\":[{}],\"replay\":\"cd /verif && ./check replay {}\"}}\n",
            self.prop, jstr(&v.kind), jstr(&v.msg), calls.join(","), path
        );
        let _ = std::fs::write(&path, s);
        unsafe { libc::_exit(0) }
    }
    /// print the verdict, write the evidence, return the exit code
    pub fn finish(&self, l: &Local, extra: &[(&str, String)], samples: u64, exhaustive: bool, assumptions: &[&str]) -> i32 {
        let inc = INCOMPLETE.load(Relaxed);
        println!(
            "{} {}: states={} transitions={} validated={} distinct_outcomes={} violations={} wall={:.1}s{}",
            self.prop, self.tier, l.states, l.transitions, l.validated, l.outcomes.len(), l.nviol,
            self.t0.elapsed().as_secs_f64(), if inc { " (deadline reached: NOT exhaustive)" } else { "" }
        );
        for (k, v) in &l.outcomes {
            println!("  outcome {k}: {v}");
        }
        for (k, v) in &l.skipped {
            println!("  excluded {k}: {v}");
        }
        if std::env::var("MC_WORST").is_ok() {
            for (k, v) in &l.worst {
                println!("  worst {k}: {:.3e} at {}", v.0, v.1);
            }
        }
        let mut out = String::new();
        out.push_str(&format!(
            "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"samples\":{},\"exhaustive\":{}",
            self.prop, self.tier, self.seed, l.states, l.transitions, l.validated, samples.max(1), exhaustive && !inc
        ));
        out.push_str(&format!(",\"distinct_outcomes\":{}", l.outcomes.len()));
        out.push_str(",\"outcomes\":{");
        out.push_str(&l.outcomes.iter().take(200).map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
        out.push_str("},\"excluded\":{");
        out.push_str(&l.skipped.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
        out.push_str("},\"largest_deviation\":{");
        out.push_str(
            &l.worst.iter().take(300).map(|(k, v)| format!("{}:{{\"value\":{},\"at\":{}}}", jstr(k), jnum(v.0), jstr(&v.1))).collect::<Vec<_>>().join(","),
        );
        out.push('}');
        for (k, v) in extra {
            out.push_str(&format!(",{}:{}", jstr(k), v));
        }
        out.push_str(&format!("}},\"wall_s\":{:.3},\"violations\":{}", self.t0.elapsed().as_secs_f64(), l.nviol));
        out.push_str(&format!(",\"assumptions\":[{}]}}\n", assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
        let _ = std::fs::create_dir_all("/verif/evidence");
        std::fs::write(format!("/verif/evidence/{}.json", self.prop), out).expect("cannot write evidence");
        if l.nviol > 0 {
            for (k, n) in &l.kinds {
                println!("  violation kind {k}: {n}");
            }
            for (i, v) in l.viols.iter().take(std::env::var("MC_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(40)).enumerate() {
                let path = self.write_replay(v, i);
                println!("VIOLATION property={} replay={}", self.prop, path);
                println!("  {}", v.msg);
            }
            return 1;
        }
        if l.states == 0 || l.transitions == 0 {
            println!("engine error: nothing was explored");
            return 2;
        }
        0
    }
}
pub fn jnum(x: f64) -> String {
    if x.is_finite() {
        format!("{:e}", x)
    } else {
        format!("\"{x}\"")
    }
}

/// Run the exploration in a child process; the parent watches for calls that do not
/// return and for crashes of the child.
pub fn supervise(run: &Run, hang_s: u64, total_s: u64, body: impl FnOnce() -> i32) -> i32 {
    init_slots();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        eprintln!("engine error: fork failed");
        return 2;
    }
    if pid == 0 {
        install_panic_hook();
        let c = body();
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(c) }
    }
    let t0 = Instant::now();
    let mut last: Vec<(u64, Instant)> = (0..NSLOT).map(|_| (0, t0)).collect();
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            if libc::WIFEXITED(st) {
                return libc::WEXITSTATUS(st);
            }
            let sig = libc::WTERMSIG(st);
            let act: Vec<Call> = slots().iter().filter(|s| s.seq.load(Relaxed) & 1 == 1).map(|s| s.call()).collect();
            if sig == libc::SIGKILL || act.is_empty() {
                eprintln!("engine error: worker ended by signal {sig}");
                return 2;
            }
            // which of the running calls is it? try each alone
            let bad: Vec<Call> = act.iter().filter(|c| crashes(c)).cloned().collect();
            let cs = if bad.is_empty() { act } else { bad };
            return report_simple(run, "crash", &cs, format!("the process was killed by signal {sig} during {}", cs[0].text()));
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = Instant::now();
        for (i, s) in slots().iter().enumerate() {
            let q = s.seq.load(Relaxed);
            if q != last[i].0 || q & 1 == 0 {
                last[i] = (q, now);
            } else if now - last[i].1 > Duration::from_secs(hang_s) {
                let c = s.call();
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                }
                return report_simple(run, "hang", &[c], format!("{} did not return within {hang_s} s", c.text()));
            }
        }
        if now - t0 > Duration::from_secs(total_s) {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            eprintln!("engine error: exploration did not finish in {total_s} s");
            return 2;
        }
    }
}
fn crashes(c: &Call) -> bool {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            c.run();
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        !libc::WIFEXITED(st)
    }
}
fn report_simple(run: &Run, kind: &str, calls: &[Call], msg: String) -> i32 {
    let mut l = Local::default();
    l.states = 1;
    l.transitions = 1;
    l.viol(kind, calls, msg);
    run.finish(&l, &[], 1, false, &[])
}
