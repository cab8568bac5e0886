//! C13 (call histories) and C14 (interleavings).
use crate::api::*;
use crate::eng::*;
use crate::refm::*;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering::*};

pub const INST: &str = "/verif/target/conc/x86_64-unknown-linux-gnu/release/libinst.so";
pub const RUNNER: &str = "/verif/target/runner";

/// the crate and the standard library with memory-access callbacks, and the scheduler
pub fn build_conc() -> Result<(), String> {
    let o = Command::new("cargo")
        .args(["+nightly", "build", "-Zbuild-std=core,alloc,std,panic_unwind", "--release", "--offline", "--target", "x86_64-unknown-linux-gnu"])
        .args(["--target-dir", "/verif/target/conc", "--manifest-path", "/verif/conc/inst/Cargo.toml"])
        .env("RUSTFLAGS", "-Zsanitizer=thread -Zexternal-clangrt")
        .env_remove("CARGO_TARGET_DIR")
        .env("CARGO_NET_OFFLINE", "true")
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("instrumented build failed: {}", String::from_utf8_lossy(&o.stderr)));
    }
    let o = Command::new("gcc").args(["-O2", "-rdynamic", "/verif/conc/runner.c", "-o", RUNNER, "-ldl", "-lpthread"]).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("runner: {}", String::from_utf8_lossy(&o.stderr)));
    }
    Ok(())
}
/// calls that cover every evaluation path: pair x region x kind of property, shared values
/// between neighbouring calls, named regions, error calls
pub fn alphabet(big: bool) -> Vec<Call> {
    let mut v = vec![];
    let ids: &[i32] = if big { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 99] } else { &[0, 1, 3, 4, 5, 8, 10, 15, 16, 17, 24, 26, 30, 33] };
    for (k, i) in representatives().iter().enumerate() {
        for (j, o) in ids.iter().enumerate() {
            if big || (k + j) % 3 == 0 {
                v.push(Call::new(i.f, i.a, i.b, *o));
            }
        }
        if i.f < 8 && i.r > 0 {
            v.push(Call { f: i.f, a: i.a, b: i.b, o: 4, reg: i.r });
        }
    }
    // every property of one state of every region, by (p,t), and of a wet state
    for (k, (p, t)) in [(3.0, 120.0), (1.0, 100.0), (0.1, 450.0), (12.0, 600.0), (30.0, 420.0), (24.0, 380.0), (2.0, 1000.0)].into_iter().enumerate() {
        for o in 0..36 {
            if big || k % 2 == 0 || o > 16 {
                v.push(Call::new(PT, p, t, o));
            }
        }
    }
    for o in 0..36 {
        v.push(Call::new(PX, 2.0, if o < 9 { 0.4 } else { (o % 2) as f64 }, o));
        v.push(Call::new(TX, 360.0, if o < 9 { 0.4 } else { (o % 2) as f64 }, o));
    }
    // the same numbers given to every function, and neighbours of them
    for (a, b) in [(3.0, 300.0), (300.0, 3.0), (0.5, 0.5), (10.0, 1.0), (200.0, 0.5), (25.0, 5.0), (2000.0, 0.3), (5.0, 0.7)] {
        for (da, db) in [(0.0, 0.0), (1e-12, 0.0), (0.0, 1e-12), (1e-7, 1e-7), (1e-3, 0.0), (0.0, 1e-3), (0.25, 0.25)] {
            for f in 0..12 {
                for o in if big { vec![1, 3, 4, 5, 24] } else { vec![if f == TH || f == PH { 5 } else { 4 }, 3] } {
                    v.push(Call::new(f, a * (1.0 + da), b * (1.0 + db), o));
                }
            }
        }
    }
    // one value of a pair shared by calls of different regions
    for p in [3.0, 25.0, 50.0] {
        for t in [27.0, 377.0, 450.0, 600.0, 1200.0] {
            for o in if big { vec![3, 4, 5, 8, 10, 24, 26] } else { vec![4, 10] } {
                v.push(Call::new(PT, p, t, o));
            }
            for st in crate::lat::St::at(p, t + K0) {
                for f in 1..8 {
                    v.push(Call::new(f, st.x(f), st.y(f), if f == TS || f == PS { 4 } else { 5 }));
                }
            }
        }
    }
    for a in [f64::NAN, -1.0, 0.0, 1e9] {
        for f in 0..12 {
            v.push(Call::new(f, a, 1.0, 4));
            v.push(Call::new(f, 1.0, a, 4));
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|c| seen.insert((c.f, c.a.to_bits(), c.b.to_bits(), c.o, c.reg)));
    v
}
pub fn c14(tier: &str) -> Result<Local, String> {
    build_conc()?;
    let mut l = Local::default();
    let thorough = tier == "thorough";
    let al = alphabet(thorough);
    let mut bytes = vec![];
    for c in &al {
        for x in [c.f as i32, c.o, c.reg, 0] {
            bytes.extend(x.to_le_bytes());
        }
        bytes.extend(c.a.to_le_bytes());
        bytes.extend(c.b.to_le_bytes());
    }
    let file = "/verif/target/alphabet.bin";
    std::fs::write(file, bytes).map_err(|e| e.to_string())?;
    let args = if thorough { ["4", "40000", "6000", "600"] } else { ["2", "4000", "600", "240"] };
    let o = Command::new(RUNNER).args([INST, "explore", file]).args(args).output().map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let num = |line: &str, k: &str| line.split_whitespace().find_map(|w| w.strip_prefix(k)?.strip_prefix('=')?.parse::<u64>().ok()).unwrap_or(0);
    let mut finished = false;
    for line in out.lines() {
        if let Some(x) = line.strip_prefix("VIOL\t") {
            let mut w = x.split('\t');
            let (k, s, m) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
            l.viol(&format!("interleaving.{k}"), &[], format!("{m} [schedule {s}]"));
        } else if line.starts_with("total ") {
            finished = true;
            l.states = num(line, "executions");
            l.transitions = num(line, "transitions");
            l.validated = l.states;
            l.outcomes.insert("executions (schedules explored)".into(), l.states);
            l.outcomes.insert("accesses to shared memory seen".into(), num(line, "shared_accesses"));
            l.outcomes.insert("scenarios cut at the schedule limit".into(), num(line, "capped"));
            if num(line, "unexplored") + num(line, "capped") > 0 {
                INCOMPLETE.store(true, Relaxed);
            }
        } else if line.starts_with("alone ") {
            l.outcomes.insert("calls of the alphabet".into(), num(line, "calls"));
            l.outcomes.insert("calls that touch writable shared memory".into(), num(line, "touching_shared_memory"));
            l.outcomes.insert("calls that write shared memory".into(), num(line, "writing_shared_memory"));
        }
    }
    if !finished {
        return Err(format!("runner failed: {} {}", out, String::from_utf8_lossy(&o.stderr)));
    }
    Ok(l)
}
pub fn replay14(msg: &str) -> Result<i32, String> {
    build_conc()?;
    let s = msg.split("[schedule ").nth(1).and_then(|x| x.split(']').next()).ok_or("no schedule in the file")?;
    let o = Command::new(RUNNER).args([INST, "replay", s]).output().map_err(|e| e.to_string())?;
    print!("{}", String::from_utf8_lossy(&o.stdout));
    o.status.code().filter(|c| *c < 2).ok_or("runner failed".into())
}

// ===================================================================== C13
struct Shared {
    p: *mut AtomicU64,
    n: usize,
}
unsafe impl Sync for Shared {}
impl Shared {
    fn new(n: usize) -> Shared {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Shared { p: p as *mut AtomicU64, n }
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        assert!(i < self.n);
        unsafe { &*self.p.add(i) }
    }
}
/// The same value. 1e-14 (45 units in the last place) is left to the compiler: it evaluates calls with constant arguments with other
/// rounding than the processor, so that even a faultless memory of such a value may hold either.
fn eq(a: u64, b: u64) -> bool {
    near(a, b, 1e-14)
}
fn near(a: u64, b: u64, tol: f64) -> bool {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    a == b || a != PANICKED && b != PANICKED && (x.is_nan() && y.is_nan() || (x - y).abs() <= tol * x.abs())
}
/// the same after the amplification of the equations of a state: in long histories
const LONG: f64 = 1e-12;
/// run `f(i)` for every i in a process forked from this pristine one, 8 at a time
fn forks(n: usize, step: usize, f: &dyn Fn(usize)) -> Result<bool, String> {
    let next = Shared::new(1);
    let mut kids = vec![];
    for _ in 0..8 {
        match unsafe { libc::fork() } {
            -1 => return Err("fork".into()),
            0 => {
                unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                loop {
                    let i = next.at(0).fetch_add(step as u64, SeqCst) as usize;
                    if i >= n {
                        break;
                    }
                    let pid = unsafe { libc::fork() };
                    if pid == 0 {
                        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                        for j in i..(i + step).min(n) {
                            f(j);
                        }
                        unsafe { libc::_exit(0) }
                    }
                    let mut st = 0;
                    unsafe { libc::waitpid(pid, &mut st, 0) };
                    if st != 0 {
                        unsafe { libc::_exit(1) }
                    }
                }
                unsafe { libc::_exit(0) }
            }
            p => kids.push(p),
        }
    }
    let mut bad = 0;
    for k in kids {
        let mut st = 0;
        unsafe { libc::waitpid(k, &mut st, 0) };
        bad += (st != 0) as i32;
    }
    Ok(bad == 0)
}
const NV: usize = 64;
struct Found {
    sh: Shared, // count, then (n, up to 6 indices, bits)
}
impl Found {
    fn add(&self, seq: &[usize], bits: u64) {
        let k = self.sh.at(0).fetch_add(1, SeqCst) as usize;
        if k < NV {
            for (i, s) in seq.iter().take(6).enumerate() {
                self.sh.at(1 + k * 8 + 1 + i).store(*s as u64, SeqCst);
            }
            self.sh.at(1 + k * 8 + 7).store(bits, SeqCst);
            self.sh.at(1 + k * 8).store(seq.len().min(6) as u64, SeqCst);
        }
    }
}
/// pairs of inputs whose states are close neighbours: the same pair with one argument moved, or another pair of a moved state
fn near_states() -> Vec<(In, In)> {
    let moved = |x: f64, k: usize| match k {
        0 => f64::from_bits(x.to_bits() + 1),
        1 => x * (1.0 + 1e-12),
        2 => x * (1.0 + 1e-9),
        3 => x * (1.0 + 1e-7),
        4 => x * (1.0 + 1e-6),
        5 => x * (1.0 + 1e-5),
        6 => x * (1.0 + 1e-4),
        _ => x * (1.0 + 1e-3),
    };
    let mut v = vec![];
    for i in representatives() {
        for k in 0..8 {
            v.push((i, In { a: moved(i.a, k), ..i }));
            v.push((i, In { b: moved(i.b, k), ..i }));
        }
    }
    for (p, t) in [(3.0, 300.0), (80.0, 500.0), (0.0035, 700.0), (30.0, 700.0), (60.0, 1000.0), (25.5837018, 650.0), (50.0, 630.0), (30.0, 1500.0)] {
        let Some(st) = crate::lat::St::at(p, t) else { continue };
        for k in 0..8 {
            for (q, u) in [(moved(p, k), t), (p, moved(t, k))] {
                let Some(near) = crate::lat::St::at(q, u) else { continue };
                for f in 0..8 {
                    for g in 0..8 {
                        if f != g {
                            v.push((In { f, a: st.x(f), b: st.y(f), r: st.s.reg }, In { f: g, a: near.x(g), b: near.y(g), r: st.s.reg }));
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn c13(tier: &str) -> Result<Local, String> {
    let mut l = Local::default();
    let thorough = tier == "thorough";
    let al = alphabet(thorough);
    let n = al.len();
    // every call alone, each in a process that has made no call before
    let base = Shared::new(n);
    if !forks(n, 1, &|i| base.at(i).store(al[i].run().to_bits(), SeqCst))? {
        return Err("a single call ended the process (C11)".into());
    }
    let mut whole = true;
    l.states += n as u64;
    let found = Found { sh: Shared::new(1 + NV * 8) };
    let count = Shared::new(1);
    let check = |i: usize, seq: &dyn Fn() -> Vec<usize>| {
        let v = al[i].run().to_bits();
        if !eq(v, base.at(i).load(Relaxed)) {
            found.add(&seq(), v);
        }
    };
    let check_long = |i: usize| {
        let v = al[i].run().to_bits();
        if !near(v, base.at(i).load(Relaxed), LONG) {
            found.add(&[i], v);
        }
    };
    // all sequences a b a (and so all a b), each first call in a process of its own
    whole &= forks(n, 1, &|a| {
        al[a].run();
        for b in 0..n {
            check(b, &|| if b == 0 { vec![a, b] } else { vec![a, b - 1, a, b] });
            check(a, &|| if b == 0 { vec![a, b, a] } else { vec![a, b - 1, a, b, a] });
        }
        count.at(0).fetch_add(2 * n as u64 + 1, SeqCst);
    })?;
    // all triples over every kth call; a b in a process of its own
    let k3 = if thorough { n / 220 } else { n / 90 }.max(1);
    let a3: Vec<usize> = (0..n).step_by(k3).collect();
    let m = a3.len();
    whole &= forks(m * m, 1, &|i| {
        let (a, b) = (a3[i / m], a3[i % m]);
        for &c in &a3 {
            al[a].run();
            al[b].run();
            check(c, &|| vec![a, b, c]);
        }
        count.at(0).fetch_add(3 * m as u64, SeqCst);
    })?;
    // sequences of four over fewer calls
    let k4 = if thorough { n / 40 } else { n / 18 }.max(1);
    let a4: Vec<usize> = (3..n).step_by(k4).collect();
    let q = a4.len();
    whole &= forks(q * q, 1, &|i| {
        let (a, b) = (a4[i / q], a4[i % q]);
        for &c in &a4 {
            for &d in &a4 {
                al[a].run();
                al[b].run();
                al[c].run();
                check(d, &|| vec![a, b, c, d]);
            }
        }
        count.at(0).fetch_add(4 * (q * q) as u64, SeqCst);
    })?;
    // a state and a close neighbour of it, through the same or another pair, every property: either order
    let pairs = near_states();
    let np = pairs.len();
    let id = |o: usize| o as i32;
    let first = Shared::new(np * 72);
    let second = Shared::new(np * 72);
    whole &= forks(np * 2, 1, &|k| {
        let (i, swap) = (k / 2, k % 2);
        let (x, y) = pairs[i];
        let two = if swap == 0 { [x, y] } else { [y, x] };
        for o in 0..36 {
            first.at(i * 72 + swap * 36 + o).store(Call::new(two[0].f, two[0].a, two[0].b, id(o)).run().to_bits(), SeqCst);
        }
        for o in 0..36 {
            second.at(i * 72 + (1 - swap) * 36 + o).store(Call::new(two[1].f, two[1].a, two[1].b, id(o)).run().to_bits(), SeqCst);
        }
        count.at(0).fetch_add(72, SeqCst);
    })?;
    let mut nnear = 0u64;
    for i in 0..np {
        let (x, y) = pairs[i];
        for w in 0..2 {
            for o in 0..36 {
                let (alone, after) = (first.at(i * 72 + w * 36 + o).load(SeqCst), second.at(i * 72 + w * 36 + o).load(SeqCst));
                if eq(alone, after) || !whole {
                    continue;
                }
                nnear += 1;
                if nnear > 8 {
                    continue;
                }
                let (u, v) = if w == 0 { (y, x) } else { (x, y) };
                let last = Call::new(v.f, v.a, v.b, id(o));
                let mut seq = vec![Call::new(u.f, u.a, u.b, id(o)), last];
                let bits = Shared::new(1);
                forks(1, 1, &|_| {
                    seq[0].run();
                    bits.at(0).store(seq[1].run().to_bits(), SeqCst);
                })?;
                if eq(bits.at(0).load(SeqCst), alone) {
                    seq = (0..36).map(|o| Call::new(u.f, u.a, u.b, o)).chain((0..=o).map(|o| Call::new(v.f, v.a, v.b, id(o)))).collect();
                }
                let how = if seq.len() == 2 { format!("after {}", seq[0].text()) } else { format!("after every property of {}", seq[0].text()) };
                l.viol(&format!("history.neighbour.{}", FN_NAMES[last.f]), &seq, format!("{} {how} gives {:?}, alone {:?}", last.text(), f64::from_bits(after), f64::from_bits(alone)));
            }
        }
    }
    // histories of very many different states: tables and caches that fill up and start again
    let mut fill = vec![];
    for (k, i) in inputs(if thorough { "mid" } else { "small" }, "small").iter().enumerate() {
        fill.push(Call::new(i.f, i.a, i.b, [4, 0, 3, 1, 5, 8, 10, 15, 24, 26, 13][k % 11]));
    }
    let most = if thorough { 400_000 } else { 60_000 };
    let every = fill.len().div_ceil(most).max(1);
    let fill: Vec<Call> = fill.into_iter().step_by(every).collect();
    let nf = fill.len();
    let fbase = Shared::new(nf);
    whole &= forks(nf, 1, &|i| fbase.at(i).store(fill[i].run().to_bits(), SeqCst))?;
    let late = Shared::new(2 + 2 * 8);
    whole &= forks(8, 1, &|w| {
        let stride = [1, nf - 1, 7, 11, 13, 101, 997, 9973][w];
        let (mut i, mut j) = (w * nf / 8, w * n / 8);
        for _ in 0..2 * nf {
            let v = fill[i].run().to_bits();
            if !near(v, fbase.at(i).load(Relaxed), LONG) {
                let k = late.at(0).fetch_add(1, SeqCst);
                if k < 8 {
                    late.at(2 + 2 * k as usize).store(i as u64, SeqCst);
                    late.at(3 + 2 * k as usize).store(v, SeqCst);
                }
            }
            check_long(j);
            i = (i + stride) % nf;
            j = (j + 1) % n;
        }
        count.at(0).fetch_add(4 * nf as u64, SeqCst);
    })?;
    let nlate = late.at(0).load(SeqCst);
    if whole {
        for k in 0..(nlate as usize).min(8) {
            let c = fill[late.at(2 + 2 * k).load(SeqCst) as usize];
            let (got, want) = (f64::from_bits(late.at(3 + 2 * k).load(SeqCst)), f64::from_bits(fbase.at(late.at(2 + 2 * k).load(SeqCst) as usize).load(SeqCst)));
            l.viol(&format!("history.long.{}", FN_NAMES[c.f]), &[], format!("{} at the end of a history of many states gives {got:?}, alone {want:?} (run the check again)", c.text()));
        }
    }
    l.outcomes.insert("pairs of neighbouring states, every property".into(), np as u64);
    l.outcomes.insert("different states in one history".into(), nf as u64);
    // one long history per process: every call again and again, forwards, backwards and strided
    let rounds = if thorough { 400 } else { 40 };
    whole &= forks(8, 1, &|w| {
        let strides = [1, n - 1, 7, 11, 13, 17, 19, 23];
        let mut i = w * n / 8;
        for _ in 0..rounds * n {
            check_long(i);
            i = (i + strides[w]) % n;
        }
        count.at(0).fetch_add((rounds * n) as u64, SeqCst);
    })?;
    l.states += count.at(0).load(SeqCst);
    l.transitions = l.states;
    l.validated = l.states;
    l.outcomes.insert("calls of the alphabet".into(), n as u64);
    l.outcomes.insert("sequences of two and three (a b a)".into(), (n * n) as u64);
    l.outcomes.insert("sequences of three".into(), (m * m * m) as u64);
    l.outcomes.insert("sequences of four".into(), (q * q * q * q) as u64);
    l.outcomes.insert("length of the longest history".into(), (rounds * n) as u64);
    if !whole {
        l.viol("history.crash", &[], "a sequence of calls ended the process; every one of the calls alone returns".into());
    }
    let total = found.sh.at(0).load(SeqCst);
    for k in 0..(total as usize).min(NV) {
        let len = found.sh.at(1 + k * 8).load(SeqCst) as usize;
        let seq: Vec<Call> = (0..len).map(|i| al[found.sh.at(2 + k * 8 + i).load(SeqCst) as usize]).collect();
        let last = found.sh.at(2 + k * 8 + len - 1).load(SeqCst) as usize;
        let got = f64::from_bits(found.sh.at(1 + k * 8 + 7).load(SeqCst));
        let want = f64::from_bits(base.at(last).load(SeqCst));
        // is the short sequence enough in a fresh process? if not, is any one call before it?
        let ends = |seqs: &[Vec<Call>]| -> Result<Option<usize>, String> {
            let v = Shared::new(seqs.len());
            forks(seqs.len(), 1, &|i| {
                let mut x = 0;
                for c in &seqs[i] {
                    x = c.run().to_bits();
                }
                v.at(i).store(x, SeqCst);
            })?;
            Ok((0..seqs.len()).find(|i| !eq(v.at(*i).load(SeqCst), base.at(last).load(SeqCst))))
        };
        let mut seq = seq;
        let mut enough = ends(&[seq.clone()])?.is_some();
        if !enough && k < 6 {
            let pairs: Vec<Vec<Call>> = al.iter().map(|c| vec![*c, al[last]]).collect();
            if let Some(i) = ends(&pairs)? {
                seq = pairs[i].clone();
                enough = true;
            }
        }
        let txt: Vec<String> = seq.iter().map(|c| c.text()).collect();
        let how = if enough { "in this order" } else { "at the end of a longer history of calls (run the check again)" };
        if !enough {
            seq = vec![];
        }
        l.viol(&format!("history.{}", FN_NAMES[al[last].f]), &seq, format!("{} {how} gives {got:?}, alone {want:?}", txt.join(", ")));
    }
    l.nviol = l.nviol.max(total).max(nnear).max(nlate);
    Ok(l)
}
