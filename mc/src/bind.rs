//! C15, C16: the C, stdcall and Python bindings and the Python helpers, built from the
//! working tree and run against the Rust functions they stand for.
use crate::api::*;
use crate::eng::*;
use std::path::{Path, PathBuf};
use std::process::Command;

const T: &str = "/verif/target/bind";
type F = unsafe extern "C" fn(f64, f64, i32) -> f64;

type Edit = dyn Fn(&str, String) -> String;
fn asis(_: &str, s: String) -> String {
    s
}
fn no_stdcall(_: &str, s: String) -> String {
    s.replace("extern \"stdcall\"", "extern \"C\"")
}
/// adds the Rust functions of the crate under the names vf_pt, vf_ph, ...
fn with_reference(name: &str, s: String) -> String {
    let s = no_stdcall(name, s);
    if name != "lib.rs" {
        return s;
    }
    let f: String = FN_NAMES.iter().map(|n| format!("#[no_mangle]\npub extern \"C\" fn vf_{n}(a: f64, b: f64, o: i32) -> f64 {{ crate::{n}(a, b, o) }}\n")).collect();
    format!("{s}\nmod vf_reference {{\n{f}}}\n")
}

fn copy_dir(from: &Path, to: &Path, edit: &Edit) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let (a, b) = (e.path(), to.join(e.file_name()));
        if e.file_type()?.is_dir() {
            copy_dir(&a, &b, edit)?;
        } else if a.extension().is_some_and(|x| x == "rs") {
            std::fs::write(&b, edit(&e.file_name().to_string_lossy(), std::fs::read_to_string(&a)?))?;
        } else {
            std::fs::copy(&a, &b)?;
        }
    }
    Ok(())
}
/// a copy of the crate (sources only), with `edit` applied to every Rust file
fn scratch(name: &str, edit: &Edit) -> PathBuf {
    let d = PathBuf::from(format!("{T}/src_{name}"));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch");
    for f in ["src", "benches", "tests", "examples", "python"] {
        let p = Path::new("/repo").join(f);
        if p.is_dir() {
            copy_dir(&p, &d.join(f), edit).expect("scratch copy");
        }
    }
    for e in std::fs::read_dir("/repo").expect("repo") {
        let p = e.unwrap().path();
        if p.is_file() {
            std::fs::copy(&p, d.join(p.file_name().unwrap())).expect("scratch copy");
        }
    }
    d
}
pub enum Built {
    Ok(PathBuf),
    Failed(String),
}
/// Build a binding. A compile error in the crate itself is the crate's; anything else is ours.
fn build(name: &str, feature: &str, extra: &[&str], edit: &Edit) -> Result<Built, String> {
    let d = scratch(name, edit);
    let mut c = Command::new("cargo");
    if extra.first() == Some(&"check") {
        c.args(["+nightly", "check"]).args(&extra[1..]);
    } else {
        c.args(["build", "--release"]);
        if extra.first() == Some(&"opt0") {
            c.env("CARGO_PROFILE_RELEASE_OPT_LEVEL", "0");
        }
    }
    c.args(["--lib", "--offline", "--features", feature, "--target-dir"]).arg(format!("{T}/t_{name}")).current_dir(&d);
    c.env_remove("RUSTFLAGS").env_remove("CARGO_TARGET_DIR").env("CARGO_NET_OFFLINE", "true");
    let o = c.output().map_err(|e| format!("cargo: {e}"))?;
    if o.status.success() {
        return Ok(Built::Ok(PathBuf::from(format!("{T}/t_{name}/release/libseuif97.so"))));
    }
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    if e.contains("could not compile `seuif97`") {
        let first: Vec<&str> = e.lines().filter(|l| l.starts_with("error")).take(3).collect();
        return Ok(Built::Failed(first.join(" | ")));
    }
    Err(format!("building {name} failed: {e}"))
}
fn symbols(so: &Path, prefix: &str) -> Result<Vec<Option<F>>, String> {
    use std::ffi::CString;
    let s = CString::new(so.to_str().unwrap()).unwrap();
    unsafe {
        let h = libc::dlopen(s.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            return Err(format!("dlopen {so:?} failed"));
        }
        Ok(FN_NAMES
            .iter()
            .map(|n| {
                let n = CString::new(format!("{prefix}{n}")).unwrap();
                let p = libc::dlsym(h, n.as_ptr());
                (!p.is_null()).then(|| std::mem::transmute::<*mut libc::c_void, F>(p))
            })
            .collect())
    }
}
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
fn specials() -> Vec<f64> {
    vec![
        f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e300, 5e-324, 1e-6, 10.0, 22.064, 50.0, 100.0, 373.946, 800.0, 2000.0, 611.657e-6,
        0.01, 350.0, 1e-3, 3000.0,
    ]
}
/// (function, a, b, property id) of everything compared
fn alphabet(single: &str, wets: &str) -> (Vec<In>, Vec<In>, Vec<In>) {
    let mut sp = vec![];
    for f in 0..12 {
        for a in specials() {
            for b in specials() {
                sp.push(In { f, a, b, r: 0 });
            }
        }
    }
    (inputs(single, wets), representatives(), sp)
}
fn ids_odd() -> Vec<i32> {
    let mut v: Vec<i32> = (-5..45).collect();
    for k in 5..31 {
        v.extend([1 << k, (1 << k) - 1, -(1 << k), (1 << k) + 4]);
    }
    v.extend([i32::MIN, i32::MAX, 65536 + 4, 65536 + 1]);
    v
}
/// every `n`th lattice state (n has no factor in common with the number of functions)
fn calls(single: &str, wets: &str, n: usize) -> Vec<(In, Vec<i32>)> {
    let (a, b, c) = alphabet(single, wets);
    let a: Vec<In> = a.into_iter().step_by(n).collect();
    let all: Vec<i32> = (-1..37).collect();
    let mut v: Vec<(In, Vec<i32>)> = a.into_iter().chain(c).map(|i| (i, all.clone())).collect();
    v.extend(b.into_iter().map(|i| (i, ids_odd())));
    v
}
/// run a Python worker over records; each record is (function or helper index, a, b, id, expected)
fn python(pkg: &Path, script: &str, recs: &[(i32, f64, f64, i32, f64)], l: &mut Local) -> Result<Vec<Call>, String> {
    let mut diff = vec![];
    use std::io::Write;
    let n = 8usize.min(recs.len().max(1));
    let chunk = recs.len().div_ceil(n).max(1);
    let py = format!("{T}/worker.py");
    std::fs::write(&py, script).map_err(|e| e.to_string())?;
    let kids: Vec<_> = recs
        .chunks(chunk)
        .enumerate()
        .map(|(k, c)| {
            let path = format!("{T}/in_{k}.bin");
            let mut w = std::io::BufWriter::new(std::fs::File::create(&path).unwrap());
            for r in c {
                w.write_all(&r.0.to_le_bytes()).unwrap();
                w.write_all(&r.1.to_le_bytes()).unwrap();
                w.write_all(&r.2.to_le_bytes()).unwrap();
                w.write_all(&r.3.to_le_bytes()).unwrap();
                w.write_all(&r.4.to_le_bytes()).unwrap();
            }
            drop(w);
            (k, c, Command::new("python3").args(["-S", "-E", "-s", "-B", &py, pkg.to_str().unwrap(), &path]).output_async())
        })
        .collect();
    for (k, c, kid) in kids {
        let o = kid?.wait_with_output().map_err(|e| e.to_string())?;
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let mut done = false;
        for line in out.lines() {
            let mut w = line.split('\t');
            match w.next() {
                Some("bad") => {
                    let i: usize = w.next().and_then(|x| x.parse().ok()).ok_or("worker output")?;
                    let r = c[i];
                    diff.push(Call::new(r.0 as usize, r.1, r.2, r.3));
                }
                Some("missing") => l.viol("python.missing", &[], format!("the Python package has no {}", w.next().unwrap_or("?"))),
                Some("done") => done = true,
                _ => {}
            }
        }
        if !done {
            use std::os::unix::process::ExitStatusExt;
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            if o.status.signal().is_some_and(|s| s != libc::SIGKILL) {
                l.viol("python.crash", &[], format!("the interpreter was killed by a signal in part {k}: {e}"));
            } else if e.contains("ImportError") || e.contains("SyntaxError") || e.contains("NameError") || e.contains("AttributeError") {
                l.viol("python.import", &[], format!("the package cannot be imported: {}", e.lines().last().unwrap_or("")));
            } else {
                return Err(format!("python worker failed: {e}"));
            }
        }
    }
    Ok(diff)
}
trait Async {
    fn output_async(&mut self) -> Result<std::process::Child, String>;
}
impl Async for Command {
    fn output_async(&mut self) -> Result<std::process::Child, String> {
        use std::process::Stdio;
        self.stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(Stdio::null()).spawn().map_err(|e| e.to_string())
    }
}
const HEAD: &str = r#"
import sys, struct
pkg, path = sys.argv[1], sys.argv[2]
sys.path.insert(0, pkg)
data = open(path, "rb").read()
it = struct.iter_unpack("<iddid", data)
bad = {}
def report(i, k, got):
    n = bad.get(k, 0)
    bad[k] = n + 1
    if n < 20000:
        print("bad", i, got, sep="\t")
"#;
const W15: &str = r#"
import seuif97.seuif97 as m
names = "pt ph ps hs pv tv th ts px tx hx sx".split()
fs = []
for n in names:
    g = getattr(m, n, None)
    if g is None:
        print("missing", n, sep="\t")
    fs.append(g)
for i, (f, a, b, o, want) in enumerate(it):
    g = fs[f]
    if g is None:
        continue
    try:
        got = g(a, b, o)
    except BaseException as e:
        report(i, f, type(e).__name__)
        continue
    if got != want and not (got != got and want != want):
        report(i, f, repr(got))
    elif got == 0 and str(got) != str(want):
        report(i, f, repr(got))
print("done")
"#;
/// helper f*16+o of the package: two letters in, one letter out
const W16: &str = r#"
import seuif97 as m
import seuif97.seuif97 as ext
names = "pt ph ps hs pv tv th ts px tx hx sx".split()
letter = {0: "p", 1: "t", 3: "v", 4: "h", 5: "s", 15: "x"}
fs = {}
for i, (f, a, b, o, want) in enumerate(it):
    g = fs.get((f, o), 0)
    if g == 0:
        n = names[f] + "2" + letter[o]
        g = getattr(m, n, None)
        fs[(f, o)] = g
        if g is None:
            print("missing", n, sep="\t")
    if g is None:
        continue
    try:
        got = g(a, b)
    except BaseException as e:
        report(i, (f, o), type(e).__name__)
        continue
    want = getattr(ext, names[f])(a, b, o)
    if got != want and not (got != got and want != want):
        report(i, (f, o), repr(got))
print("done")
"#;
fn package(name: &str, extra: &[&str]) -> Result<Result<PathBuf, String>, String> {
    match build(name, "python", extra, &asis)? {
        Built::Failed(e) => Ok(Err(e)),
        Built::Ok(so) => {
            let d = PathBuf::from(format!("{T}/pkg_{name}"));
            let _ = std::fs::remove_dir_all(&d);
            copy_dir(Path::new("/repo/python/seuif97"), &d.join("seuif97"), &asis).map_err(|e| e.to_string())?;
            std::fs::copy(so, d.join("seuif97/seuif97.so")).map_err(|e| e.to_string())?;
            Ok(Ok(d))
        }
    }
}
/// a difference between optimised builds
type Diff = (&'static str, Call, f64, f64);
pub fn c15(tier: &str) -> Result<Local, String> {
    let mut l = Local::default();
    let thorough = tier == "thorough";
    // the unmodified stdcall binding must compile for a target that has that convention
    let check = std::thread::spawn(|| {
        build("stdcall_check", "stdcall", &["check", "-Zbuild-std=core,alloc,std,panic_abort", "--target", "i686-unknown-linux-gnu"], &asis)
    });
    // name, optimised, not optimised, Rust functions of the same unoptimised build
    let mut libs: Vec<(&'static str, Vec<Option<F>>, Vec<Option<F>>, Vec<Option<F>>)> = vec![];
    for name in ["cdecl", "stdcall"] {
        l.states += 1;
        // stdcall does not exist on this processor: same source with the convention exchanged
        let (a, b) = (build(name, name, &[], &no_stdcall)?, build(&format!("{name}0"), name, &["opt0"], &with_reference)?);
        match (a, b) {
            (Built::Ok(a), Built::Ok(b)) => {
                let f = symbols(&a, "")?;
                for (i, g) in f.iter().enumerate() {
                    if g.is_none() {
                        l.viol(&format!("{name}.symbol"), &[], format!("{name}: no exported function {}", FN_NAMES[i]));
                    }
                }
                let r = symbols(&b, "vf_")?;
                if r.iter().any(|x| x.is_none()) {
                    return Err("reference functions missing".into());
                }
                libs.push((name, f, symbols(&b, "")?, r));
            }
            (Built::Failed(e), _) => l.viol(&format!("{name}.build"), &[], format!("feature {name} does not compile: {e}")),
            (_, Built::Failed(e)) => return Err(format!("{name} with reference: {e}")),
        }
    }
    // optimised builds on the dense lattice; what differs is decided below
    let cs = if thorough { calls("mid", "small", 5) } else { calls("tiny", "tiny", 7) };
    let diffs = std::sync::Mutex::new(Vec::<Diff>::new());
    l.merge(explore(&cs, |(i, ids), l| {
        l.states += 1;
        for o in ids {
            let c = Call::new(i.f, i.a, i.b, *o);
            let want = c.run();
            for (name, fs, _, _) in &libs {
                let Some(g) = fs[i.f] else { continue };
                let got = guarded(&c, || unsafe { g(i.a, i.b, *o) });
                l.transitions += 1;
                l.validated += 1;
                if !same(got, want) {
                    diffs.lock().unwrap().push((name, c, got, want));
                }
            }
        }
        l.outcome(format!("{} region {}", FN_NAMES[i.f], i.r));
    }));
    // the same source without optimisation: no constant folding, so equal code gives equal bits
    let mut again: Vec<(usize, Call)> = vec![];
    for (n, c, _, _) in diffs.into_inner().unwrap() {
        l.outcome(format!("{n}: optimised builds differ, decided without optimisation"));
        again.push((libs.iter().position(|x| x.0 == n).unwrap(), c));
    }
    let (_, reps, sp) = alphabet("tiny", "tiny");
    for (k, _) in libs.iter().enumerate() {
        for (i, ids) in reps.iter().map(|i| (i, ids_odd())).chain(sp.iter().map(|i| (i, vec![1, 3, 4, 15, 16, 30, 99]))) {
            again.extend(ids.iter().map(|o| (k, Call::new(i.f, i.a, i.b, *o))));
        }
    }
    l.merge(explore(&again, |(k, c), l| {
        let (name, _, f, r) = &libs[*k];
        let (Some(g), Some(r)) = (f[c.f], r[c.f]) else { return };
        let got = guarded(c, || unsafe { g(c.a, c.b, c.o) });
        let want = guarded(c, || unsafe { r(c.a, c.b, c.o) });
        l.states += 1;
        l.transitions += 2;
        l.validated += 1;
        if !same(got, want) {
            l.viol(&format!("{name}.{}", FN_NAMES[c.f]), &[*c], format!("{name}: {} = {got:?}, Rust gives {want:?}", c.text()));
        }
    }));
    // Python
    match package("python", &[])? {
        Err(e) => l.viol("python.build", &[], format!("feature python does not compile: {e}")),
        Ok(pkg) => {
            let cs = if thorough { calls("small", "tiny", 1) } else { calls("tiny", "tiny", 7) };
            let recs = record(&cs, &|c| c.run());
            l.states += cs.len() as u64;
            l.transitions += recs.len() as u64;
            l.validated += recs.len() as u64;
            let bad = python(&pkg, &(HEAD.to_string() + W15), &recs, &mut l)?;
            l.outcome("python extension compared".into());
            let (Some((_, _, _, r)), Ok(pkg0)) = (libs.first(), package("python0", &["opt0"])?) else {
                return Ok(l);
            };
            let mut again: Vec<(In, Vec<i32>)> = reps.iter().map(|i| (*i, ids_odd())).collect();
            for c in bad {
                l.outcome("python: optimised builds differ, decided without optimisation".into());
                again.push((In { f: c.f, a: c.a, b: c.b, r: 0 }, vec![c.o]));
            }
            let recs = record(&again, &|c| unsafe { r[c.f].unwrap()(c.a, c.b, c.o) });
            l.states += again.len() as u64;
            l.transitions += recs.len() as u64;
            for (c, m) in python(&pkg0, &(HEAD.to_string() + W15), &recs, &mut l)?.into_iter().map(|c| (c, c.text())) {
                l.viol(&format!("python.{}", FN_NAMES[c.f]), &[c], format!("Python {m} differs from the Rust function, {:?}", c.run()));
            }
        }
    }
    match check.join().map_err(|_| "check thread")?? {
        Built::Failed(e) => l.viol("stdcall.build", &[], format!("feature stdcall does not compile for i686: {e}")),
        Built::Ok(_) => l.outcome("stdcall compiles for i686".into()),
    }
    drain_panics(&mut l);
    Ok(l)
}
fn record(cs: &[(In, Vec<i32>)], want: &(dyn Fn(&Call) -> f64 + Sync)) -> Vec<(i32, f64, f64, i32, f64)> {
    let out = std::sync::Mutex::new(vec![]);
    explore(cs, |(i, ids), _| {
        let v: Vec<_> = ids.iter().map(|o| (i.f as i32, i.a, i.b, *o, want(&Call::new(i.f, i.a, i.b, *o)))).collect();
        out.lock().unwrap().extend(v);
    });
    out.into_inner().unwrap()
}
pub fn c16(tier: &str) -> Result<Local, String> {
    let mut l = Local::default();
    match package("python", &[])? {
        Err(e) => l.viol("python.build", &[], format!("feature python does not compile: {e}")),
        Ok(pkg) => {
            let (a, b, c) = if tier == "thorough" { alphabet("mid", "small") } else { alphabet("small", "tiny") };
            let cs: Vec<(In, Vec<i32>)> = a
                .into_iter()
                .chain(b)
                .chain(c)
                .map(|i| (i, [0, 1, 3, 4, 5, 15].into_iter().filter(|o| *o != IN[i.f].0 && *o != IN[i.f].1).collect()))
                .collect();
            let recs = record(&cs, &|_| 0.0);
            l.states += cs.len() as u64;
            l.transitions += recs.len() as u64;
            l.validated += recs.len() as u64;
            for i in &cs {
                l.outcome(format!("{} region {}", FN_NAMES[i.0.f], i.0.r));
            }
            for c in python(&pkg, &(HEAD.to_string() + W16), &recs, &mut l)? {
                let name = format!("{}2{}", FN_NAMES[c.f], ["p", "t", "", "v", "h", "s"].get(c.o as usize).unwrap_or(&"x"));
                l.viol(&format!("python.{name}"), &[c], format!("Python {name}({:?}, {:?}) differs from {}", c.a, c.b, c.text()));
            }
        }
    }
    drain_panics(&mut l);
    Ok(l)
}
/// evaluate the recorded calls again in the recorded binding: 1 differs, 0 agrees
pub fn replay(prop: &str, kind: &str, cs: &[Call]) -> Result<i32, String> {
    let name = kind.split('.').next().unwrap_or("");
    let mut l = Local::default();
    let mut bad = false;
    if name == "python" {
        match package("python0", &["opt0"])? {
            Err(e) => return Ok({ println!("{e}"); 1 }),
            Ok(pkg) => {
                let rust = match build("cdecl0", "cdecl", &["opt0"], &with_reference)? {
                    Built::Ok(b) => symbols(&b, "vf_")?,
                    Built::Failed(e) => return Err(e),
                };
                let recs: Vec<_> = cs.iter().map(|c| (c.f as i32, c.a, c.b, c.o, unsafe { rust[c.f].unwrap()(c.a, c.b, c.o) })).collect();
                let w = HEAD.to_string() + if prop == "C15" { W15 } else { W16 };
                for c in python(&pkg, &w, &recs, &mut l)? {
                    println!("Python differs at {}", c.text());
                    bad = true;
                }
            }
        }
    } else {
        let n = if name == "stdcall" { "stdcall" } else { "cdecl" };
        match build(&format!("{n}0"), n, &["opt0"], &with_reference)? {
            Built::Failed(e) => return Ok({ println!("{e}"); 1 }),
            Built::Ok(b) => {
                let (f, r) = (symbols(&b, "")?, symbols(&b, "vf_")?);
                for i in 0..12 {
                    bad |= f[i].is_none();
                }
                for c in cs {
                    let (Some(g), Some(r)) = (f[c.f], r[c.f]) else { continue };
                    let (x, y) = unsafe { (g(c.a, c.b, c.o), r(c.a, c.b, c.o)) };
                    println!("{n} {} = {x:?}, Rust {y:?}", c.text());
                    bad |= !same(x, y);
                }
            }
        }
    }
    Ok((bad || l.nviol > 0) as i32)
}
