//! Seams of the implementation itself.  The crate is compiled with a callback at every
//! floating-point comparison; along the lines of a lattice every comparison that changes its
//! outcome between neighbouring nodes is located to the last bit, and so is every comparison
//! whose operands approach each other in between (a strip thinner than the lattice).  The states
//! on both sides of each such seam, and one in every cell between two seams, join the lattice.
use crate::checks::*;
use crate::eng::*;
use crate::lat::*;
use crate::refm::*;
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;
use std::sync::{Mutex, OnceLock};

const DIR: &str = "/verif/target/seam";
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ev {
    pub site: u32,
    pub occ: u32,
    pub d: f64,
}
pub struct Seam {
    call: extern "C" fn(i32, f64, f64, i32, i32, *mut f64) -> i32,
    reset: extern "C" fn(),
    get: extern "C" fn(*mut *const Ev) -> u32,
    pub sites: usize,
}
fn run(cmd: &mut Command) -> Result<String, String> {
    let o = cmd.env_remove("CARGO_TARGET_DIR").env("CARGO_NET_OFFLINE", "true").output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("{:?}: {}", cmd.get_program(), String::from_utf8_lossy(&o.stderr)));
    }
    Ok(String::from_utf8_lossy(&o.stdout).to_string())
}
/// adds the callbacks to the LLVM IR of one crate
fn instrument(ir: &str, site: &mut usize) -> String {
    let mut out = String::with_capacity(ir.len() * 2);
    for line in ir.lines() {
        out.push_str(line);
        out.push('\n');
        let t = line.trim_start();
        if !t.starts_with('%') {
            continue;
        }
        let Some((_, rhs)) = t.split_once(" = ") else { continue };
        if rhs.starts_with("fcmp ") {
            if let Some((_, ops)) = rhs.split_once(" double ") {
                let ops = ops.split(", !").next().unwrap();
                if let Some((a, b)) = ops.split_once(", ") {
                    out.push_str(&format!("  call void @vt_fcmp(i32 {site}, double {}, double {})\n", a.trim(), b.trim()));
                    *site += 1;
                }
            }
        } else if rhs.starts_with("fptosi double ") || rhs.starts_with("fptoui double ") {
            let x = rhs.split(" double ").nth(1).unwrap().split(' ').next().unwrap();
            out.push_str(&format!("  call void @vt_frac(i32 {site}, double {x})\n"));
            *site += 1;
        } else if let Some(k) = rhs.find("@llvm.") {
            let name = rhs[k + 6..].split(['.', '(']).next().unwrap_or("");
            let Some(args) = rhs[k..].split_once('(').and_then(|x| x.1.split_once(')')).map(|x| x.0) else { continue };
            let v: Vec<&str> = args.split(", ").filter_map(|a| a.strip_prefix("double ").or(a.strip_prefix("noundef double "))).collect();
            let frac = ["floor", "ceil", "round", "trunc", "rint", "nearbyint", "roundeven", "fptosi", "fptoui"].contains(&name);
            let mm = ["minnum", "maxnum", "minimum", "maximum", "minimumnum", "maximumnum"].contains(&name);
            if frac && v.len() == 1 {
                out.push_str(&format!("  call void @vt_frac(i32 {site}, double {})\n", v[0]));
                *site += 1;
            } else if mm && v.len() == 2 {
                out.push_str(&format!("  call void @vt_fcmp(i32 {site}, double {}, double {})\n", v[0], v[1]));
                *site += 1;
            }
        }
    }
    out.push_str("declare void @vt_fcmp(i32, double, double)\ndeclare void @vt_frac(i32, double)\n");
    out
}
fn build() -> Result<usize, String> {
    std::fs::create_dir_all(DIR).map_err(|e| e.to_string())?;
    run(Command::new("cargo")
        .args(["build", "--release", "--offline", "--quiet", "--target-dir", DIR, "--manifest-path", "/verif/conc/seam/Cargo.toml"])
        .env("RUSTFLAGS", "--emit=llvm-ir,link -Cno-vectorize-loops -Cno-vectorize-slp"))?;
    let root = run(Command::new("rustc").args(["--print", "sysroot"]))?;
    let bin = format!("{}/lib/rustlib/x86_64-unknown-linux-gnu/bin", root.trim());
    let deps = format!("{DIR}/release/deps");
    let w = format!("{DIR}/work");
    let _ = std::fs::remove_dir_all(&w);
    std::fs::create_dir_all(&w).map_err(|e| e.to_string())?;
    let mut site = 0;
    let mut objs = vec![];
    let newest = |prefix: &str| -> Option<std::path::PathBuf> {
        let mut v: Vec<_> = std::fs::read_dir(&deps).ok()?.flatten().map(|e| e.path())
            .filter(|p| p.extension().is_some_and(|x| x == "ll") && p.file_name().unwrap().to_string_lossy().starts_with(prefix)).collect();
        v.sort_by_key(|p| p.metadata().and_then(|m| m.modified()).ok());
        v.pop()
    };
    for c in ["seuif97", "seam"] {
        let p = newest(c).ok_or("no LLVM IR")?;
        let ir = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
        let ll = format!("{w}/{c}.ll");
        std::fs::write(&ll, instrument(&ir, &mut site)).map_err(|e| e.to_string())?;
        run(Command::new(format!("{bin}/llc")).args(["-O1", "-relocation-model=pic", "-filetype=obj", &ll, "-o", &format!("{w}/{c}.o")]))?;
        objs.push(format!("{w}/{c}.o"));
    }
    let a = format!("{w}/rest.a");
    std::fs::copy(format!("{DIR}/release/libseam.a"), &a).map_err(|e| e.to_string())?;
    let members = run(Command::new("ar").args(["t", &a]))?;
    let drop: Vec<&str> = members.lines().filter(|m| m.contains("seuif97.") && m.ends_with(".o") || m.starts_with("seam-") && m.contains(".seam.")).collect();
    if drop.len() < 2 {
        return Err("archive members not found".into());
    }
    run(Command::new("ar").arg("d").arg(&a).args(&drop))?;
    std::fs::write(format!("{w}/map"), "{ global: vf_call; vf_quiet; vt_reset; vt_get; local: *; };\n").map_err(|e| e.to_string())?;
    run(Command::new("gcc")
        .args(["-O2", "-shared", "-fPIC", "-o", &format!("{w}/libseam.so"), "/verif/conc/trace.c"])
        .args(&objs)
        .args([&a, &format!("-Wl,--version-script={w}/map"), "-Wl,--gc-sections", "-lgcc_s", "-lpthread", "-ldl", "-lm"]))?;
    Ok(site)
}
pub static NOTE: Mutex<String> = Mutex::new(String::new());
pub fn open() -> Option<&'static Seam> {
    static S: OnceLock<Option<Seam>> = OnceLock::new();
    S.get_or_init(|| {
        if std::env::var("MC_NOSEAM").is_ok() {
            return None;
        }
        match load() {
            Ok(s) => Some(s),
            Err(e) => {
                println!("  note: seams of the implementation not available: {e}");
                *NOTE.lock().unwrap() = format!("not available: {e}");
                None
            }
        }
    })
    .as_ref()
}
fn load() -> Result<Seam, String> {
    let sites = build()?;
    unsafe {
        let p = std::ffi::CString::new(format!("{DIR}/work/libseam.so")).unwrap();
        let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            return Err(format!("dlopen: {:?}", std::ffi::CStr::from_ptr(libc::dlerror())));
        }
        let sym = |n: &[u8]| libc::dlsym(h, n.as_ptr() as *const _);
        let (c, r, g, q) = (sym(b"vf_call\0"), sym(b"vt_reset\0"), sym(b"vt_get\0"), sym(b"vf_quiet\0"));
        if c.is_null() || r.is_null() || g.is_null() || q.is_null() {
            return Err("symbols".into());
        }
        let quiet: extern "C" fn() = std::mem::transmute(q);
        quiet();
        Ok(Seam { call: std::mem::transmute(c), reset: std::mem::transmute(r), get: std::mem::transmute(g), sites })
    }
}
type Key = u64;
impl Seam {
    pub fn trace(&self, f: usize, a: f64, b: f64, o: i32) -> Vec<(Key, f64)> {
        let c = Call::new(f, a, b, o);
        guarded(&c, || {
            let mut v = 0.0;
            (self.reset)();
            (self.call)(f as i32, a, b, o, NOREG, &mut v);
            v
        });
        let mut p: *const Ev = std::ptr::null();
        let n = (self.get)(&mut p);
        let ev = unsafe { std::slice::from_raw_parts(p, n as usize) };
        let mut v: Vec<(Key, f64)> = ev.iter().map(|e| (((e.site as u64) << 2) | e.occ as u64, e.d)).collect();
        v.sort_by_key(|x| x.0);
        v
    }
}
fn get(t: &[(Key, f64)], k: Key) -> Option<f64> {
    t.binary_search_by_key(&k, |x| x.0).ok().map(|i| t[i].1)
}
#[derive(Default)]
pub struct Cover {
    pub evals: u64,
    pub seams: u64,
    pub strips: u64,
    /// comparison -> outcomes seen (1: a<b, 2: a>=b)
    pub sides: BTreeMap<u32, u8>,
}
pub static COVER: Mutex<Option<Cover>> = Mutex::new(None);
pub type Mk<'a> = dyn Fn(f64) -> Option<(f64, f64)> + Sync + 'a;

/// the seams of f along one line: `us` are the nodes, `mk` the arguments at a position
pub fn scan_line(s: &Seam, f: usize, o: i32, us: &[f64], mk: &Mk, cv: &mut Cover) -> Vec<f64> {
    let eval = |u: f64, cv: &mut Cover| -> Option<Vec<(Key, f64)>> {
        let (a, b) = mk(u)?;
        cv.evals += 1;
        Some(s.trace(f, a, b, o))
    };
    let tr: Vec<Option<Vec<(Key, f64)>>> = us.iter().map(|u| eval(*u, cv)).collect();
    for t in tr.iter().flatten() {
        for (k, d) in t {
            *cv.sides.entry((k >> 2) as u32).or_insert(0) |= if *d < 0.0 { 1 } else { 2 };
        }
    }
    let mut cuts: Vec<(f64, f64)> = vec![];
    let mut done: BTreeSet<(u64, u64)> = BTreeSet::new();
    fn near(c: &[(f64, f64)], x: f64) -> bool {
        c.iter().any(|q| ((q.0 - x) / x).abs() < 1e-13)
    }
    let bisect = |mut a: f64, mut b: f64, k: Key, da: f64, cv: &mut Cover, cuts: &mut Vec<(f64, f64)>| {
        // the sign at a is that of da; at b it is another one, or the comparison is not reached
        for _ in 0..70 {
            let m = 0.5 * (a + b);
            if !(m > a.min(b) && m < a.max(b)) {
                break;
            }
            let same = match eval(m, cv) {
                Some(t) => get(&t, k).is_some_and(|d| (d < 0.0) == (da < 0.0)),
                None => false,
            };
            if same {
                a = m
            } else {
                b = m
            }
        }
        if !near(cuts, a) {
            cuts.push((a, b));
            cv.seams += 1;
        }
    };
    for i in 1..us.len() {
        let (Some(t0), Some(t1)) = (&tr[i - 1], &tr[i]) else { continue };
        if cuts.len() > 600 {
            break;
        }
        for (k, d0) in t0 {
            let Some(d1) = get(t1, *k) else { continue };
            if (*d0 < 0.0) != (d1 < 0.0) && d0.is_finite() && d1.is_finite() {
                bisect(us[i - 1], us[i], *k, *d0, cv, &mut cuts);
                continue;
            }
            // operands that come close in between
            if i + 1 < us.len() && k & 3 < 2 {
                let Some(t2) = &tr[i + 1] else { continue };
                let Some(d2) = get(t2, *k) else { continue };
                if (d2 < 0.0) != (d1 < 0.0) || !(d1.abs() <= d0.abs() && d1.abs() <= d2.abs() && (d1.abs() < d0.abs() || d1.abs() < d2.abs())) || d1 == 0.0 {
                    continue;
                }
                if !done.insert((d0.to_bits(), d1.to_bits())) {
                    continue;
                }
                let sg = d1 < 0.0;
                let (mut a, mut b) = (us[i - 1], us[i + 1]);
                let g = 0.618_033_988_749_895;
                let (mut x1, mut x2) = (b - g * (b - a), a + g * (b - a));
                let val = |x: f64, cv: &mut Cover| -> f64 {
                    match eval(x, cv).and_then(|t| get(&t, *k)) {
                        Some(d) if (d < 0.0) != sg => f64::NEG_INFINITY,
                        Some(d) => d.abs(),
                        None => f64::INFINITY,
                    }
                };
                let (mut y1, mut y2) = (val(x1, cv), val(x2, cv));
                for _ in 0..48 {
                    if y1 == f64::NEG_INFINITY || y2 == f64::NEG_INFINITY {
                        break;
                    }
                    if y1 < y2 {
                        b = x2;
                        x2 = x1;
                        y2 = y1;
                        x1 = b - g * (b - a);
                        y1 = val(x1, cv);
                    } else {
                        a = x1;
                        x1 = x2;
                        y1 = y2;
                        x2 = a + g * (b - a);
                        y2 = val(x2, cv);
                    }
                }
                let hit = if y1 == f64::NEG_INFINITY { Some(x1) } else if y2 == f64::NEG_INFINITY { Some(x2) } else { None };
                if let Some(x) = hit {
                    cv.strips += 1;
                    bisect(us[i - 1], x, *k, d1, cv, &mut cuts);
                    bisect(us[i + 1], x, *k, d1, cv, &mut cuts);
                }
            }
        }
    }
    if cuts.is_empty() {
        return vec![];
    }
    cuts.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut out = vec![];
    for (i, (a, b)) in cuts.iter().enumerate() {
        out.push(*a);
        out.push(*b);
        for o in [1e-9, 1e-6] {
            out.push(a.min(*b) * (1.0 - o));
            out.push(a.max(*b) * (1.0 + o));
        }
        if i > 0 {
            out.push(0.5 * (cuts[i - 1].0 + a));
        }
    }
    out
}
/// states of the seams of the functions fs, asked for the properties ids, along isobars and isotherms
pub fn seam_states(fs: &[usize], ids: &[i32], tier: &str) -> Vec<St> {
    let Some(s) = open() else { return vec![] };
    let (nl, nn) = match tier {
        "tiny" => (6, 60),
        "small" => (14, 140),
        "quick" => (26, 240),
        "mid" => (40, 400),
        _ => (90, 900),
    };
    #[derive(Clone, Copy)]
    struct Job {
        iso_p: bool,
        c: f64,
        f: usize,
        o: i32,
        basic: bool,
    }
    let mut jobs = vec![];
    let mut cs = vec![];
    for i in 0..nl {
        let x = (i as f64 + 0.37) / nl as f64;
        cs.push((true, PMIN * (100.0 / PMIN).powf(x)));
        cs.push((true, 100.0 * x));
        cs.push((false, 273.15 + 2000.0 * x.powf(1.7)));
        cs.push((false, 623.15 + 240.0 * x));
    }
    for i in 0..nl / 2 {
        let x = (i as f64 + 0.37) / (nl / 2) as f64;
        cs.push((true, 16.53 + 9.0 * x));
        cs.push((false, 273.15 + 350.0 * x));
    }
    for (iso_p, c) in cs {
        for &f in fs {
            for &o in ids {
                for basic in [false, true] {
                    let r3 = if iso_p { c > 16.5 } else { c > 623.0 && c < 864.0 };
                    if basic && !((f == PH || f == PS || f == HS) && r3) || (o == IN[f].0 || o == IN[f].1) && ids.len() > 1 {
                        continue;
                    }
                    jobs.push(Job { iso_p, c, f, o, basic });
                }
            }
        }
    }
    let tn: Vec<f64> = (0..=nn).map(|i| 273.15 + 2000.0 * (i as f64 / nn as f64).powf(1.7)).collect();
    let pn: Vec<f64> = {
        let mut v: Vec<f64> = (0..=nn / 2).flat_map(|i| {
            let x = i as f64 / (nn / 2) as f64;
            [PMIN * (100.0 / PMIN).powf(x), 0.37 + 99.63 * x]
        }).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    };
    let out = Mutex::new((vec![], Cover::default()));
    explore(&jobs, |j, _| {
        let pt = |u: f64| if j.iso_p { (j.c, u) } else { (u, j.c) };
        let mk = |u: f64| {
            let (p, t) = pt(u);
            if p > 100.0 || !(273.15..=2273.15).contains(&t) {
                return None;
            }
            let mut st = St::at(p, t)?;
            if j.basic {
                st = St { s: st.b(), pd: st.pd };
            }
            Some((st.x(j.f), st.y(j.f)))
        };
        let mut cv = Cover::default();
        let us = scan_line(s, j.f, j.o, if j.iso_p { &tn } else { &pn }, &mk, &mut cv);
        let mut v: Vec<(u64, u64)> = vec![];
        for u in us {
            let (p, t) = pt(u);
            v.push((p.to_bits(), t.to_bits()));
        }
        let mut o = out.lock().unwrap();
        o.0.extend(v);
        merge(&mut o.1, cv);
    });
    let (mut v, cv) = out.into_inner().unwrap();
    note(cv);
    v.sort();
    v.dedup();
    let w = Mutex::new(vec![]);
    explore(&v, |(p, t), _| {
        let mut x = vec![];
        add(&mut x, f64::from_bits(*p), f64::from_bits(*t));
        w.lock().unwrap().extend(x);
    });
    w.into_inner().unwrap()
}
/// wet states on the seams of the functions fs, along lines of constant temperature and of constant quality
pub fn seam_wet(fs: &[usize], ids: &[i32], tier: &str) -> Vec<Wet> {
    let Some(s) = open() else { return vec![] };
    let (nl, nn) = match tier {
        "tiny" => (8, 60),
        "small" => (16, 140),
        "quick" => (30, 240),
        "mid" => (50, 400),
        _ => (100, 900),
    };
    let mut jobs = vec![];
    for i in 0..nl {
        let x = (i as f64 + 0.37) / nl as f64;
        for (iso_t, c) in [(true, 273.15 + (TC - 0.3 - 273.15) * x), (true, 623.15 + (TC - 0.1 - 623.15) * x), (false, x), (false, x * x * x * 0.05), (false, 1.0 - x * x * x * 0.05)] {
            for &f in fs {
                for &o in ids {
                    jobs.push((iso_t, c, f, o));
                }
            }
        }
    }
    let tn: Vec<f64> = (0..=nn).map(|i| 273.15 + (TC - 0.1 - 273.15) * (1.0 - (1.0 - i as f64 / nn as f64).powi(2))).collect();
    let xn: Vec<f64> = (0..=nn).map(|i| i as f64 / nn as f64).collect();
    let out = Mutex::new((vec![], Cover::default()));
    explore(&jobs, |&(iso_t, c, f, o), _| {
        let tx = |u: f64| if iso_t { (c, u) } else { (u, c) };
        let mk = |u: f64| {
            let (t, x) = tx(u);
            if !(0.0..=1.0).contains(&x) {
                return None;
            }
            let w = wet_at(t, x);
            Some((w.co(IN[f].0), w.co(IN[f].1)))
        };
        let mut cv = Cover::default();
        let us = scan_line(s, f, o, if iso_t { &xn } else { &tn }, &mk, &mut cv);
        let v: Vec<(u64, u64)> = us.into_iter().map(tx).map(|(t, x)| (t.to_bits(), x.to_bits())).collect();
        let mut o = out.lock().unwrap();
        o.0.extend(v);
        merge(&mut o.1, cv);
    });
    let (mut v, cv) = out.into_inner().unwrap();
    note(cv);
    v.sort();
    v.dedup();
    v.into_iter().map(|(t, x)| (f64::from_bits(t), f64::from_bits(x)))
        .filter(|(t, x)| *t <= TC - 0.01 && (0.0..=1.0).contains(x) && psat(*t) >= PMIN).map(|(t, x)| wet_at(t, x)).collect()
}
/// arguments on the seams in the plane of the two arguments themselves, inside the range and beyond it
pub fn seam_calls(fs: &[usize], ids: &[i32], nl: usize, nn: usize) -> Vec<(usize, f64, f64)> {
    let Some(s) = open() else { return vec![] };
    let wide = |o: i32, n: usize| {
        let mut v = vec![-1e5, -3000.0, -290.0, -20.0, -1.0, -0.1, -1e-3, 0.0];
        let a = crate::outer::plane_axis(o, n);
        let top = a[n];
        v.extend(a);
        v.extend([top * 1.3, top * 3.0, top * 10.0, top * 1e3, top * 1e6]);
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        v
    };
    let mut jobs = vec![];
    for &f in fs {
        for &o in ids {
            for first in [true, false] {
                let of = if first { IN[f].0 } else { IN[f].1 };
                for c in wide(of, nl) {
                    jobs.push((f, o, first, c * (1.0 + 1e-4) + 1e-7));
                }
            }
        }
    }
    let out = Mutex::new((vec![], Cover::default()));
    explore(&jobs, |&(f, o, first, c), _| {
        let us = wide(if first { IN[f].1 } else { IN[f].0 }, nn);
        let ab = |u: f64| if first { (c, u) } else { (u, c) };
        let mk = |u: f64| Some(ab(u));
        let mut cv = Cover::default();
        let us = scan_line(s, f, o, &us, &mk, &mut cv);
        let v: Vec<(usize, u64, u64)> = us.into_iter().map(ab).map(|(a, b)| (f, a.to_bits(), b.to_bits())).collect();
        let mut o = out.lock().unwrap();
        o.0.extend(v);
        merge(&mut o.1, cv);
    });
    let (mut v, cv) = out.into_inner().unwrap();
    note(cv);
    v.sort();
    v.dedup();
    v.into_iter().map(|(f, a, b)| (f, f64::from_bits(a), f64::from_bits(b))).collect()
}
fn merge(a: &mut Cover, b: Cover) {
    a.evals += b.evals;
    a.seams += b.seams;
    a.strips += b.strips;
    for (k, v) in b.sides {
        *a.sides.entry(k).or_insert(0) |= v
    }
}
pub fn note(cv: Cover) {
    let mut g = COVER.lock().unwrap();
    let c = g.get_or_insert_with(Cover::default);
    merge(c, cv);
    let sites = open().map(|s| s.sites).unwrap_or(0);
    let both = c.sides.values().filter(|v| **v == 3).count();
    *NOTE.lock().unwrap() = format!(
        "{} traced calls, {} seams located, {} of them strips between nodes; {} of {} comparison sites of the binary reached, {} with both outcomes",
        c.evals, c.seams, c.strips, c.sides.len(), sites, both
    );
}
