//! The bounded state space: a lattice over the validity range of IF97, refined around every
//! boundary of the formulation and around every numeric literal of the sources under test.
use crate::refm::*;

pub fn ulp(x: f64, n: i64) -> f64 {
    f64::from_bits((x.to_bits() as i64 + if x >= 0.0 { n } else { -n }) as u64)
}

#[derive(Clone, Copy)]
pub struct St {
    pub s: State, // s.p is the lattice pressure
    pub pd: f64,  // pressure of the basic equation at (T,d): differs from s.p in region 3 only
}
impl St {
    pub fn at(p: f64, t: f64) -> Option<St> {
        if p < PMIN {
            return None;
        }
        let mut s = state_pt(p, t)?;
        let pd = s.p;
        s.p = p;
        Some(St { s, pd })
    }
    /// the state of the basic equation (its own pressure in region 3)
    pub fn b(&self) -> State {
        let mut s = self.s;
        s.p = self.pd;
        s
    }
    pub fn text(&self) -> String {
        format!("region {} p={:?} T={:?}", self.s.reg, self.s.p, self.s.t)
    }
    pub fn x(&self, f: usize) -> f64 {
        self.co(crate::eng::IN[f].0)
    }
    pub fn y(&self, f: usize) -> f64 {
        self.co(crate::eng::IN[f].1)
    }
    /// coordinate as a caller would give it (t in Celsius)
    pub fn co(&self, o: i32) -> f64 {
        match o {
            0 => self.s.p,
            1 => self.s.t - K0,
            3 => self.s.v,
            4 => self.s.h,
            _ => self.s.s,
        }
    }
}
pub const PMIN: f64 = 0.000611213;
pub const PMIN_LIB: f64 = 0.000611212677444;

pub const PSPEC: &[f64] = &[
    PMIN_LIB, 0.000611213, 0.000611657, 0.001, 0.01, 0.101325, 1.0, 4.0, 6.54670, 10.0, 16.529164252604478, 16.5291643,
    19.00881189173929, 20.5, 21.04336732, 21.90096265, 21.93161551, 22.064, 22.11, 22.5, 23.0, 23.5, 25.0, 40.0, 50.0, 100.0,
];
pub const TSPEC: &[f64] = &[
    273.15, 273.16, 277.13, 298.15, 373.15, 473.15, 523.15, 573.15, 623.15, 643.15, 647.05, 647.096, 650.0, 863.15, 1073.15, 2273.15,
];
const OFF: &[f64] = &[-1e-3, -1e-6, -1e-9, 1e-9, 1e-6, 1e-3];

#[derive(Clone, Copy)]
pub struct Size {
    pub np: usize,
    pub nt: usize,
    pub curve: usize,
}
pub fn size(tier: &str) -> Size {
    match tier {
        "tiny" => Size { np: 24, nt: 40, curve: 20 },
        "small" => Size { np: 70, nt: 110, curve: 60 },
        "quick" => Size { np: 140, nt: 220, curve: 120 },
        "mid" => Size { np: 280, nt: 440, curve: 240 },
        "huge" => Size { np: 2800, nt: 4000, curve: 2400 },
        _ => Size { np: 700, nt: 1000, curve: 600 },
    }
}
fn push_off(v: &mut Vec<f64>, x: f64, full: bool) {
    v.push(x);
    v.push(ulp(x, 1));
    v.push(ulp(x, -1));
    if full {
        for o in OFF {
            v.push(x * (1.0 + o));
        }
    } else {
        v.push(x * (1.0 + 1e-6));
        v.push(x * (1.0 - 1e-6));
    }
}
fn dedup(mut v: Vec<f64>, lo: f64, hi: f64) -> Vec<f64> {
    v.retain(|x| *x >= lo && *x <= hi);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
pub fn p_axis(z: Size) -> Vec<f64> {
    let mut v = vec![];
    let n = z.np / 2;
    for i in 0..=n {
        v.push(PMIN * (100.0 / PMIN).powf(i as f64 / n as f64));
        v.push(0.37 + (99.63) * i as f64 / n as f64);
    }
    for &x in PSPEC {
        push_off(&mut v, x, true);
    }
    for &x in &lits().old {
        if x <= 100.0 && x >= PMIN {
            push_off(&mut v, x, false);
        }
    }
    for &x in &lits().new {
        for c in [x, 16.53 * x, x / 16.53, x.powi(4)] {
            push_off(&mut v, c, true);
        }
    }
    dedup(v, PMIN, 100.0)
}
pub fn t_axis(z: Size) -> Vec<f64> {
    let mut v = vec![];
    for i in 0..=z.nt {
        let f = i as f64 / z.nt as f64;
        v.push(273.15 + 2000.0 * f.powf(1.7));
    }
    // the dense-fluid range again, finer
    for i in 0..=z.nt / 3 {
        v.push(623.15 + 240.0 * i as f64 / (z.nt / 3) as f64);
    }
    for &x in TSPEC {
        push_off(&mut v, x, true);
    }
    for &x in &lits().old {
        if x >= 273.15 {
            push_off(&mut v, x, false);
        }
    }
    for &x in &lits().new {
        for c in [x, x + K0, 1386.0 / x, 540.0 / x, 1000.0 / x, 647.096 / x, 647.096 * x] {
            push_off(&mut v, c, true);
        }
    }
    dedup(v, 273.15, 2273.15)
}

// ------------------------------------------------------------ literals of the sources
pub struct Lits {
    pub old: Vec<f64>,
    pub new: Vec<f64>,
}
fn scan(dir: &std::path::Path, out: &mut Vec<f64>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            scan(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                literals(&t, out);
            }
        }
    }
}
fn literals(t: &str, out: &mut Vec<f64>) {
    for line in t.lines() {
        let line = line.split("//").next().unwrap();
        let tr = line.trim();
        // rows of coefficient tables are not thresholds
        if tr.starts_with('(') && tr.ends_with("),") {
            continue;
        }
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let prev = if i > 0 { b[i - 1] } else { b' ' };
            if b[i].is_ascii_digit() && !(prev.is_ascii_alphanumeric() || prev == b'_' || prev == b'.') {
                let st = i;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'_') {
                    i += 1
                }
                if i < b.len() && b[i] == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
                    i += 1;
                    while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'_') {
                        i += 1
                    }
                } else if i < b.len() && b[i] == b'.' {
                    i += 1;
                }
                if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                    let mut k = i + 1;
                    if k < b.len() && (b[k] == b'+' || b[k] == b'-') {
                        k += 1
                    }
                    if k < b.len() && b[k].is_ascii_digit() {
                        while k < b.len() && b[k].is_ascii_digit() {
                            k += 1
                        }
                        i = k;
                    }
                }
                let s: String = line[st..i].chars().filter(|c| *c != '_').collect();
                if let Ok(x) = s.trim_end_matches('.').parse::<f64>() {
                    if x > 0.0 && x.is_finite() {
                        out.push(x)
                    }
                }
            } else {
                i += 1
            }
        }
    }
}
pub fn all_literals() -> Vec<f64> {
    let mut v = vec![];
    scan(std::path::Path::new("/repo/src"), &mut v);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
pub fn lits() -> &'static Lits {
    static L: std::sync::OnceLock<Lits> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let base: Vec<u64> = include_str!("lits_base.txt").lines().filter_map(|l| u64::from_str_radix(l.trim(), 16).ok()).collect();
        let thr: Vec<f64> = include_str!("lits_thresholds.txt").lines().filter_map(|l| l.trim().parse().ok()).collect();
        let mut new: Vec<f64> = all_literals().into_iter().filter(|x| base.binary_search(&x.to_bits()).is_err()).collect();
        new.truncate(40);
        Lits { old: thr, new }
    })
}

// ------------------------------------------------------------ the lattice
/// all states of the lattice (single phase)
pub fn states(z: Size) -> Vec<St> {
    let pa = p_axis(z);
    let ta = t_axis(z);
    let mut v: Vec<St> = vec![];
    for &p in &pa {
        for &t in &ta {
            if let Some(s) = St::at(p, t) {
                v.push(s);
            }
        }
    }
    v.extend(curve_states(z));
    if let Some(x) = EXTRA.get() {
        v.extend(x.iter().copied());
    }
    v
}
/// states on the seams of the implementation (see seam.rs), set once per run
pub static EXTRA: std::sync::OnceLock<Vec<St>> = std::sync::OnceLock::new();
pub fn add(v: &mut Vec<St>, p: f64, t: f64) {
    if p <= 100.0 {
        if let Some(s) = St::at(p, t) {
            v.push(s)
        }
    }
}
/// both sides of every boundary curve of the formulation
pub fn curve_states(z: Size) -> Vec<St> {
    let mut v = vec![];
    let n = z.curve;
    // saturation line (0.9e-6 is inside the library's declared 1e-6 band around the line, so stay outside it)
    for i in 0..=n {
        for t in [273.15 + (TC - 273.15) * i as f64 / n as f64, TC - 24.0 * (i as f64 / n as f64).powi(3)] {
            let ps = psat(t.min(TC));
            for d in [1.1e-6, 1.01e-5, 1e-4, 1e-3, 1e-2] {
                for sg in [-1.0, 1.0] {
                    if t < TC {
                        add(&mut v, ps * (1.0 + sg * d), t);
                    }
                }
            }
        }
        // B23
        let t = 623.15 + 240.0 * i as f64 / n as f64;
        let pb = b23_p(t);
        for d in [1e-9, 1e-6, 1e-4, 1e-3] {
            for sg in [-1.0, 1.0] {
                add(&mut v, pb * (1.0 + sg * d), t);
            }
        }
        // sub-region lines of the v(p,T) equations
        let p = 16.53 + 83.47 * (i as f64 / n as f64).powi(3);
        for p in [p, 16.53 + 8.5 * i as f64 / n as f64] {
            for (tb, _) in subregions3(p) {
                for d in [1e-10, 1e-7, 1e-5, 3e-4] {
                    for sg in [-1.0, 1.0] {
                        add(&mut v, p, tb * (1.0 + sg * d));
                    }
                }
            }
        }
        // around the critical point
        for j in 0..=n {
            let p = 20.0 + 10.0 * i as f64 / n as f64;
            let t = 640.0 + 25.0 * j as f64 / n as f64;
            if i % 4 == 0 || j % 4 == 0 {
                add(&mut v, p, t);
            }
            if i % 5 == 0 && j % 5 == 0 {
                add(&mut v, PC * (1.0 + 0.01 * ((i as f64 / n as f64) * 2.0 - 1.0).powi(3)), TC * (1.0 + 0.004 * ((j as f64 / n as f64) * 2.0 - 1.0).powi(3)));
            }
        }
    }
    // level lines of h, s and v at the sub-region switches of the backward equations
    // and at every literal threshold
    let mut hl = vec![2087.546845, 2563.592004];
    let mut sl = vec![5.85, 4.41202148223476, 3.778281340, 5.210887825, 5.048096828, 5.260578707, 6.040483671, 6.069709159, 7.852340399, 9.155759395];
    let mut vl = vec![1.0 / 322.0];
    for &x in &lits().old {
        if x >= 100.0 && x < 4500.0 {
            hl.push(x)
        }
        if x > 0.0 && x < 12.0 {
            sl.push(x)
        }
        if x < 0.05 && x > 0.00095 {
            vl.push(x)
        }
    }
    for &x in &lits().new {
        hl.extend([x, x * 2000.0, x * 2500.0, x * 2800.0, x * 3400.0]);
        sl.extend([x, x * 7.6, x * 9.2, x * 5.3, x * 4.4]);
        vl.push(x);
        vl.push(1.0 / x);
    }
    let np = (n / 3).max(12);
    for (o, levels) in [(4, &hl), (5, &sl), (3, &vl)] {
        for &l in levels {
            for i in 0..=np {
                let f = i as f64 / np as f64;
                let p = if i % 2 == 0 { PMIN * (100.0 / PMIN).powf(f) } else { 100.0 * f };
                for (d, sg) in [(1e-9, 1.0), (1e-9, -1.0), (1e-5, 1.0), (1e-5, -1.0)] {
                    if let Some(t) = isobar_level(p, o, l * (1.0 + sg * d)) {
                        add(&mut v, p, t)
                    }
                }
            }
        }
    }
    // h2bc and h3ab seams
    for i in 0..=n {
        let p = 6.5467 + 93.4 * i as f64 / n as f64;
        for l in [h2bc(p), h3ab(p)] {
            for d in [1e-9, 1e-6] {
                for sg in [-1.0, 1.0] {
                    if let Some(t) = isobar_level(p, 4, l * (1.0 + sg * d)) {
                        add(&mut v, p, t)
                    }
                }
            }
        }
        // h2ab(s) seam (p2a/p2b is p = 4 MPa in (h,s) terms)
        let s = 5.85 + 3.3 * i as f64 / n as f64;
        let h = h2ab(s);
        let (p, q) = (p2_hs(h, s, 'a'), ());
        let _ = q;
        if p > PMIN && p < 100.0 {
            for sg in [-1.0, 1.0] {
                if let Some(t) = isobar_level(p, 4, h * (1.0 + sg * 1e-7)) {
                    add(&mut v, p, t)
                }
            }
        }
    }
    v
}
/// temperature at which property o has the value l on the isobar p (o = 3,4,5), single phase
pub fn isobar_level(p: f64, o: i32, l: f64) -> Option<f64> {
    let val = |t: f64| St::at(p, t).map(|s| s.co(o));
    let tmax = if p > 50.0 { 1073.15 } else { 2273.15 };
    let mut segs = vec![(273.15, tmax)];
    if p < PC && p >= PMIN {
        let ts = tsat(p);
        segs = vec![(273.15, ts * (1.0 - 1e-9)), (ts * (1.0 + 1e-9), tmax)];
    }
    for (mut a, mut b) in segs {
        if a >= b {
            continue;
        }
        let (Some(va), Some(vb)) = (val(a), val(b)) else { continue };
        if (va - l) * (vb - l) > 0.0 {
            continue;
        }
        for _ in 0..60 {
            let m = 0.5 * (a + b);
            match val(m) {
                Some(x) if x < l => a = m,
                Some(_) => b = m,
                None => break,
            }
        }
        return Some(0.5 * (a + b));
    }
    None
}

/// the regions a state may be in when its coordinates are known to the given accuracy;
/// 0 stands for "outside the range", 4 for the saturation line
pub fn near(p: f64, t: f64, dp: f64, dt: f64) -> Vec<i32> {
    let mut r = vec![];
    for a in [-1.0, 0.0, 1.0] {
        for b in [-1.0, 0.0, 1.0] {
            let (pp, tt) = (p * (1.0 + a * dp), t + b * dt);
            r.push(if pp < PMIN { 0 } else { region_pt(pp, tt) });
        }
    }
    r.sort();
    r.dedup();
    // between 1 and 2 lies 4; in region 3 the line is not a region boundary
    let tt = t.clamp(273.15, TC);
    let ps = psat(tt);
    let dps = ps * dp + ps * 20.0 * dt / tt;
    if t < TC + dt && (p - ps).abs() <= dps {
        r.push(4);
        if t > 623.15 - dt { r.push(3) }
    }
    r
}
/// the model states a point may be assigned to when a boundary passes within rounding of it
pub fn alternatives(p: f64, t: f64) -> Vec<St> {
    let mut v: Vec<(i32, char, St)> = vec![];
    for a in [0.0, -1.0, 1.0] {
        for b in [0.0, -1.0, 1.0] {
            let (pp, tt) = ((p * (1.0 + a * 1e-13)).min(100.0), t + b * 1e-12);
            let Some(r) = St::at(pp.max(PMIN), tt) else { continue };
            let c = if r.s.reg == 3 { subregion3(pp, tt) } else { ' ' };
            if v.iter().any(|x| x.0 == r.s.reg && x.1 == c) {
                continue;
            }
            let mut s = match r.s.reg {
                1 => reg1(p, t),
                2 => reg2(p, t),
                5 => reg5(p, t),
                _ => reg3(1.0 / v3(p, t, c), t),
            };
            let pd = s.p;
            s.p = p;
            v.push((r.s.reg, c, St { s, pd }));
        }
    }
    v.into_iter().map(|x| x.2).collect()
}
