//! C20: every sequence of input pairs up to a depth, each step fed with the result of the one before.
use crate::checks::*;
use crate::eng::*;
use crate::lat::*;
use crate::pairs::*;
use crate::refm::*;

/// what a caller holds after a step: p, t (Celsius), v, h, s, x and the region
#[derive(Clone, Copy)]
struct Held {
    p: f64,
    t: f64,
    v: f64,
    h: f64,
    s: f64,
    x: f64,
    r: f64,
}
impl Held {
    fn co(&self, o: i32) -> f64 {
        match o {
            0 => self.p,
            1 => self.t,
            3 => self.v,
            4 => self.h,
            5 => self.s,
            _ => self.x,
        }
    }
}
fn step(f: usize, q: &Held) -> (Held, f64, f64) {
    let (a, b) = (q.co(IN[f].0), q.co(IN[f].1));
    let g = |o: i32| call(f, a, b, o);
    // px and tx report no region
    let r = if f < 8 { g(16) } else { 4.0 };
    (Held { p: g(0), t: g(1), v: g(3), h: g(4), s: g(5), x: g(15), r }, a, b)
}
/// temperature a backward equation may be off by, per step (published: 25 mK; doubled by re-entry)
fn dt0(reg: i32) -> f64 {
    match reg {
        4 => 1e-3,
        5 => 1e-6,
        _ => 0.03,
    }
}
/// pressure error one step through pair f causes, first order, when T, h or s are off by the above
fn dp_of(f: usize, s: &State) -> f64 {
    let dt = dt0(s.reg);
    let (dh, ds) = (s.cp * dt, s.cp * dt / s.t);
    match f {
        TV => s.ec / s.kt * dt,
        TH => dh / (1000.0 * s.v * (1.0 - s.t * s.ec)).abs(),
        TS => ds / (1000.0 * s.v * s.ec).abs(),
        // h is handed on as given, s carries the temperature error of the step before
        HS if s.reg == 1 => 0.015 + ds * s.t / (1000.0 * s.v),
        HS => 1e-4 * s.p + ds * s.t / (1000.0 * s.v),
        _ => 1e-6 * s.p,
    }
    .abs()
}
/// pairs that determine the state well enough for a chain
fn usable(f: usize, st: &St) -> bool {
    let d = dp_of(f, &st.s);
    unique(f, st) && !ambiguous(f, &st.s) && st.s.t > 285.0 && !(f == TH && st.s.reg == 1 && st.s.t > 470.0)
        && d <= 0.003 * st.s.p + if st.s.reg == 1 { if f == HS { 0.16 } else { 0.012 } } else { 0.0 }
}
/// p and T error envelopes of a chain of the given depth
fn envelope(st: &St, fs: &[usize], depth: usize) -> (f64, f64) {
    let dp = fs.iter().map(|f| dp_of(*f, &st.s)).fold(1e-5 * st.s.p, f64::max);
    (dp * depth as f64 * 1.5, dt0(st.s.reg) * depth as f64 * 1.5)
}
/// no boundary within the envelope
fn interior(st: &St, e: (f64, f64)) -> bool {
    let n = near(st.s.p, st.s.t, (2.0 * e.0 / st.s.p).max(1e-3), (2.0 * e.1).max(0.1));
    n.len() == 1 && n[0] == st.s.reg
}
struct Walk<'a> {
    l: &'a mut Local,
    start: Held,
    reg: f64,
    depth: usize,
    fs: &'a [usize],
    at: &'a dyn Fn() -> String,
    lim: &'a dyn Fn(usize, usize) -> f64,
}
const Q: [&str; 5] = ["T", "lnp", "lnv", "h", "s"];
impl Walk<'_> {
    fn go(&mut self, q: &Held, path: &mut Vec<Call>, d: usize) {
        for &f in self.fs {
            let (n, a, b) = step(f, q);
            self.l.states += 1;
            self.l.transitions += 7;
            self.l.validated += 1;
            path.push(Call::new(f, a, b, 4));
            let txt = |path: &Vec<Call>| path.iter().map(|c| FN_NAMES[c.f]).collect::<Vec<_>>().join(" > ");
            let bad = n.r != self.reg || [n.p, n.t, n.v, n.h, n.s].iter().any(|z| is_err(*z) || !z.is_finite());
            if bad {
                let m = format!("{} from {}: region {} p={:?} t={:?} v={:?} h={:?} s={:?}", txt(path), (self.at)(), n.r, n.p, n.t, n.v, n.h, n.s);
                self.l.viol(&format!("lost.region{}.{}", self.reg, FN_NAMES[f]), path, m);
                path.pop();
                continue;
            }
            let e = [
                (n.t - self.start.t).abs(),
                (n.p / self.start.p).ln().abs(),
                (n.v / self.start.v).ln().abs(),
                (n.h - self.start.h).abs(),
                (n.s - self.start.s).abs(),
            ];
            for k in 0..5 {
                let (lim, name) = ((self.lim)(k, d + 1), Q[k]);
                let key = format!("region {} depth {} {name}", self.reg, d + 1);
                let p2 = path.clone();
                self.l.worst(&key, e[k] / lim, || format!("{:.3e} {} {}", e[k], txt(&p2), (self.at)()));
                if !(e[k] <= lim) {
                    let m = format!("{} from {}: {name} moved by {:.3e}, allowed {:.1e}", txt(path), (self.at)(), e[k], lim);
                    self.l.viol(&format!("drift.region{}.{name}", self.reg), path, m);
                }
            }
            if d + 1 < self.depth {
                self.go(&n, path, d + 1);
            } else {
                self.l.outcome(format!("region {} chain of {}", self.reg, self.depth));
            }
            path.pop();
        }
    }
}
fn mesh(n: usize) -> Vec<St> {
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n {
            let p = PMIN * 1.05 * (98.0 / PMIN).powf(i as f64 / (n - 1) as f64);
            let t = 274.5 + 1990.0 * (j as f64 / (n - 1) as f64).powf(1.5);
            add(&mut v, p, t);
            add(&mut v, 1.0 + 97.0 * i as f64 / (n - 1) as f64, 290.0 + 790.0 * j as f64 / (n - 1) as f64);
            add(&mut v, 17.0 + 82.0 * (i as f64 / (n - 1) as f64).powi(2), 624.5 + 230.0 * j as f64 / (n - 1) as f64);
        }
    }
    for x in &lits().new {
        for p in [*x, x / 16.53, 16.53 * x] {
            for i in 0..12 {
                add(&mut v, p * (1.0 + 1e-6), 290.0 + 100.0 * i as f64);
                add(&mut v, p * (1.0 - 1e-6), 290.0 + 100.0 * i as f64);
            }
        }
    }
    v
}
pub fn c20(tier: &str) -> Local {
    let (n, depth, nw) = match tier {
        "thorough" => (50, 4, 120),
        "quick" => (34, 3, 60),
        _ => (12, 3, 20),
    };
    // states on the seams of the implementation take one step less
    let mut ss: Vec<(St, usize)> = mesh(n).into_iter().map(|s| (s, depth)).collect();
    if let Some(x) = EXTRA.get() {
        ss.extend(x.iter().map(|s| (*s, depth - 1)));
    }
    let mut l = explore(&ss, |(st, depth), l| {
        let depth = *depth;
        let fs: Vec<usize> = ALL_PAIRS.iter().cloned().filter(|f| usable(*f, st)).collect();
        let ev = envelope(st, &fs, depth);
        if !interior(st, ev) || ((st.s.t - TC).abs() < 4.0 && st.s.p > 20.0 && st.s.p < 25.0) {
            l.skip("start within the error envelope of a boundary, or next to the critical point");
            return;
        }
        let b = st.b();
        let start = Held { p: st.s.p, t: st.s.t - K0, v: b.v, h: b.h, s: b.s, x: 0.0, r: st.s.reg as f64 };
        let lim = |k: usize, d: usize| {
            let (dp, dt) = envelope(st, &fs, d);
            let s = &st.s;
            match k {
                0 => dt + s.t * s.ec.abs() * s.v * 1000.0 / s.cp * dp,
                1 => dp / s.p + s.ec.abs() / s.kt * dt / s.p * if fs.contains(&TV) { 1.0 } else { 0.0 } + 1e-6,
                2 => s.ec.abs() * dt + s.kt * dp + 1e-6,
                3 => s.cp * dt + 1000.0 * s.v * dp,
                _ => s.cp * dt / s.t + 1000.0 * s.v * s.ec.abs() * dp,
            }
        };
        let mut w = Walk { l, start, reg: st.s.reg as f64, depth, fs: &fs, at: &|| st.text(), lim: &lim };
        w.go(&start, &mut vec![], 0);
    });
    // wet steam
    let mut ws = vec![];
    for i in 0..nw {
        let t = 274.0 + (645.0 - 274.0) * i as f64 / (nw - 1) as f64;
        if (t - 623.15).abs() < 0.5 {
            continue;
        }
        let (mut a, mut b) = sat_t(t);
        a.p = psat(t);
        b.p = a.p;
        for x in [0.05, 0.25, 0.5, 0.75, 0.95] {
            ws.push((Wet { l: a, g: b, x }, depth));
        }
    }
    if let Some(x) = EXTRA_WET.get() {
        ws.extend(x.iter().filter(|w| w.x > 0.01 && w.x < 0.99 && w.l.t > 274.0 && w.l.t < 645.0 && (w.l.t - 623.15).abs() > 0.5 && !crate::sat::near_switch(w.l.t, 0.05)).map(|w| (*w, depth - 1)));
    }
    l.merge(explore(&ws, |w, l| {
        let (w, depth) = (&w.0, w.1);
        let fs: Vec<usize> = [PH, PS, HS, PV, TV, TH, TS, PX, TX].iter().cloned().filter(|f| !w.edge(*f) && !w.as_liquid(*f, 1.0)).collect();
        let start = Held { p: w.l.p, t: w.l.t - K0, v: w.mix(3), h: w.mix(4), s: w.mix(5), x: w.x, r: 4.0 };
        let lim = |k: usize, d: usize| limit_wet(k, d);
        let mut q = Walk { l, start, reg: 4.0, depth, fs: &fs, at: &|| w.text(), lim: &lim };
        q.go(&start, &mut vec![], 0);
    }));
    // the saturated liquid and vapour px and tx report, once through every pair: rounding must not lose them
    let mut line = vec![];
    let m = match tier {
        "thorough" => 40000,
        "quick" => 4000,
        _ => 1000,
    };
    for i in 0..m {
        let t = 273.2 + (646.5 - 273.2) * i as f64 / (m - 1) as f64;
        for x in [0.0, 1.0] {
            line.push((t, x, i % 2 == 0));
        }
    }
    l.merge(explore(&line, |(t, x, by_p), l| {
        l.states += 1;
        let x = *x;
        let (f, a) = if *by_p { (PX, psat(*t)) } else { (TX, t - K0) };
        let g = |o: i32| call(f, a, x, o);
        let q = Held { p: g(0), t: g(1), v: g(3), h: g(4), s: g(5), x, r: 4.0 };
        for k in [PH, PS, HS, PV, TV, TH, TS, PX, TX] {
            let (n, u, w) = step(k, &q);
            l.transitions += 7;
            l.validated += 1;
            let path = [Call::new(f, a, x, IN[k].0), Call::new(f, a, x, IN[k].1), Call::new(k, u, w, 16)];
            let at = format!("{} > {} from {} {a:?} x={x}", FN_NAMES[f], FN_NAMES[k], IN[f].0);
            let single = if x == 0.0 { 1.0 } else { 2.0 };
            if [n.p, n.t, n.v, n.h, n.s].iter().any(|z| is_err(*z) || !z.is_finite()) || ![single, 3.0, 4.0].contains(&n.r) {
                l.viol(&format!("lost.saturated{x}.{}", FN_NAMES[k]), &path, format!("{at}: region {} p={:?} t={:?} v={:?} h={:?} s={:?}", n.r, n.p, n.t, n.v, n.h, n.s));
                continue;
            }
            // region 3 has x = 1 on both sides
            let dx = if n.r == 3.0 { 0.0 } else { (n.x - x).abs() };
            let lim = match k {
                HS => 2e-3 + 1e-2 * ((*t - 600.0) / 47.0).max(0.0),
                _ => 1e-6,
            };
            l.worst(&format!("saturated {x} {}", FN_NAMES[k]), dx / lim, || format!("{dx:.3e} {at}"));
            if !(dx <= lim) {
                l.viol(&format!("quality.saturated{x}.{}", FN_NAMES[k]), &path, format!("{at}: quality {:?}", n.x));
            }
        }
        l.outcome(format!("saturated {x}, once through every pair"));
    }));
    l
}
/// wet steam: T(h,s) is good to 0.86 mK, everything else is exact
fn limit_wet(k: usize, depth: usize) -> f64 {
    [2e-3, 6e-5, 6e-5, 8e-3, 2e-5][k] * depth as f64
}
