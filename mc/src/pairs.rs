//! C03, C04, C06, C07, C08: every pair against the model.
use crate::checks::*;
use crate::eng::*;
use crate::lat::*;
use crate::refm::*;

/// the state the implementation reports for a pair
#[derive(Clone, Copy)]
pub struct Loc {
    pub r: i32,
    pub p: f64,
    pub t: f64,
    pub v: f64,
}
pub fn locate(f: usize, x: f64, y: f64) -> Loc {
    Loc { r: call(f, x, y, 16) as i32, p: call(f, x, y, 0), t: call(f, x, y, 1) + K0, v: call(f, x, y, 3) }
}
impl Loc {
    pub fn state(&self) -> Option<State> {
        Some(match self.r {
            1 => reg1(self.p, self.t),
            2 => reg2(self.p, self.t),
            5 => reg5(self.p, self.t),
            3 => reg3(1.0 / self.v, self.t),
            _ => return None,
        })
    }
}
pub fn val(s: &State, o: i32) -> f64 {
    match o {
        0 => s.p,
        1 => s.t,
        3 => s.v,
        4 => s.h,
        _ => s.s,
    }
}
/// official backward equations; more than one candidate only within rounding of a sub-region seam
pub fn back_t(f: usize, r: i32, p: f64, y: f64) -> Vec<f64> {
    let e = 1e-9;
    let near = |g: &dyn Fn(f64, f64) -> f64| {
        let mut v = vec![g(p, y)];
        for (a, b) in [(1.0 + e, 1.0), (1.0 - e, 1.0), (1.0, 1.0 + e), (1.0, 1.0 - e)] {
            v.push(g(p * a, y * b))
        }
        v
    };
    let mut out = vec![];
    match (f, r) {
        (PH, 1) => out.push(t1_ph(p, y)),
        (PS, 1) => out.push(t1_ps(p, y)),
        (PH, 2) => {
            for (a, b) in pert(e) {
                out.push(t2_ph(p, y, sub2_ph(p * a, y * b)))
            }
        }
        (PS, 2) => {
            for (a, b) in pert(e) {
                out.push(t2_ps(p, y, sub2_ps(p * a, y * b)))
            }
        }
        (PH, 3) => out = near(&t3_ph),
        (PS, 3) => out = near(&t3_ps),
        _ => {}
    }
    out
}
fn pert(e: f64) -> [(f64, f64); 5] {
    [(1.0, 1.0), (1.0 + e, 1.0), (1.0 - e, 1.0), (1.0, 1.0 + e), (1.0, 1.0 - e)]
}
fn back_v3(f: usize, p: f64, y: f64) -> Vec<f64> {
    pert(1e-9).iter().map(|(a, b)| if f == PH { v3_ph(p * a, y * b) } else { v3_ps(p * a, y * b) }).collect()
}
fn back_p(r: i32, h: f64, s: f64) -> Vec<f64> {
    pert(1e-9)
        .iter()
        .map(|(a, b)| match r {
            1 => p1_hs(h, s),
            2 => p2_hs(h, s, sub2_hs(h * a, s * b)),
            _ => p3_hs(h * a, s * b),
        })
        .collect()
}
fn best(got: f64, c: &[f64], rel: bool) -> (f64, f64) {
    let mut b = (f64::INFINITY, f64::NAN);
    for &w in c {
        let e = if got == w { 0.0 } else if rel { ((got - w) / w).abs() } else { (got - w).abs() };
        if !(e >= b.0) {
            b = (e, w)
        }
    }
    b
}

/// one comparison with a bound on the absolute or relative deviation
pub fn bound(l: &mut Local, kind: &str, c: Call, got: f64, want: f64, e: f64, tol: f64, at: &dyn Fn() -> String) {
    l.transitions += 1;
    l.validated += 1;
    l.worst(kind, e, || at());
    if !(e <= tol) {
        l.viol(kind, &[c], format!("{} = {:?}, model {:?} (deviation {:.3e}, allowed {:.1e}) at {}", c.text(), got, want, e, tol, at()));
    }
}

// ======================================================================== C03
pub fn c03(tier: &str) -> Local {
    let ss = states(size(tier));
    explore(&ss, |st, l| {
        l.states += 1;
        // in region 3 the exact state of the basic equation: its own pressure
        let st = &St { s: st.b(), pd: st.pd };
        if region_pt(st.s.p, st.s.t) != st.s.reg || st.s.p > 100.0 {
            l.skip("region 3: basic-equation pressure of v(p,T) lies across a boundary");
            return;
        }
        for f in [PH, PS, HS] {
            let (x, y) = (st.x(f), st.y(f));
            let r = call(f, x, y, 16) as i32;
            let fun = FN_NAMES[f];
            if r != st.s.reg {
                // C02 decides whether this is allowed; here every interior state has to be located
                if admitted(f, st).len() == 1 {
                    let c = Call::new(f, x, y, 16);
                    l.viol(&format!("{fun}.located.region{}", st.s.reg), &[c], format!("{} = {r}: {} cannot be located", c.text(), st.text()));
                } else {
                    l.skip("on a region boundary, assigned to the neighbour");
                }
                continue;
            }
            l.outcome(format!("{fun} region {r}"));
            let at = || st.text();
            let k = |w: &str| format!("{fun}.{w}.region{r}");
            let ct = Call::new(f, x, y, 1);
            let t = ct.run() + K0;
            if f == HS {
                let cp = Call::new(f, x, y, 0);
                let p = cp.run();
                if r != 5 {
                    let (e, w) = best(p, &back_p(r, x, y), true);
                    bound(l, &k("p_equation"), cp, p, w, e, 1e-9, &at);
                    // T of the official T(p,h) equation at that pressure
                    let (e, w) = best(t, &back_t(PH, r, p, x), false);
                    bound(l, &k("t_equation"), ct, t - K0, w - K0, e, 1e-6, &at);
                } else {
                    let e = (p / st.s.p - 1.0).abs();
                    bound(l, &k("p"), cp, p, st.s.p, e, 1e-6, &at);
                }
                let (e, tol) = tol_p(r, &st.s, p);
                bound(l, &k("p_consistency"), cp, p, st.s.p, e, tol, &at);
            } else if r != 5 {
                let (e, w) = best(t, &back_t(f, r, x, y), false);
                bound(l, &k("t_equation"), ct, t - K0, w - K0, e, 1e-7, &at);
            }
            let e = (t - st.s.t).abs();
            bound(l, &k("t_consistency"), ct, t - K0, st.s.t - K0, e, tol_t(f, r, &st.s), &at);
            if r == 3 {
                let cv = Call::new(f, x, y, 3);
                let v = cv.run();
                let c = if f == HS { back_v3(PH, call(f, x, y, 0), x) } else { back_v3(f, x, y) };
                let (e, w) = best(v, &c, true);
                bound(l, &k("v_equation"), cv, v, w, e, 1e-8, &at);
            }
        }
    })
}
/// published consistency of p(h,s)
fn tol_p(r: i32, s: &State, p: f64) -> (f64, f64) {
    match r {
        1 => {
            if s.p <= 2.5 {
                ((p / s.p - 1.0).abs(), 6e-3)
            } else {
                ((p - s.p).abs(), 0.015)
            }
        }
        2 => ((p / s.p - 1.0).abs(), if s.s < 5.85 { 8.8e-5 } else { 3.5e-5 }),
        3 => ((p / s.p - 1.0).abs(), 1e-4),
        _ => ((p / s.p - 1.0).abs(), 1e-6),
    }
}
fn tol_t(_f: usize, r: i32, s: &State) -> f64 {
    match r {
        1 => 0.025,
        2 => {
            if s.s < 5.85 {
                0.025
            } else {
                0.010
            }
        }
        3 => 0.025,
        _ => 1e-5,
    }
}

// ======================================================================== C04
pub const EXT: [usize; 4] = [PV, TV, TH, TS];
/// how well the solvers reproduce the second input (relative for v, absolute for h and s)
fn solver_tol(r: i32, boundary: bool) -> f64 {
    if boundary {
        1e-4 // the surfaces of neighbouring regions do not meet exactly
    } else if r == 2 {
        1e-5
    } else {
        1e-6
    }
}
/// deviation of the second coordinate, relative for v, absolute otherwise
fn ydev(f: usize, got: f64, want: f64) -> f64 {
    let e = (got - want).abs();
    if IN[f].1 == 3 {
        e / want
    } else {
        e
    }
}
pub fn c04(tier: &str) -> Local {
    let ss = states(size(tier));
    explore(&ss, |st, l| {
        l.states += 1;
        let st = &St { s: st.b(), pd: st.pd };
        if region_pt(st.s.p, st.s.t) != st.s.reg || st.s.p > 100.0 {
            l.skip("region 3: basic-equation pressure of v(p,T) lies across a boundary");
            return;
        }
        for f in EXT {
            let (x, y) = (st.x(f), st.y(f));
            let lo = locate(f, x, y);
            let fun = FN_NAMES[f];
            let r = lo.r;
            let c = Call::new(f, x, y, if IN[f].0 == 0 { 1 } else { 0 });
            let at = || st.text();
            l.outcome(format!("{fun} region {} -> {}", st.s.reg, r));
            let adm = admitted(f, st);
            let tol0 = solver_tol(r, adm.len() > 1 || st.s.t < 273.16);
            match r {
                1 | 2 | 3 | 5 if adm.contains(&r) => {
                    let s = lo.state().unwrap();
                    let o = IN[f].1;
                    let e = ydev(f, val(&s, o), y);
                    bound(l, &format!("{fun}.reproduce.region{r}"), c, val(&s, o), y, e, tol0, &at);
                    // the first input is echoed and v is the volume of the state
                    let (echo, w) = if IN[f].0 == 0 { (lo.p, x) } else { (lo.t - K0, x) };
                    bound(l, &format!("{fun}.first.region{r}"), Call::new(f, x, y, IN[f].0), echo, w, (echo - w).abs(), 0.0, &at);
                    bound(l, &format!("{fun}.v.region{r}"), Call::new(f, x, y, 3), lo.v, s.v, (lo.v / s.v - 1.0).abs(), if IN[f].1 == 3 { tol0 } else { 1e-9 }, &at);
                    let p = s.p; // in region 3 the state is (T,v)
                    bound(l, &format!("{fun}.p.region{r}"), Call::new(f, x, y, 0), lo.p, p, (lo.p / p - 1.0).abs(), if r == 3 { 1e-4 } else { 1e-12 }, &at);
                    // where the pair determines the state, it is the original one
                    let (dt, dp) = ((lo.t - st.s.t).abs(), (lo.p - st.s.p).abs());
                    if !unique(f, st) {
                        l.skip(&format!("{fun}: the pair has two solutions here"));
                    } else if r == st.s.reg {
                        // first-order error of the other coordinate for the residual allowed
                        let d = if f == PV { dt } else { dp };
                        let tol = tol0 * sens(f, st) * 2.0 + if f == PV { 1e-6 } else { 1e-9 + 1e-7 * st.s.p };
                        bound(l, &format!("{fun}.original.region{r}"), c, c.run(), if f == PV { st.s.t - K0 } else { st.s.p }, d, tol, &at);
                    }
                }
                4 if ambiguous(f, &st.s) => {
                    // the wet state that shares both coordinates
                    let (p, t) = (lo.p, lo.t);
                    let (q, w) = sat_t(t);
                    let xq = call(f, x, y, 15);
                    let g = val(&q, IN[f].1) * (1.0 - xq) + val(&w, IN[f].1) * xq;
                    l.transitions += 1;
                    if !(ydev(f, g, y) < 1e-6 && (p / psat(t) - 1.0).abs() < 1e-6 && (0.0..=1.0).contains(&xq)) {
                        l.viol(&format!("{fun}.wet"), &[c], format!("{}: wet state p={p} t={t} x={xq} does not reproduce the inputs of {}", c.text(), st.text()));
                    }
                    l.skip(&format!("{fun}: state shares both coordinates with wet steam"));
                }
                _ => {
                    if adm.len() == 1 {
                        l.viol(&format!("{fun}.located.region{}", st.s.reg), &[c], format!("{} is given region {r} for {}", c.text(), st.text()));
                    } else {
                        l.skip("on a region boundary, assigned to the neighbour");
                    }
                }
            }
        }
    })
}
/// change of T (pv) or p (tv, th, ts) per unit of the deviation `ydev`
pub fn sens(f: usize, st: &St) -> f64 {
    let s = &st.s;
    match f {
        PV => 1.0 / s.ec.abs().max(1e-12),
        TV => 1.0 / s.kt.abs().max(1e-12),
        // dh/dp = v(1-T beta), ds/dp = -v beta  (MPa -> kJ: 1000)
        TH => 1.0 / (1000.0 * s.v * (1.0 - s.t * s.ec)).abs().max(1e-12),
        _ => 1.0 / (1000.0 * s.v * s.ec).abs().max(1e-12),
    }
}
/// does the pair have this state as its only single-phase solution?
pub fn unique(f: usize, st: &St) -> bool {
    let s = &st.s;
    match f {
        // volume of cold water has a minimum in T, enthalpy of hot water a minimum in p
        PV => !(s.reg == 1 && s.t < 282.0),
        TS => !(s.reg == 1 && s.t < 282.0),
        TH => !(s.reg == 1 && s.t > 480.0 || s.reg == 3),
        _ => true,
    }
}

// ================================================== C06, C07, C08: every property of every pair
pub const ALL_PAIRS: [usize; 8] = [PT, PH, PS, HS, PV, TV, TH, TS];
/// every property in `ids`, asked for individually through every pair, is the model's value of it
/// at the state the pair reports
pub fn pair_props(tier: &str, ids: &[i32]) -> Local {
    let ss = states(size(tier));
    explore(&ss, |st, l| {
        l.states += 1;
        for f in ALL_PAIRS {
            let (x, y) = (st.x(f), st.y(f));
            let lo = locate(f, x, y);
            let fun = FN_NAMES[f];
            if matches!(lo.r, 1 | 2 | 3 | 5) && [lo.p, lo.t - K0, lo.v].iter().any(|z| is_err(*z) || !z.is_finite()) {
                let c = Call::new(f, x, y, if is_err(lo.p) { 0 } else if is_err(lo.v) { 3 } else { 1 });
                l.viol(&format!("{fun}.no_state"), &[Call::new(f, x, y, 16), c], format!("{fun} reports region {} but p={:?} T={:?} v={:?} at {}", lo.r, lo.p, lo.t, lo.v, st.text()));
                continue;
            }
            if !matches!(lo.r, 1 | 2 | 3 | 5) {
                l.skip(&format!("{fun}: not a single-phase answer (decided by C02 and C10)"));
                continue;
            }
            l.outcome(format!("{fun} region {}", lo.r));
            let s = lo.state().unwrap();
            // (p,v), (t,v): the given volume is reported, T or p is what the solver found for it
            for &o in ids {
                if o == IN[f].0 || o == IN[f].1 || o == 15 || o == 16 {
                    continue;
                }
                if lo.r == 3 && o == 0 {
                    continue; // pressure of the pair's own equation: C03, C04
                }
                let c = Call::new(f, x, y, o);
                let got = c.run();
                let want = s.prop(o);
                l.transitions += 1;
                l.validated += 1;
                let e = if want.is_nan() {
                    if is_err(got) { 0.0 } else { f64::INFINITY }
                } else {
                    dev(o, got, want)
                };
                let name = id::NAMES[o as usize];
                l.worst(&format!("{fun} region {} {name}", s.reg), e, || st.text());
                if e > TOL {
                    let k = cond2(&s, o);
                    if e > TOL + k {
                        l.viol(&format!("{fun}.region{}.{name}", s.reg), &[c], format!("{} = {:?}, model {:?} (deviation {:.2e}) at {}", c.text(), got, want, e, st.text()));
                    }
                }
            }
        }
    })
}
/// change of the model value when T is passed through Celsius (2^-44 K) and v, p are rounded
fn cond2(s: &State, o: i32) -> f64 {
    let dt = 1.2e-13;
    let (a, b) = match s.reg {
        1 => (reg1(s.p, s.t + dt), reg1(s.p, s.t - dt)),
        2 => (reg2(s.p, s.t + dt), reg2(s.p, s.t - dt)),
        5 => (reg5(s.p, s.t + dt), reg5(s.p, s.t - dt)),
        _ => (reg3(1.0 / s.v * (1.0 + 1e-15), s.t + dt), reg3(1.0 / s.v * (1.0 - 1e-15), s.t - dt)),
    };
    let mut k = dev(o, a.prop(o), b.prop(o));
    if s.reg == 3 {
        let (a, b) = (reg3(1.0 / s.v * (1.0 - 1e-15), s.t + dt), reg3(1.0 / s.v * (1.0 + 1e-15), s.t - dt));
        k = k.max(dev(o, a.prop(o), b.prop(o)));
    }
    if k.is_nan() {
        1e-3
    } else {
        (20.0 * k.max(ulps(s, o))).min(1e-3)
    }
}
