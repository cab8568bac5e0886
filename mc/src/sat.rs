//! C05 and C19: the saturation line and wet steam.
use crate::checks::*;
use crate::eng::*;
use crate::lat::*;
use crate::pairs::*;
use crate::refm::*;

pub const MIX: [i32; 8] = [2, 3, 4, 5, 6, 7, 12, 13];
fn tol_at(t: f64) -> f64 {
    // the saturated volumes of region 3 come from p(T) and T(p) in turn: near the critical point
    // they amplify rounding
    if t > 646.0 {
        1e-6
    } else {
        1e-9
    }
}
/// within rounding of a pressure or temperature where the saturated volumes switch equations
pub fn switch(t: f64) -> bool {
    near_switch(t, 2e-7)
}
pub fn near_switch(t: f64, d: f64) -> bool {
    [623.15, 643.15, tsat(P3CD), tsat(20.5), tsat(21.93161551), tsat(21.90096265)].iter().any(|s| (t - s).abs() < d)
}
/// T axis of the saturation line
pub fn line(tier: &str) -> Vec<f64> {
    let n = match tier {
        "tiny" => 60,
        "small" => 400,
        "quick" => 2000,
        "mid" => 6000,
        _ => 40000,
    };
    let mut v = vec![273.15, ulp(273.15, 1), 623.15, ulp(623.15, 1), ulp(623.15, -1)];
    for i in 0..=n {
        let f = i as f64 / n as f64;
        v.push(273.15 + (TC - 273.15) * f);
        v.push(TC - 24.0 * f.powi(3));
        v.push(tsat(PMIN_LIB * (PC / PMIN_LIB).powf(f)));
    }
    v.extend(t_axis(size("tiny")));
    v.extend(p_axis(size("tiny")).into_iter().filter(|p| *p >= PMIN_LIB && *p < PC).map(tsat));
    v.retain(|t| *t >= 273.15 && *t <= TC - 1e-4);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
/// saturated liquid and vapour through px and tx: every property in `ids` is that of the adjoining phase
pub fn sat_props(tier: &str, ids: &[i32]) -> Local {
    explore(&line(tier), |&t0, l| {
        l.states += 1;
        let tc = t0 - K0;
        let t = tc + K0;
        if t < 273.15 {
            return;
        }
        if switch(t) {
            l.skip("within rounding of a switch of the equations of the saturated volumes");
            return;
        }
        let p = psat(t);
        let tol = tol_at(t);
        for x in [0, 1] {
            let xs = x as f64;
            for f in [PX, TX] {
                let a = if f == PX { p } else { tc };
                if p < PMIN_LIB && f == PX {
                    continue;
                }
                // T of (p,x) is the T(p) equation
                let tt = if f == PX { tsat(p) } else { t };
                let mk = |tt: f64| {
                    if tt <= 623.15 {
                        if x == 0 { reg1(p, tt) } else { reg2(p, tt) }
                    } else {
                        reg3(1.0 / v3_sat(p, x), tt)
                    }
                };
                let mut s = mk(tt);
                l.outcome(format!("{} x={x} region {}", FN_NAMES[f], s.reg));
                let pb = s.p;
                for &o in ids {
                    if o == IN[f].0 || o == 15 || o == 16 {
                        continue;
                    }
                    let c = Call::new(f, a, xs, o);
                    let got = c.run();
                    s.p = if o == 0 { p } else { pb };
                    let want = s.prop(o);
                    let e = if want.is_nan() { if is_err(got) { 0.0 } else { f64::INFINITY } } else { dev(o, got, want) };
                    l.worst(&format!("{} x={x} region {} {}", FN_NAMES[f], s.reg, id::NAMES[o as usize]), e, || format!("T={t:?}"));
                    l.transitions += 1;
                    l.validated += 1;
                    if e > tol && e > tol + 30.0 * cond(&s, o) {
                        l.viol(
                            &format!("{}.x{x}.region{}.{}", FN_NAMES[f], s.reg, id::NAMES[o as usize]),
                            &[c],
                            format!("{} = {got:?}, model {want:?} (deviation {e:.2e}) on the saturation line at T={t:?}", c.text()),
                        );
                    }
                }
            }
        }
    })
}

pub fn c05(tier: &str) -> Local {
    let mut l = sat_props(tier, &(0..36).collect::<Vec<_>>());
    // the line itself
    l.merge(explore(&line(tier), |&t0, l| {
        l.states += 1;
        let tc = t0 - K0;
        let t = tc + K0;
        if t < 273.15 {
            return;
        }
        let p = psat(t);
        for x in [0.0, 0.25, 1.0] {
            let at = || format!("T={t:?} x={x}");
            let c = Call::new(TX, tc, x, 0);
            let got = c.run();
            bound(l, "line.psat", c, got, p, (got / p - 1.0).abs(), 1e-10, &at);
            if got >= PMIN_LIB {
                let c = Call::new(PX, got, x, 1);
                let back = c.run();
                bound(l, "line.inverse", c, back, tc, (back - tc).abs(), 1e-8, &at);
                let c = Call::new(PX, p, x, 1);
                let g = c.run();
                bound(l, "line.tsat", c, g, tsat(p) - K0, (g + K0 - tsat(p)).abs(), 1e-8, &at);
            }
        }
    }));
    l.merge(wet(tier, |w, l| {
        let t = w.l.t;
        if switch(t) {
            l.skip("within rounding of a switch of the equations of the saturated volumes");
            return;
        }
        let tc = t - K0;
        let tt = tc + K0;
        let at = || w.text();
        let tol = if t > 646.9 { 1e-4 } else if t > 646.0 { 1e-5 } else { 1e-8 };
        // ---- given quality
        for (f, a) in [(PX, w.l.p), (TX, tc)] {
            if f == TX && tt < 273.15 || f == PX && a < PMIN_LIB {
                continue;
            }
            for o in MIX {
                let c = Call::new(f, a, w.x, o);
                let got = c.run();
                let want = w.mix(o);
                bound(l, &format!("{}.mix.{}", FN_NAMES[f], id::NAMES[o as usize]), c, got, want, dev(o, got, want), tol, &at);
            }
        }
        // ---- given through another pair
        for f in TWOPHASE {
            let (a, b) = (w.co(IN[f].0), w.co(IN[f].1));
            let r = call(f, a, b, 16);
            if r != 4.0 {
                l.skip(&format!("{}: located in a neighbouring single phase (C02)", FN_NAMES[f]));
                continue;
            }
            let fun = FN_NAMES[f];
            l.outcome(format!("{fun} wet"));
            let (pr, tr, xr) = (call(f, a, b, 0), call(f, a, b, 1) + K0, call(f, a, b, 15));
            // tolerance in quality: rounding, amplified where the phases merge
            let tx = if f == HS { 2e-4 } else if t > 646.9 { 1e-3 } else if t > 646.0 { 1e-5 } else { 1e-7 };
            let c = Call::new(f, a, b, 15);
            if f == HS {
                // T(h,s) is good to 0.86 mK (25 mK permitted); everything else follows from it
                let c = Call::new(f, a, b, 1);
                bound(l, "hs.T", c, tr, t, (tr - t).abs(), hs_tol(w), &at);
                bound(l, "hs.p", c, pr, psat(tr), (pr / psat(tr) - 1.0).abs(), 1e-9, &at);
                let (q, g) = lib_sat(tr, pr);
                let x = ((a - q.h) / (g.h - q.h)).clamp(0.0, 1.0);
                bound(l, "hs.x", Call::new(f, a, b, 15), xr, x, (xr - x).abs(), if t > 646.0 { 1e-4 } else { 1e-8 }, &at);
                bound(l, "hs.x_state", Call::new(f, a, b, 15), xr, w.x, (xr - w.x).abs(), hs_xtol(w), &at);
            } else {
                bound(l, &format!("{fun}.x"), c, xr, w.x, (xr - w.x).abs(), tx, &at);
                bound(l, &format!("{fun}.p"), Call::new(f, a, b, 0), pr, w.l.p, (pr / w.l.p - 1.0).abs(), 1e-9, &at);
                bound(l, &format!("{fun}.t"), Call::new(f, a, b, 1), tr, t, (tr - t).abs(), 1e-8, &at);
            }
            let (q, g) = lib_sat(tr, pr);
            let m = Wet { l: q, g, x: xr };
            for o in MIX {
                if o == IN[f].0 || o == IN[f].1 {
                    continue;
                }
                let c = Call::new(f, a, b, o);
                let got = c.run();
                let want = m.mix(o);
                let k = if t > 646.9 { 3e-3 } else if t > 646.0 { 1e-5 } else { 1e-8 };
                bound(l, &format!("{fun}.mix.{}", id::NAMES[o as usize]), c, got, want, dev(o, got, want), k, &at);
            }
        }
        // ---- (h,x) and (s,x): some wet state with both values
        for (f, o) in [(HX, 4), (SX, 5)] {
            let a = w.mix(o);
            let c = Call::new(f, a, w.x, 1);
            let tr = c.run() + K0;
            l.transitions += 1;
            if !(tr >= 273.149 && tr <= TC + 1e-9) {
                // h and s of the lattice may lie an ulp beyond the extremum of the line
                if (w.l.t - 273.15).abs() < 2e-3 || w.l.t > 646.3 || w.extremum(o) {
                    l.skip(&format!("{}: at the extremum of {} on the line", FN_NAMES[f], id::NAMES[o as usize]));
                    continue;
                }
                l.viol(&format!("{}.found", FN_NAMES[f]), &[c], format!("{} = {:?}: no state found for {}", c.text(), tr - K0, w.text()));
                continue;
            }
            if tr > TC - 0.005 || switch(tr) {
                l.skip("hx, sx: answer at the critical point or a switch of equations");
                continue;
            }
            let (q, g) = sat_t(tr);
            let m = Wet { l: q, g, x: w.x };
            let got = m.mix(o);
            let near_c = tr > 640.0;
            bound(l, &format!("{}.reproduce", FN_NAMES[f]), c, got, a, (got - a).abs() / if o == 4 { 2000.0 } else { 5.0 }, if near_c { 2e-3 } else { 1e-6 }, &at);
            let k = if near_c { 1e-3 } else { 1e-8 };
            for o2 in MIX {
                if o2 == o {
                    continue;
                }
                let c = Call::new(f, a, w.x, o2);
                let got = c.run();
                let want = m.mix(o2);
                bound(l, &format!("{}.mix.{}", FN_NAMES[f], id::NAMES[o2 as usize]), c, got, want, dev(o2, got, want), k, &at);
            }
            let c = Call::new(f, a, w.x, 0);
            let got = c.run();
            bound(l, &format!("{}.p", FN_NAMES[f]), c, got, psat(tr), (got / psat(tr) - 1.0).abs(), 1e-9, &at);
        }
    }));
    l
}
impl Wet {
    /// is the mixture property o stationary in T at this quality?
    pub fn extremum(&self, o: i32) -> bool {
        let v = |t: f64| {
            let (l, g) = sat_t(t);
            Wet { l, g, x: self.x }.mix(o)
        };
        let (a, b, c) = (v(self.l.t - 2.0), v(self.l.t), v(self.l.t + 2.0));
        (b - a) * (c - b) <= 0.0
    }
}
fn lib_sat(t: f64, p: f64) -> (State, State) {
    if t <= 623.15 {
        (reg1(p, t), reg2(p, t))
    } else {
        (reg3(1.0 / v3_sat(p, 0), t), reg3(1.0 / v3_sat(p, 1), t))
    }
}
fn hs_tol(w: &Wet) -> f64 {
    if w.l.t > 646.0 {
        0.12
    } else if w.l.t > 640.0 {
        0.03
    } else {
        0.025
    }
}
fn hs_xtol(w: &Wet) -> f64 {
    if w.l.t > 646.0 {
        0.12
    } else if w.l.t > 640.0 {
        3e-3
    } else {
        1e-4
    }
}
