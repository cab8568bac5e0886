//! C17 (stability, monotonicity) and C18 (continuity): relations between neighbouring states.
use crate::checks::*;
use crate::eng::*;
use crate::lat::*;
use crate::refm::*;

/// nodes on the seams of the implementation along a row; where the model has a seam of its own there,
/// the published inconsistency applies 1e-9 away from it, so that rounding decides nothing
fn seam_nodes(base: &[f64], pt: &(dyn Fn(f64) -> (f64, f64) + Sync), every: usize) -> Vec<f64> {
    let Some(s) = crate::seam::open() else { return vec![] };
    let nodes: Vec<f64> = base.iter().copied().step_by(every.max(1)).collect();
    let mut cv = crate::seam::Cover::default();
    let mk = |u: f64| {
        let (p, t) = pt(u);
        (region_pt(p, t) > 0 && !in_band(p, t)).then(|| (p, t - K0))
    };
    let mut v = vec![];
    for o in [3, 26] {
        v.extend(crate::seam::scan_line(s, PT, o, &nodes, &mk, &mut cv));
    }
    crate::seam::note(cv);
    let key = |u: f64| {
        let (p, t) = pt(u);
        let r = region_pt(p, t);
        (r, if r == 3 { subregion3(p, t) } else { ' ' })
    };
    v.retain(|u| key(u * (1.0 + 5e-10)) == key(u * (1.0 - 5e-10)));
    v
}
/// temperatures of a row at pressure p: the common axis and both sides of every line it crosses
fn row_t(p: f64, base: &[f64], every: usize) -> Vec<f64> {
    let mut v = base.to_vec();
    let mut cross = vec![623.15, 863.15, 1073.15];
    if p < PC {
        cross.push(tsat(p));
    }
    if p > PS623 {
        cross.push(b23_t(p));
        cross.extend(subregions3(p).iter().map(|x| x.0));
    }
    for c in cross {
        for d in [1e-9, 1e-7, 2e-6, 1e-5, 1e-4, 1e-3] {
            v.extend([c * (1.0 + d), c * (1.0 - d)]);
        }
    }
    v.extend(seam_nodes(base, &|u| (p, u), every));
    v.retain(|t| *t >= 273.15 && *t <= if p > 50.0 { 1073.15 } else { 2273.15 });
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
fn row_p(t: f64, base: &[f64], every: usize) -> Vec<f64> {
    let mut v = base.to_vec();
    let mut cross = vec![PS623, 50.0];
    if t < TC {
        cross.push(psat(t));
    }
    if t > 623.15 && t < 863.15 {
        cross.push(b23_p(t));
    }
    if t > 620.0 && t < 870.0 {
        for i in 0..1200 {
            v.push(16.0 + 14.0 * i as f64 / 1200.0);
            v.push(30.0 + 70.0 * i as f64 / 1200.0);
        }
    }
    for c in cross {
        for d in [1e-9, 1.1e-6, 1e-5, 1e-4, 1e-3] {
            v.extend([c * (1.0 + d), c * (1.0 - d)]);
        }
    }
    v.extend(seam_nodes(base, &|u| (u, t), every));
    v.retain(|p| *p >= PMIN && *p <= if t > 1073.15 { 50.0 } else { 100.0 });
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
#[derive(Clone, Copy)]
struct Pt {
    p: f64,
    t: f64,
    r: i32,
    sub: char,
    vap: bool, // on the vapour side of the saturation line
    v: f64,
    h: f64,
    s: f64,
    cp: f64,
    ec: f64,
    kt: f64,
}
const POS: [(i32, &str); 8] = [(3, "v"), (8, "cp"), (9, "cv"), (10, "w"), (18, "kt"), (24, "dv"), (26, "tc"), (2, "d")];
fn eval(p: f64, t: f64, l: &mut Local) -> Option<Pt> {
    let tc = t - K0;
    let t = tc + K0;
    if in_band(p, t) || region_pt(p, t) < 1 {
        l.skip("within 1e-6 of the saturation line");
        return None;
    }
    let g = |o: i32| call(PT, p, tc, o);
    let (v, h, s, cp, ec, kt) = (g(3), g(4), g(5), g(8), g(17), g(18));
    l.states += 1;
    l.transitions += 6;
    l.validated += 6;
    let r = region_pt(p, t);
    let sub = if r == 3 { subregion3(p, t) } else { ' ' };
    Some(Pt { p, t, r, sub, vap: t < TC && p < psat(t), v, h, s, cp, ec, kt })
}
/// how the two states are related: decides what the published equations themselves allow
fn class(a: &Pt, b: &Pt) -> &'static str {
    let y = |c: char| matches!(c, 'y' | 'z');
    let u = |c: char| matches!(c, 'u' | 'v' | 'w' | 'x');
    if y(a.sub) || y(b.sub) {
        "next to the critical point"
    } else if u(a.sub) || u(b.sub) {
        "near the critical point"
    } else if a.r != b.r {
        "region seam"
    } else if a.sub != b.sub {
        "sub-region seam"
    } else if a.r == 3 {
        "inside region 3"
    } else {
        "inside"
    }
}
pub fn c17(tier: &str) -> Local {
    let z = size(match tier {
        "quick" => "mid",
        "thorough" => "huge",
        x => x,
    });
    let (pa, ta) = (p_axis(z), t_axis(z));
    let every = if tier == "thorough" { 1 } else { 2 };
    let mut l = explore(&pa, |&p, l| {
        let mut prev: Option<Pt> = None;
        for t in row_t(p, &ta, every) {
            let Some(b) = eval(p, t, l) else { continue };
            let at = || format!("p={p:?} T={:?}", b.t);
            // positivity, finiteness, cp >= cv
            for (o, n) in POS {
                let c = Call::new(PT, p, b.t - K0, o);
                let x = c.run();
                l.transitions += 1;
                l.validated += 1;
                if !(x > 0.0 && x.is_finite()) {
                    l.viol(&format!("positive.{n}.region{}", b.r), &[c], format!("{} = {x:?} at {}", c.text(), at()));
                }
            }
            let (c1, c2) = (Call::new(PT, p, b.t - K0, 8), Call::new(PT, p, b.t - K0, 9));
            if !(c1.run() >= c2.run() * (1.0 - 1e-9)) {
                l.viol(&format!("cp_below_cv.region{}", b.r), &[c1, c2], format!("{} = {:?} < {} = {:?}", c1.text(), c1.run(), c2.text(), c2.run()));
            }
            for o in 0..36 {
                let c = Call::new(PT, p, b.t - K0, o);
                let x = c.run();
                if !x.is_finite() {
                    l.viol(&format!("finite.region{}.{}", b.r, id::NAMES[o as usize]), &[c], format!("{} = {x:?}", c.text()));
                }
            }
            l.outcome(format!("isobar state region {}", b.r));
            if let Some(a) = prev {
                mono(l, &a, &b, true);
            }
            prev = Some(b);
        }
    });
    l.merge(explore(&ta, |&t, l| {
        let mut prev: Option<Pt> = None;
        for p in row_p(t, &pa, every) {
            let Some(b) = eval(p, t, l) else { continue };
            l.outcome(format!("isotherm state region {}", b.r));
            if let Some(a) = prev {
                mono(l, &a, &b, false);
            }
            prev = Some(b);
        }
    }));
    l
}
fn mono(l: &mut Local, a: &Pt, b: &Pt, isobar: bool) {
    let c = class(a, b);
    if c.starts_with("next") {
        l.skip("neighbours next to the critical point (sub-regions y and z)");
        return;
    }
    let k = match c {
        "inside" | "inside region 3" => 0,
        "near the critical point" => 2,
        _ => 1,
    };
    let mut chk = |name: &str, o: i32, fall: f64, tol: f64| {
        l.worst(&format!("fall of {name} {c}"), fall, || format!("p={:?} T={:?} p={:?} T={:?} {}{} {}{}", a.p, a.t, b.p, b.t, a.r, a.sub, b.r, b.sub));
        if !(fall <= tol) {
            let (c, d) = (Call::new(PT, a.p, a.t - K0, o), Call::new(PT, b.p, b.t - K0, o));
            l.viol(&format!("monotone.{name}.region{}to{}", a.r, b.r), &[c, d], format!("{} = {:?} then {} = {:?}", c.text(), c.run(), d.text(), d.run()));
        }
    };
    if isobar {
        chk("h", 4, a.h - b.h, [1e-9, 0.2, 1.0][k]);
        chk("s", 5, a.s - b.s, [1e-12, 3e-4, 1.6e-3][k]);
    } else {
        // 3u|3v leaves 1.23e-3 at 22.117 MPa, in the model as in the crate
        chk("v", 3, b.v / a.v - 1.0, [1e-12, 5e-4, 1.6e-3][k]);
    }
}

// ===================================================================== C18
/// |y_b - y_a - integral| where the integral is bounded by the slopes reported at both ends
fn jump(ya: f64, yb: f64, da: f64, db: f64, dx: f64) -> f64 {
    let lin = 0.5 * (da + db) * dx;
    let slack = 0.75 * ((db - da) * dx).abs();
    let e = (yb - ya - lin).abs() - slack;
    if e.is_nan() {
        f64::INFINITY
    } else {
        e.max(0.0)
    }
}
pub fn c18(tier: &str) -> Local {
    let z = size(match tier {
        "quick" => "mid",
        "thorough" => "huge",
        x => x,
    });
    let (pa, ta) = (p_axis(z), t_axis(z));
    let every = if tier == "thorough" { 1 } else { 2 };
    // ---- (p,t): isobars and isotherms
    let mut l = explore(&pa, |&p, l| {
        let mut prev: Option<Pt> = None;
        for t in row_t(p, &ta, every) {
            let Some(b) = eval(p, t, l) else { continue };
            l.outcome(format!("isobar state region {}", b.r));
            if let Some(a) = prev {
                if a.vap == b.vap && fine(l, &a, &b) {
                    let dx = b.t - a.t;
                    let k = |n: &str| format!("pt.isobar.{n}{}", tag(&a, &b));
                    let w = || format!("p={p:?} T={:?} and T={:?} ({}{} {}{})", a.t, b.t, a.r, a.sub, b.r, b.sub);
                    let cs = |o: i32| [Call::new(PT, p, a.t - K0, o), Call::new(PT, p, b.t - K0, o)];
                    step(l, &k("h"), &cs(4), jump(a.h, b.h, a.cp, b.cp, dx), lim(&a, &b, 0), &w);
                    step(l, &k("s"), &cs(5), jump(a.s, b.s, a.cp / a.t, b.cp / b.t, dx), lim(&a, &b, 1), &w);
                    if dx < 5e-9 * a.t {
                        // second derivatives meet only approximately
                        let q = |o: i32| {
                            let c = cs(o);
                            (c[1].run() / c[0].run()).ln().abs()
                        };
                        l.transitions += 4;
                        step(l, &k("cp"), &cs(8), q(8), lim2(&a, &b, 0), &w);
                        step(l, &k("w"), &cs(10), q(10), lim2(&a, &b, 1), &w);
                    }
                    step(l, &k("v"), &cs(3), jump(a.v, b.v, a.v * a.ec, b.v * b.ec, dx) / a.v, lim(&a, &b, 2), &w);
                }
            }
            prev = Some(b);
        }
    });
    l.merge(explore(&ta, |&t, l| {
        let mut prev: Option<Pt> = None;
        for p in row_p(t, &pa, every) {
            let Some(b) = eval(p, t, l) else { continue };
            l.outcome(format!("isotherm state region {}", b.r));
            if let Some(a) = prev {
                if a.vap == b.vap && fine(l, &a, &b) {
                    let dx = b.p - a.p;
                    let k = |n: &str| format!("pt.isotherm.{n}{}", tag(&a, &b));
                    let w = || format!("T={t:?} p={:?} and p={:?} ({}{} {}{})", a.p, b.p, a.r, a.sub, b.r, b.sub);
                    let cs = |o: i32| [Call::new(PT, a.p, a.t - K0, o), Call::new(PT, b.p, b.t - K0, o)];
                    // dilute gas: v ~ 1/p, s ~ -R ln p: steps in ln p and p v
                    step(l, &k("v"), &cs(3), jump((a.v * a.p).ln(), (b.v * b.p).ln(), 1.0 - a.p * a.kt, 1.0 - b.p * b.kt, (b.p / a.p).ln()), lim(&a, &b, 2), &w);
                    step(l, &k("h"), &cs(4), jump(a.h, b.h, 1e3 * a.v * (1.0 - a.t * a.ec), 1e3 * b.v * (1.0 - b.t * b.ec), dx), lim(&a, &b, 0), &w);
                    step(l, &k("s"), &cs(5), jump(a.s, b.s, -1e3 * a.p * a.v * a.ec, -1e3 * b.p * b.v * b.ec, (b.p / a.p).ln()), lim(&a, &b, 1), &w);
                }
            }
            prev = Some(b);
        }
    }));
    // ---- the saturated phases where their equations change (623.15 K)
    let mut sat = vec![];
    for d in [1e-12, 1e-9, 1e-7] {
        for f in [PX, TX] {
            for x in [0.0, 0.25, 0.5, 0.75, 1.0] {
                for o in [1, 0, 3, 4, 5, 7] {
                    sat.push((d, f, x, o));
                }
            }
        }
    }
    l.merge(explore(&sat, |&(d, f, x, o), l| {
        l.states += 1;
        if o == IN[f].0 {
            return;
        }
        let m = if f == PX { PS623 } else { 350.0 };
        let (a, b) = (Call::new(f, m * (1.0 - d), x, o), Call::new(f, m * (1.0 + d), x, o));
        let (ya, yb) = (a.run(), b.run());
        let (e, tol) = match o {
            3 => ((yb / ya - 1.0).abs(), 4e-4),
            4 | 7 => ((yb - ya).abs(), 0.15),
            5 => ((yb - ya).abs(), 3e-4),
            _ => ((yb / ya - 1.0).abs(), 1e-5),
        };
        l.outcome("saturation seam".into());
        step(l, &format!("saturation seam {}", id::NAMES[o as usize]), &[a, b], e, tol, &|| format!("x={x} d={d}"));
    }));
    // ---- backward pairs: T along isobars over h and s, p and T along isentropes over h
    let n = if tier == "thorough" { 6000 } else { 2000 };
    let mut rows: Vec<(usize, f64)> = vec![];
    for &p in &pa {
        rows.push((PH, p));
        rows.push((PS, p));
    }
    let mut ss: Vec<f64> = (0..=n / 4).map(|i| -0.0085 + 18.9 * i as f64 / (n / 4) as f64).collect();
    for x in [5.85, SC, 3.778281340, 5.210887825, 5.048096828, 5.260578707, 6.0404, 9.1555] {
        for d in [1e-9, 1e-6, 1e-3] {
            ss.extend([x * (1.0 + d), x * (1.0 - d)]);
        }
    }
    for s in ss {
        rows.push((HS, s));
    }
    l.merge(explore(&rows, |&(f, x), l| {
        let (lo, hi) = if f == HS {
            match crate::outer::image_hs(x) {
                Some(z) => z,
                None => return,
            }
        } else {
            let hi = if x > 50.0 { state_pt(x, 1073.15) } else { state_pt(x, 2273.15) };
            let (Some(a), Some(b)) = (state_pt(x, 273.15), hi) else { return };
            if f == PH { (a.h, b.h) } else { (a.s, b.s) }
        };
        let mut ys: Vec<f64> = (0..=n).map(|i| lo + (hi - lo) * i as f64 / n as f64).collect();
        // both sides of every seam the row crosses
        let mut cr: Vec<f64> = vec![];
        match f {
            PH => {
                cr.extend([h2bc(x), h3ab(x), reg1(x, 623.15).h, reg2(x, b23_t(x.max(16.6))).h, reg2(x, 1073.15).h]);
            }
            PS => cr.extend([5.85, SC, reg1(x, 623.15).s, reg2(x, b23_t(x.max(16.6))).s, reg2(x, 1073.15).s]),
            _ => cr.extend([h2ab(x), 2563.592004, 2812.942]),
        }
        for c in cr {
            for d in [1e-10, 1e-7, 1e-5] {
                ys.extend([c * (1.0 + d), c * (1.0 - d)]);
            }
        }
        if let Some(sm) = crate::seam::open() {
            let mut cv = crate::seam::Cover::default();
            let nodes: Vec<f64> = ys.iter().copied().step_by(8).collect();
            let mk = |y: f64| Some(if f == HS { (y, x) } else { (x, y) });
            ys.extend(crate::seam::scan_line(sm, f, if f == HS { 0 } else { 1 }, &nodes, &mk, &mut cv));
            crate::seam::note(cv);
        }
        ys.retain(|y| *y >= lo && *y <= hi);
        ys.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut prev: Option<(f64, i32, [f64; 3], [f64; 3])> = None;
        for y in ys {
            let (a, b) = if f == HS { (y, x) } else { (x, y) };
            let g = |o: i32| call(f, a, b, o);
            let r = g(16) as i32;
            l.states += 1;
            l.transitions += 1;
            l.validated += 1;
            l.outcome(format!("{} row region {r}", FN_NAMES[f]));
            if !matches!(r, 1 | 2 | 3 | 5) {
                prev = None;
                continue;
            }
            let (p, t, cp, v, ec) = (g(0), g(1) + K0, g(8), g(3), g(17));
            l.transitions += 5;
            l.validated += 5;
            let val = [t, p.ln(), v.ln()];
            let slope = match f {
                PH => [1.0 / cp, 0.0, ec / cp],
                PS => [t / cp, 0.0, ec * t / cp],
                _ => [t * ec / cp, 1.0 / (1000.0 * v * p), 0.0],
            };
            if let Some((y0, r0, v0, s0)) = prev {
                let cl = if r0 != r { format!("seam {}{}", r0.min(r), r0.max(r)) } else { format!("region {r}") };
                let w = || format!("{} {x:?}: {y0:?} and {y:?} (T={} K p={p})", FN_NAMES[f], t);
                for k in 0..3 {
                    if k == 1 && f != HS || k == 2 && f == HS {
                        continue;
                    }
                    let o = [1, 0, 3][k];
                    let cs = if f == HS { [Call::new(f, y0, x, o), Call::new(f, y, x, o)] } else { [Call::new(f, x, y0, o), Call::new(f, x, y, o)] };
                    let crit = (t - TC).abs() < 6.0 && p > 20.5 && p < 24.5;
                    let key = format!("{}.{}.{cl}{}", FN_NAMES[f], ["T", "lnp", "lnv"][k], if crit { " near the critical point" } else { "" });
                    step(l, &key, &cs, jump(v0[k], val[k], s0[k], slope[k], y - y0), blim(f, k, r0, r, crit), &w);
                }
            }
            prev = Some((y, r, val, slope));
        }
    }));
    l
}
/// T in K, ln p, ln v: the published consistency of the backward equations on both sides
fn blim(_f: usize, k: usize, a: i32, b: i32, _crit: bool) -> f64 {
    match (a.min(b), a.max(b)) {
        (1, 1) => [0.01, 3e-5, 5e-5][k],
        (2, 2) => [0.03, 8e-5, 2e-4][k],
        (3, 3) => [0.012, 1e-5, 5e-5][k],
        (5, 5) => [0.03, 3e-5, 5e-5][k],
        (1, 3) => [0.035, 6e-4, 4e-4][k],
        (2, 3) => [0.05, 1e-4, 5e-4][k],
        (2, 5) => [0.08, 3e-4, 3e-4][k],
        _ => 0.0, // no other regions share a single-phase boundary
    }
}
/// close to the critical point the slopes at the ends say little about a long step
fn fine(l: &mut Local, a: &Pt, b: &Pt) -> bool {
    if a.r == 3 && b.r == 3 && (a.v / b.v).ln().abs() > 0.02 {
        l.skip("region 3: volume changes by more than 2 % between the neighbours");
        return false;
    }
    true
}
fn tag(a: &Pt, b: &Pt) -> String {
    let c = class(a, b);
    match c {
        "region seam" => format!(" seam {}{}", a.r.min(b.r), a.r.max(b.r)),
        "inside" => format!(" region {}", a.r),
        _ => format!(" {c}"),
    }
}
/// what the published equations leave between neighbours (h, s, relative v); inside a region
/// this is the curvature the end slopes do not account for
fn lim(a: &Pt, b: &Pt, k: usize) -> f64 {
    match class(a, b) {
        "inside" => [2e-4, 5e-6, 1e-5][k],
        "inside region 3" => [0.05, 1.5e-4, 5e-4][k],
        "sub-region seam" => [0.015, 3e-5, 3e-5][k],
        "near the critical point" => [1.5, 2.2e-3, 2.5e-3][k],
        "region seam" => match (a.r.min(b.r), a.r.max(b.r)) {
            (1, 3) => [0.06, 1e-4, 1e-4][k],
            (2, 3) => [0.2, 3e-4, 3e-4][k],
            (2, 5) => [0.15, 2.5e-4, 2e-4][k],
            _ => 0.0,
        },
        _ => f64::INFINITY,
    }
}
fn lim2(a: &Pt, b: &Pt, k: usize) -> f64 {
    match class(a, b) {
        "inside" => [1e-6, 1e-6][k],
        "inside region 3" => [2e-5, 2e-5][k],
        "sub-region seam" => [2e-4, 5e-5][k],
        "near the critical point" => [0.04, 5e-3][k],
        "region seam" => [6e-3, 7e-3][k],
        _ => f64::INFINITY,
    }
}
fn step(l: &mut Local, kind: &str, c: &[Call], e: f64, tol: f64, at: &dyn Fn() -> String) {
    l.transitions += 1;
    l.validated += 1;
    l.worst(kind, e, || at());
    if !(e <= tol) {
        l.viol(kind, c, format!("{} = {:?} and {} = {:?}: step {e:.3e} allowed {tol:.1e} at {}", c[0].text(), c[0].run(), c[1].text(), c[1].run(), at()));
    }
}
