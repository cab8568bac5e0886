//! C10: the outside of the validity range, and the inside of it.
use crate::api::*;
use crate::checks::*;
use crate::eng::*;
use crate::lat::*;
use crate::pairs::*;
use crate::refm::*;

/// extreme values of g on [a,b], by a dense scan and a local search around the best points
pub fn extremes(a: f64, b: f64, n: usize, log: bool, g: &dyn Fn(f64) -> f64) -> (f64, f64) {
    let at = |i: usize| -> f64 {
        if i == 0 {
            a
        } else if i == n {
            b
        } else if log {
            a * (b / a).powf(i as f64 / n as f64)
        } else {
            a + (b - a) * i as f64 / n as f64
        }
    };
    let y: Vec<f64> = (0..=n).map(|i| g(at(i))).collect();
    let mut r = [0.0; 2];
    for (k, sg) in [1.0, -1.0].iter().enumerate() {
        let mut bi = 0;
        for i in 0..=n {
            if sg * y[i] < sg * y[bi] {
                bi = i
            }
        }
        let (mut lo, mut hi) = (at(bi.saturating_sub(1)), at((bi + 1).min(n)));
        let mut best = y[bi];
        for _ in 0..60 {
            let (m1, m2) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
            let (g1, g2) = (g(m1), g(m2));
            for q in [g1, g2] {
                if sg * q < sg * best {
                    best = q
                }
            }
            if sg * g1 < sg * g2 {
                hi = m2
            } else {
                lo = m1
            }
        }
        r[k] = best;
    }
    (r[0], r[1])
}
/// pressures down to 1e-8 MPa are accepted as an extension by the pairs with a volume or a temperature
pub const PEXT: f64 = 1e-8;
fn val_pt(p: f64, t: f64, o: i32) -> f64 {
    let s = if p < PMIN {
        if t > 1073.15 {
            reg5(p, t)
        } else {
            reg2(p, t)
        }
    } else {
        match state_pt(p, t) {
            Some(s) => s,
            None => return f64::NAN,
        }
    };
    match o {
        3 => s.v,
        4 => s.h,
        _ => s.s,
    }
}
/// the interval of the second coordinate for a given first one; None: no valid state
pub fn image(f: usize, x: f64) -> Option<(f64, f64)> {
    let o = IN[f].1;
    if f == HS {
        return None;
    }
    if IN[f].0 == 0 {
        if x > 100.0 || x < PEXT || (x < PMIN_LIB && f != PV) {
            return None;
        }
        let tm = if x > 50.0 || x < PMIN { 1073.15 } else { 2273.15 };
        return Some(extremes(273.15, tm, 600, false, &|t| val_pt(x, t, o)));
    }
    let t = x + K0;
    if !(273.15..=2273.15).contains(&t) {
        return None;
    }
    let (a, b) = if t > 1073.15 { (PMIN_LIB, 50.0) } else { (PEXT, 100.0) };
    Some(extremes(a, b, 500, true, &|p| val_pt(p, t, o)))
}
fn solve(mut a: f64, mut b: f64, up: bool, g: &dyn Fn(f64) -> f64) -> f64 {
    for _ in 0..200 {
        let m = 0.5 * (a + b);
        if (g(m) < 0.0) == up {
            a = m
        } else {
            b = m
        }
    }
    0.5 * (a + b)
}
/// h interval of the valid states of entropy s
pub fn image_hs(s: f64) -> Option<(f64, f64)> {
    let p0 = PMIN;
    let s_lo = reg1(100.0, 273.15).s;
    let s_hi = reg5(p0, 2273.15).s;
    if !(s >= s_lo && s <= s_hi) {
        return None;
    }
    // lower edge: 273.15 K, liquid then wet; then the lowest pressure
    let (l, g) = (reg1(p0, 273.15), reg2(p0, 273.15));
    let lo = if s < l.s {
        // along 273.15 K entropy of water is not monotone in p: take the lowest h of the isotherm
        let mut m = f64::INFINITY;
        for i in 0..=400 {
            let p = p0 + (100.0 - p0) * i as f64 / 400.0;
            let q = reg1(p, 273.15);
            if q.s <= s + 9e-4 {
                m = m.min(q.h)
            }
        }
        m
    } else if s < g.s {
        l.h + (s - l.s) / (g.s - l.s) * (g.h - l.h)
    } else if s <= reg2(p0, 1073.15).s {
        let t = solve(273.15, 1073.15, true, &|t| reg2(p0, t).s - s);
        reg2(p0, t).h
    } else {
        let t = solve(1073.15, 2273.15, true, &|t| reg5(p0, t).s - s);
        reg5(p0, t).h
    };
    let hi = if s <= reg2(100.0, 1073.15).s {
        let t = solve(273.15, 1073.15, true, &|t| val_pt(100.0, t, 5) - s);
        val_pt(100.0, t, 4)
    } else if s <= reg5(50.0, 1073.15).s {
        let p = solve(50.0, 100.0, false, &|p| reg2(p, 1073.15).s - s);
        reg2(p, 1073.15).h
    } else if s <= reg5(50.0, 2273.15).s {
        let t = solve(1073.15, 2273.15, true, &|t| reg5(50.0, t).s - s);
        reg5(50.0, t).h
    } else {
        let p = (solve((p0 / 2.0).ln(), 50f64.ln(), false, &|p| reg5(p.exp(), 2273.15).s - s)).exp();
        reg5(p, 2273.15).h
    };
    Some((lo, hi))
}
fn mags() -> Vec<f64> {
    vec![3e-5, 1e-4, 3e-4, 1e-3, 0.01, 0.03, 0.1, 0.3, 1.0, 3.0, 10.0, 100.0, 1e4, 1e8, 1e100, f64::INFINITY]
}
/// margin below which the edge itself is not resolved, per function: in units of `unit`
fn small(f: usize) -> Vec<f64> {
    match f {
        HS => vec![],
        _ => vec![1e-8, 1e-7, 1e-6, 1e-5, 1e-4],
    }
}
fn unit(o: i32, edge: f64) -> f64 {
    match o {
        3 => edge.abs(),
        4 => 1000.0,
        _ => 3.0,
    }
}
fn outs(lo: f64, hi: f64, o: i32, ms: &[f64]) -> Vec<(f64, f64)> {
    let mut v = vec![];
    for &m in ms {
        v.push((hi + m * unit(o, hi), m));
        if o != 3 || m < 1.0 {
            v.push((lo - m * unit(o, lo), m));
        }
    }
    if o == 3 {
        for x in [0.0, -0.0, -1e-9, -0.001, -1.0, -1e9, f64::NEG_INFINITY, lo * 0.5, lo * 0.1, lo * 1e-3, 1e-300, 5e-324] {
            v.push((x, 1.0));
        }
    }
    v.push((f64::NAN, 1.0));
    v
}
#[derive(Clone, Copy)]
struct Out {
    f: usize,
    a: f64,
    b: f64,
    m: f64,
    codes: [f64; 2], // required code of (p,t), or 0
}
fn outside(tier: &str) -> Vec<Out> {
    let z = size(match tier {
        "thorough" => "mid",
        "quick" => "tiny",
        x => x,
    });
    let mut v: Vec<Out> = vec![];
    let inf = f64::INFINITY;
    let none = [0.0, 0.0];
    // values of p and t beyond their limits, and of other coordinates of any kind
    let mut pbad = vec![ulp(PMIN_LIB, -1), 0.0, -0.0, 5e-324, 1e-300, 1e-9, -1e-9, -1.0, -100.0, -1e10, f64::MIN, -inf];
    pbad.extend([PMIN_LIB * (1.0 - 1e-9), PMIN_LIB * (1.0 - 1e-6), 0.000611, 0.0006, 0.0005, 0.0001, 1e-5, 1e-6, 1e-8]);
    pbad.extend([ulp(100.0, 1), 100.0 * (1.0 + 1e-9), 100.0001, 100.01, 101.0, 105.0, 120.0, 150.0, 200.0, 500.0, 1000.0, 1e4, 1e10, 1e300, f64::MAX, inf]);
    let mut tbad: Vec<f64> = vec![-1e-12, -1e-9, -1e-6, -1e-3, -0.01, -0.1, -1.0, -5.0, -50.0, -273.15, -273.16, -300.0, -1e4, -1e10, f64::MIN, -inf];
    tbad.extend([2000.0 + 1e-9, 2000.0 + 1e-6, 2000.001, 2000.1, 2001.0, 2010.0, 2273.15, 2500.0, 3000.0, 1e4, 1e10, f64::MAX, inf]);
    tbad.retain(|t| !(t + K0 >= 273.15 && t + K0 <= 2273.15));
    let ps: Vec<f64> = p_axis(z);
    let ts: Vec<f64> = t_axis(z).iter().map(|t| t - K0).filter(|t| t + K0 >= 273.15 && t + K0 <= 2273.15).collect();
    for &p in &pbad {
        for &t in ts.iter() {
            v.push(Out { f: PT, a: p, b: t, m: 0.0, codes: [INVALID_P, 0.0] });
        }
        for &t in &tbad {
            v.push(Out { f: PT, a: p, b: t, m: 0.0, codes: [INVALID_P, INVALID_T] });
        }
    }
    for &t in &tbad {
        for &p in &ps {
            // hot and above 50 MPa: either
            v.push(Out { f: PT, a: p, b: t, m: 0.0, codes: [INVALID_T, if p > 50.0 && t > 0.0 { INVALID_P } else { 0.0 }] });
        }
    }
    for &t in ts.iter().filter(|t| **t + K0 > 1073.15) {
        for p in [ulp(50.0, 1), 50.0 * (1.0 + 1e-9), 50.0001, 51.0, 60.0, 75.0, 99.0, 100.0] {
            v.push(Out { f: PT, a: p, b: t, m: 0.0, codes: [INVALID_P, 0.0] });
        }
    }
    for x in [f64::NAN, inf, -inf] {
        for y in [f64::NAN, inf, -inf, 1.0, 100.0] {
            for f in 0..12 {
                v.push(Out { f, a: x, b: y, m: 1.0, codes: none });
                v.push(Out { f, a: y, b: x, m: 1.0, codes: none });
            }
        }
    }
    let yany = |o: i32| -> Vec<f64> {
        match o {
            3 => vec![0.0009, 0.001, 0.0011, 0.00155, 0.003, 0.01, 0.1, 1.0, 10.0, 206.0, 1e3, 1e6, 1e9],
            4 => vec![-1.0, 0.0, 1.0, 100.0, 400.0, 1500.0, 2087.0, 2500.0, 2700.0, 3000.0, 3500.0, 4000.0, 5000.0, 7000.0, 7376.0],
            5 => vec![-0.005, 0.0, 0.1, 1.0, 3.0, 4.4, 4.5, 5.5, 6.5, 7.5, 9.0, 10.0, 11.0, 13.0, 15.0, 18.0],
            15 => vec![0.0, 1e-9, 0.1, 0.5, 0.9, 1.0],
            _ => vec![],
        }
    };
    for f in [PH, PS, PV, PX] {
        for &p in &pbad {
            if f == PV && (PEXT..1.0).contains(&p) {
                continue;
            }
            for y in yany(IN[f].1) {
                v.push(Out { f, a: p, b: y, m: 1.0, codes: none });
            }
        }
    }
    for f in [TV, TH, TS, TX] {
        for &t in &tbad {
            for y in yany(IN[f].1) {
                v.push(Out { f, a: t, b: y, m: 1.0, codes: none });
            }
        }
    }
    let qbad = [-5e-324, -1e-300, -1e-12, -1e-9, -1e-6, -0.1, -1.0, -1e9, -inf, ulp(1.0, 1), 1.0 + 1e-9, 1.001, 1.5, 2.0, 100.0, 1e9, inf, f64::NAN];
    for &p in ps.iter().filter(|p| **p <= PC) {
        for q in qbad {
            v.push(Out { f: PX, a: p, b: q, m: 0.0, codes: none });
        }
    }
    for p in [ulp(PC, 1), 22.0641, 22.07, 22.1, 22.5, 23.0, 25.0, 30.0, 50.0, 100.0] {
        for q in yany(15) {
            v.push(Out { f: PX, a: p, b: q, m: 0.0, codes: none });
        }
    }
    for &t in ts.iter().filter(|t| **t + K0 <= TC) {
        for q in qbad {
            v.push(Out { f: TX, a: t, b: q, m: 0.0, codes: none });
        }
    }
    for t in [TC - K0 + 2e-6, 373.96, 374.0, 375.0, 380.0, 400.0, 600.0, 1000.0, 2000.0] {
        for q in yany(15) {
            v.push(Out { f: TX, a: t, b: q, m: 0.0, codes: none });
        }
    }
    let ms: Vec<f64> = mags();
    for f in [PH, PS, PV, TV, TH, TS] {
        let o = IN[f].1;
        let mut xs: Vec<f64> = if IN[f].0 == 0 { ps.clone() } else { ts.clone() };
        if f == PV {
            xs.extend([1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 5e-4]);
        }
        for x in xs {
            if let Some((lo, hi)) = image(f, x) {
                let all: Vec<f64> = small(f).into_iter().chain(ms.iter().cloned()).collect();
                for (y, m) in outs(lo, hi, o, &all) {
                    if m < 1e-4 && IN[f].0 == 1 && (x + K0 - 863.15).abs() < 1e-3 {
                        continue; // 100 MPa at 863.15 K belongs to regions 2 and 3
                    }
                    v.push(Out { f, a: x, b: y, m, codes: none });
                }
            }
        }
    }
    // (h,s)
    let n = (z.nt * 8).max(1500);
    for i in 0..=n + n / 4 {
        let s = if i <= n { -0.0086 + (19.0 + 0.0086) * i as f64 / n as f64 } else { -0.0087 + 0.02 * (i - n) as f64 / (n / 4) as f64 };
        match image_hs(s) {
            Some((lo, hi)) => {
                for (h, m) in outs(lo, hi, 4, &ms) {
                    v.push(Out { f: HS, a: h, b: s, m, codes: none });
                }
            }
            None => {
                for h in yany(4) {
                    v.push(Out { f: HS, a: h, b: s, m: 1.0, codes: none });
                }
            }
        }
    }
    for s in [-0.02, -0.1, -1.0, -10.0, -1e6, 19.0, 20.0, 25.0, 100.0, 1e6] {
        for h in yany(4) {
            v.push(Out { f: HS, a: h, b: s, m: 1.0, codes: none });
        }
    }
    // (h,x), (s,x); the largest h and s of some qualities lie near the critical point
    let mx: Vec<f64> = mags().into_iter().filter(|m| *m >= 1e-3).collect();
    let n = z.nt * 4;
    for i in 0..=n {
        let x = i as f64 / n as f64;
        for (f, o) in [(HX, 4), (SX, 5)] {
            let crit = if o == 4 { 2087.546845 } else { SC };
            let y = |t: f64| {
                let (l, g) = sat_t(t);
                if o == 4 {
                    l.h * (1.0 - x) + g.h * x
                } else {
                    l.s * (1.0 - x) + g.s * x
                }
            };
            let (lo, hi) = extremes(273.15, 640.0, 800, false, &y);
            // the saturated volumes, and with them the lines, are wavy next to the critical point
            let (l2, h2) = extremes(640.0, 647.095, 1500, false, &y);
            let (lo, hi) = (lo.min(l2), hi.max(h2));
            for (y, m) in outs(lo.min(crit), hi.max(crit), o, &mx) {
                v.push(Out { f, a: y, b: x, m, codes: none });
            }
        }
    }
    for f in [HX, SX] {
        for q in qbad {
            for y in yany(IN[f].0) {
                v.push(Out { f, a: y, b: q, m: 0.0, codes: none });
            }
        }
    }
    v
}
pub fn c10(tier: &str) -> Local {
    let v = outside(tier);
    let mut l = explore(&v, |w, l| {
        l.states += 1;
        let fun = FN_NAMES[w.f];
        for o in 0..36 {
            if o == IN[w.f].0 || o == IN[w.f].1 {
                continue;
            }
            let c = Call::new(w.f, w.a, w.b, o);
            let got = c.run();
            l.transitions += 1;
            l.validated += 1;
            let ok = if w.codes[0] != 0.0 { got == w.codes[0] || (w.codes[1] != 0.0 && got == w.codes[1]) } else { is_err(got) };
            if o == 2 {
                l.outcome(format!("{fun} outside -> {}", if is_err(got) { format!("{got}") } else { "value".into() }));
            }
            if !ok {
                l.viol(
                    &format!("{fun}.outside{:e}{}", w.m, if is_err(got) { ".code" } else { "" }),
                    &[c],
                    format!("{} = {got:?}, must be an error code{}", c.text(), if w.codes[0] != 0.0 { format!(" {:?}", w.codes) } else { String::new() }),
                );
                break;
            }
        }
    });
    // the seams of the implementation in the plane of the arguments, on both sides of the range
    let (nl, nn) = if tier == "thorough" { (60, 500) } else { (20, 120) };
    let pairs = [PH, PS, HS, PV, TV, TH, TS];
    let sc = crate::seam::seam_calls(&pairs, &[16, 4], nl, nn);
    l.merge(explore(&sc, |&(f, a, b), l| {
        l.states += 1;
        let fun = FN_NAMES[f];
        let o = IN[f].1;
        let (im, y) = if f == HS { (image_hs(b), a) } else { (image(f, a), b) };
        let (m_out, m_in) = if f == HS { (1e-3, f64::INFINITY) } else { (1e-4, 1e-3) };
        let side = match im {
            // the limits of the first coordinate themselves: outside()
            None if f == HS || IN[f].0 == 1 && (a < -1e-6 || a > 2000.0 + 1e-6) || IN[f].0 == 0 && (a > 100.0001 || a < if f == PV { 1e-9 } else { 0.0006 }) => 1,
            None => 0,
            Some((lo, hi)) => {
                let u = unit(if f == HS { 4 } else { o }, if y > hi { hi } else { lo });
                if y > hi + m_out * u || y < lo - m_out * u {
                    1
                } else if y > lo + m_in * u && y < hi - m_in * unit(o, hi) {
                    2
                } else {
                    0
                }
            }
        };
        // the corner of the (h,s) range is not resolved finer than this
        if side == 0 || IN[f].0 == 0 && a > PMIN_LIB * (1.0 - 1e-9) && a < PMIN * (1.0 + 1e-9) || f == HS && im.is_none() && (b - reg1(100.0, 273.15).s).abs() < 1e-3 {
            l.skip(&format!("{fun}: seam next to the edge of the range"));
            return;
        }
        for o in [0, 1, 3, 4, 5, 16] {
            if o == IN[f].0 || o == IN[f].1 {
                continue;
            }
            let c = Call::new(f, a, b, o);
            let got = c.run();
            l.transitions += 1;
            l.validated += 1;
            if is_err(got) != (side == 1) || !got.is_finite() {
                l.viol(&format!("{fun}.seam.{}", if side == 1 { "outside" } else { "inside" }), &[c], format!("{} = {got:?}, the range of the second value is {im:?}", c.text()));
                break;
            }
        }
        l.outcome(format!("{fun} seam {}", if side == 1 { "outside" } else { "inside" }));
    }));
    // inside: every property that is defined is given
    let ss = states(size(match tier {
        "quick" => "tiny",
        "thorough" => "mid",
        x => x,
    }));
    l.merge(explore(&ss, |st, l| {
        l.states += 1;
        for f in ALL_PAIRS {
            let adm = admitted(f, st);
            if adm.contains(&0) || in_band(st.s.p, st.s.t) {
                l.skip("on the outer boundary or on the saturation line");
                continue;
            }
            let (a, b) = (st.x(f), st.y(f));
            let r = call(f, a, b, 16);
            if r == 4.0 && (ambiguous(f, &st.s) || adm.len() > 1) {
                l.skip("shares both coordinates with wet steam");
                continue;
            }
            for o in 0..36 {
                if o == 29 && (st.s.t - TC).abs() < 0.05 {
                    continue; // surface tension ends at the critical temperature
                }
                let c = Call::new(f, a, b, o);
                let got = c.run();
                l.transitions += 1;
                l.validated += 1;
                let def = !st.s.prop(o).is_nan();
                if def && (is_err(got) || !got.is_finite()) {
                    l.viol(&format!("{}.inside.{}", FN_NAMES[f], id::NAMES[o as usize]), &[c], format!("{} = {got:?} at {}", c.text(), st.text()));
                }
            }
            l.outcome(format!("{} inside region {}", FN_NAMES[f], st.s.reg));
        }
    }));
    l
}

// ===================================================================== C11
pub fn specials(tier: &str) -> Vec<f64> {
    let mut v = vec![
        0.0, -0.0, 5e-324, -5e-324, f64::MIN_POSITIVE, 1e-300, 1e-200, 1e-160, 1e-100, 1e-50, 1e-30, 1e-20, 1e-16, 1e-12, 1e-9, 1e-6, 1e-4, 1e-3,
        0.01, 0.1, 0.5, 0.999, 1.0, 1.5, 2.0, 10.0, 100.0, 1000.0, 1e4, 1e5, 1e6, 1e8, 1e10, 1e12, 1e16, 1e20, 1e30, 1e50, 1e77, 1e100, 1e154, 1e200, 1e300,
        f64::MAX, f64::INFINITY, f64::NAN, 2147483647.0, 2147483648.0, 4294967296.0, 9.3e18, -1e-300, -1e-9, -1e-3, -0.1, -1.0, -10.0, -100.0,
        -273.15, -273.16, -1000.0, -2100.0, -2101.0, -9999.0, -1e5, -1e10, -1e20, -1e100, -1e154, -1e300, f64::MIN, f64::NEG_INFINITY,
        f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 1.0 + f64::EPSILON,
    ];
    // values at which an expression of the formulation has a zero denominator or base
    v.extend([7.1, 1.222, 0.5, 0.65, 0.7, 2.0, 1.0, 100.0 / 7.1, 16.53 * 7.1, 1386.0, 540.0, 322.0, 647.096, 22.064, 2500.0, 2800.0, 2087.546845, 4.41202148223476, 650.17534844798]);
    v.extend([PMIN_LIB, 0.000611657, 4.0, 6.54670, 16.529164252604478, 16.5291643, 22.0, 40.0, 50.0, 0.01, 373.946, 349.99999999999994, 350.0, 590.0, 800.0, 1999.9999999999998]);
    v.extend([0.001, 0.0010002, 0.00095, 0.0031, 0.0032, 0.1, 206.0, 1e3, 2e5, 2777.0, 3715.0, 4200.0, 7376.0, 5.05, 5.26, 5.85, 6.04, 7.85, 9.15, 9.1555, 11.9, 18.99]);
    if tier != "tiny" {
        for &x in lits().old.iter() {
            if x > 1e-4 && x < 1e5 {
                v.push(x);
            }
        }
        for &x in lits().new.iter() {
            for c in [x, -x, ulp(x, 1), ulp(x, -1), x - K0, x + K0] {
                v.push(c);
            }
        }
    }
    if tier == "thorough" {
        for k in (-1074..1024).step_by(9) {
            v.push(2f64.powi(k));
            v.push(-2f64.powi(k));
        }
        for i in 0..60 {
            v.push(0.05 + i as f64 * 0.31);
            v.push(13.0 + i as f64 * 123.0);
        }
    }
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup_by(|a, b| a.to_bits() == b.to_bits());
    v
}
pub fn c11(tier: &str) -> Local {
    let sp = specials(tier);
    // the full alphabet of arguments in one position with the other from the same alphabet
    let mut items = vec![];
    for f in 0..12 {
        for &a in &sp {
            items.push((f, a));
        }
    }
    let ids: Vec<i32> = (0..36).chain([-1, 36, 37, 100, 128, 255, 256, 32767, 32768, 65536, i32::MIN, i32::MAX, -9999]).collect();
    let regs = [NOREG, 1, 2, 3, 4, 5, 0, 6, 10, -1, i32::MAX, i32::MIN];
    let mut l = explore(&items, |&(f, a), l| {
        for &b in &sp {
            l.states += 1;
            for &reg in if f < 8 { &regs[..] } else { &regs[..1] } {
                for &o in &ids {
                    // values that fall through to the same code are tried once
                    if (reg == 0 || reg > 5 || reg < -1 && reg != NOREG) && o != 4 && o != 15 && o != 16 && o != 36 {
                        continue;
                    }
                    let c = Call { f, a, b, o, reg };
                    let got = c.run();
                    l.transitions += 1;
                    if got.to_bits() == PANICKED {
                        continue; // recorded by the engine
                    }
                    // without a region the caller must be able to tell values from errors
                    if reg == NOREG && !got.is_finite() {
                        let echo = o == IN[f].0 && got.to_bits() == a.to_bits() || o == IN[f].1 && got.to_bits() == b.to_bits();
                        if !echo {
                            l.viol(&format!("{}.not_finite.{}", FN_NAMES[f], o), &[c], format!("{} = {got:?}", c.text()));
                        }
                    }
                }
            }
            l.outcome(format!("{} {}", FN_NAMES[f], {
                let r = call(f, a, b, if f < 8 { 16 } else { 2 });
                if is_err(r) { "rejected" } else { "accepted" }
            }));
        }
        l.validated = l.transitions;
    });
    // and the whole coordinate plane and every lattice and wet state, through the right and the wrong regions
    let (a, b, n) = match tier {
        "thorough" => ("mid", "small", 600),
        "quick" => ("tiny", "tiny", 250),
        _ => ("tiny", "tiny", 60),
    };
    let mut ins: Vec<In> = inputs(a, b);
    for f in 0..12 {
        for a in plane_axis(IN[f].0, n) {
            for b in plane_axis(IN[f].1, n) {
                ins.push(In { f, a, b, r: 0 });
            }
        }
    }
    let (sl, sn) = if tier == "thorough" { (60, 500) } else { (20, 120) };
    let fs: Vec<usize> = (0..12).collect();
    for (f, a, b) in crate::seam::seam_calls(&fs, &[15, 24], sl, sn) {
        ins.push(In { f, a, b, r: 0 });
    }
    l.merge(explore(&ins, |i, l| {
        l.states += 1;
        for &reg in if i.f < 8 { &regs[..6] } else { &regs[..1] } {
            for o in [0, 1, 2, 4, 5, 8, 15, 27] {
                let c = Call { f: i.f, a: i.a, b: i.b, o, reg };
                let got = c.run();
                l.transitions += 1;
                l.validated += 1;
                if reg == NOREG && !got.is_finite() && got.to_bits() != PANICKED && !(o == IN[i.f].0 || o == IN[i.f].1) {
                    l.viol(&format!("{}.not_finite.{}", FN_NAMES[i.f], o), &[c], format!("{} = {got:?}", c.text()));
                }
            }
        }
        l.outcome(format!("{} plane", FN_NAMES[i.f]));
    }));
    l
}
/// the range of a coordinate and some way beyond
pub fn plane_axis(o: i32, n: usize) -> Vec<f64> {
    (0..=n)
        .map(|i| {
            let f = i as f64 / n as f64;
            match o {
                0 => 0.0005 * (110.0f64 / 0.0005).powf(f),
                1 => -5.0 + 2020.0 * f.powf(1.7),
                3 => 0.0009 * (2000.0f64 / 0.0009).powf(f),
                4 => -50.0 + 7550.0 * f,
                5 => -0.05 + 19.2 * f,
                _ => -0.01 + 1.02 * f,
            }
        })
        .collect()
}
