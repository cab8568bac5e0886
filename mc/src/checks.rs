//! One exhaustive exploration per property.
use crate::eng::*;
use crate::lat::*;
use crate::refm::*;

pub const ERRS: [f64; 8] = [-9999.0, -1000.0, -2100.0, -2101.0, -2102.0, -2103.0, -2201.0, -2202.0];
pub fn is_err(x: f64) -> bool {
    ERRS.contains(&x)
}
/// magnitude below which a property is compared absolutely (zero crossings)
pub fn scale(o: i32) -> f64 {
    match o {
        1 | 4 | 6 | 7 | 12 | 13 => 1.0,
        5 => 0.01,
        17 => 1e-5,
        19 => 1e-8,
        21 | 22 => 1e-3,
        23 => 1e-2,
        31 => 1e-2,
        35 => 1e-3,
        29 => 1e-6,
        _ => 0.0,
    }
}
pub fn dev(o: i32, got: f64, want: f64) -> f64 {
    if got == want || (got.is_nan() && want.is_nan()) {
        return 0.0;
    }
    let e = (got - want).abs() / want.abs().max(scale(o));
    if e.is_nan() {
        f64::INFINITY
    } else {
        e
    }
}
/// how much the model's own value moves when the state moves by 1e-13 (ill-conditioned points)
pub fn cond(s: &State, o: i32) -> f64 {
    if s.reg != 3 {
        return ulps(s, o);
    }
    let a = reg3(1.0 / s.v * (1.0 + 1e-12), s.t * (1.0 + 1e-13));
    let b = reg3(1.0 / s.v * (1.0 - 1e-12), s.t * (1.0 - 1e-13));
    dev(o, a.prop(o), b.prop(o)).min(1e-3)
}
/// how much the model value moves within three ulps of the state: the rounding of any order of evaluation
pub fn ulps(s: &State, o: i32) -> f64 {
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for i in -3..=3 {
        for j in -3..=3 {
            let (p, t, d) = (s.p * (1.0 + i as f64 * 2.3e-16), s.t + j as f64 * 5.7e-14, (1.0 + i as f64 * 2.3e-16) / s.v);
            let q = match s.reg {
                1 => reg1(p, t),
                2 => reg2(p, t),
                5 => reg5(p, t),
                _ => reg3(d, t),
            }
            .prop(o);
            lo = lo.min(q);
            hi = hi.max(q);
        }
    }
    let k = dev(o, lo, hi);
    if k.is_finite() { k.min(1e-4) } else { 0.0 }
}
pub const TOL: f64 = 1e-9;

/// compare one property of the implementation with the model value
pub fn cmp(l: &mut Local, kind: &str, c: Call, got: f64, s: &State, at: &dyn Fn() -> String) {
    let want = s.prop(c.o);
    let e = if want.is_nan() {
        if is_err(got) { 0.0 } else { f64::INFINITY }
    } else {
        dev(c.o, got, want)
    };
    l.transitions += 1;
    l.validated += 1;
    l.worst(&format!("{kind} region {} {}", s.reg, id::NAMES[c.o as usize]), e, || at());
    if e > TOL && e > TOL + 20.0 * cond(s, c.o) {
        l.viol(
            &format!("{kind}.region{}.{}", s.reg, id::NAMES[c.o as usize]),
            &[c],
            format!("{} = {:?}, model {:?} (deviation {:.2e}) at {}", c.text(), got, want, e, at()),
        );
    }
}

pub fn pt_props(tier: &str, ids: &[i32]) -> Local {
    let z = size(tier);
    let ss = states(z);
    explore(&ss, |st, l| {
        l.states += 1;
        l.outcome(format!("region {}", st.s.reg));
        // the caller passes Celsius: model the temperature the library will see
        let t = st.s.t - K0;
        let alts = alternatives(st.s.p, t + K0);
        if alts.is_empty() {
            l.skip("moved out of the range by the Celsius conversion");
            return;
        }
        if in_band(st.s.p, st.s.t) {
            l.skip("within 1e-6 of the saturation line, where pt reports region 4");
            return;
        }
        for &o in ids {
            if o == 0 || o == 1 {
                continue;
            }
            let c = Call::new(PT, st.s.p, t, o);
            let got = c.run();
            let k = if alts.len() == 1 { 0 } else { (0..alts.len()).min_by(|a, b| dev(o, got, alts[*a].b().prop(o)).partial_cmp(&dev(o, got, alts[*b].b().prop(o))).unwrap()).unwrap() };
            cmp(l, "pt", c, got, &alts[k].b(), &|| st.text());
        }
    })
}
pub fn in_band(p: f64, t: f64) -> bool {
    t < TC && ((p - psat(t)) / psat(t)).abs() < 1.05e-6
}

// =====================================================================  C02 regions
pub const TWOPHASE: [usize; 7] = [PH, PS, HS, PV, TV, TH, TS];
/// model: liquid (t,h), (t,s), (p,v) and wet steam can share both coordinates
pub fn ambiguous(f: usize, s: &State) -> bool {
    match f {
        // compressed water with the enthalpy of wet steam of the same temperature
        TH => s.reg == 1 && s.h > sat_t(s.t).0.h - 1e-6,
        // below the density maximum entropy first rises with pressure
        TS => s.reg == 1 && s.s > sat_t(s.t).0.s - 1e-9,
        // below the density maximum water may be as light as wet steam
        PV => s.reg == 1 && s.p < 0.01 && s.v > sat_p(s.p.min(PC)).0.v * (1.0 - 1e-9),
        _ => false,
    }
}
/// regions admitted for a state given by pair f: the model region, widened by the accuracy
/// to which the pair's equations locate the state
pub fn admitted(f: usize, st: &St) -> Vec<i32> {
    let (dp, dt) = match f {
        PT => (1e-13, 1e-12),
        // T(p,s) limits the outer boundary of (h,s) to 25 mK
        HS => (2e-3, 0.03),
        _ => (1e-4, 0.01),
    };
    let mut r = near(st.s.p, st.s.t, dp, dt);
    // both region tests of (h,s) compare with T = 1073.15 K: rounding may reject the line itself
    if f == HS && (st.s.t - 1073.15).abs() < 1e-5 {
        r.push(0);
    }
    r.extend(jumps(f, st));
    r.sort();
    r.dedup();
    r
}
/// the basic equations of neighbouring regions do not meet exactly: a value between the two values
/// of the second coordinate on the boundary belongs to either region
fn jumps(f: usize, st: &St) -> Vec<i32> {
    let (p, t, y) = (st.s.p, st.s.t, st.y(f));
    let o = IN[f].1;
    let at = |r: i32, p: f64, t: f64| -> f64 {
        match r {
            1 => reg1(p, t),
            2 => reg2(p, t),
            5 => reg5(p, t),
            _ => reg3(1.0 / v3(p, t, subregion3(p, t)), t),
        }
        .prop(o)
    };
    let mut r = vec![];
    let mut test = |p: f64, t: f64, a: i32, b: i32| {
        let (ya, yb) = (at(a, p, t), at(b, p, t));
        let m = 1e-6 * ya.abs() + 0.05 * (ya - yb).abs();
        if y > ya.min(yb) - m && y < ya.max(yb) + m {
            r.push(a);
            r.push(b);
        }
    };
    match f {
        PH | PS | PV => {
            if p > PS623 && t < 640.0 {
                test(p, 623.15, 1, 3);
            }
            if p > PS623 && (t - b23_t(p)).abs() < 2.0 {
                test(p, b23_t(p), 3, 2);
            }
            if p <= 50.0 && (t - 1073.15).abs() < 2.0 {
                test(p, 1073.15, 2, 5);
            }
        }
        TV | TH | TS if t > 623.15 && t <= 863.15 => test(b23_p(t), t, 2, 3),
        _ => {}
    }
    // at the smallest volume of an isobar, or enthalpy of an isotherm, rounding may reject the value
    if st.s.reg == 1 && (f == PV && reg1(p, t - 0.006).v >= y && (reg1(p, t + 0.006).v >= y || p < PC && t + 0.006 > tsat(p)) || f == TH && reg1(p * 1.002, t).h >= y && reg1(p * 0.998, t).h >= y) {
        r.push(0);
    }
    r
}
pub fn c02(tier: &str) -> Local {
    let ss = states(size(tier));
    let mut l = explore(&ss, |st, l| {
        l.states += 1;
        let t = st.s.t - K0;
        let Some(_) = St::at(st.s.p, t + K0) else { return };
        // (p,t)
        let c = Call::new(PT, st.s.p, t, id::R);
        let r = c.run();
        l.transitions += 1;
        l.validated += 1;
        let ok = if in_band(st.s.p, t + K0) {
            let d = ((st.s.p - psat(t + K0)) / psat(t + K0)).abs();
            r == 4.0 || (d > 0.95e-6 && alternatives(st.s.p, t + K0).iter().any(|a| a.s.reg as f64 == r))
        } else {
            alternatives(st.s.p, t + K0).iter().any(|a| a.s.reg as f64 == r)
        };
        l.outcome(format!("pt {} -> {}", st.s.reg, r));
        if !ok {
            l.viol(&format!("pt.region{}", st.s.reg), &[c], format!("{} = {r}, model: region {} at {}", c.text(), st.s.reg, st.text()));
        }
        for f in TWOPHASE {
            let c = Call::new(f, st.x(f), st.y(f), id::R);
            let r = c.run();
            l.transitions += 1;
            l.validated += 1;
            let adm = admitted(f, st);
            let mut ok = adm.iter().any(|a| *a as f64 == r) || (adm.contains(&0) && is_err(r));
            if !ok && ambiguous(f, &st.s) && r == 4.0 {
                ok = true;
                l.skip(&format!("{}: state shares both coordinates with wet steam", FN_NAMES[f]));
            }
            l.outcome(format!("{} {} -> {}", FN_NAMES[f], st.s.reg, r));
            if !ok {
                l.viol(
                    &format!("{}.region{}to{}", FN_NAMES[f], st.s.reg, r),
                    &[c],
                    format!("{} = {r}, model: region {:?} at {}", c.text(), adm, st.text()),
                );
            }
        }
    });
    l.merge(wet(tier, |w, l| {
        for f in TWOPHASE {
            let c = Call::new(f, w.co(IN[f].0), w.co(IN[f].1), id::R);
            let r = c.run();
            l.transitions += 1;
            l.validated += 1;
            l.outcome(format!("{} wet -> {}", FN_NAMES[f], r));
            let edge = w.edge(f);
            if edge {
                l.skip(&format!("{}: wet state within equation tolerance of the saturated liquid or vapour", FN_NAMES[f]));
            }
            if r != 4.0 && !(edge && (r == 1.0 || r == 2.0 || r == 3.0 || is_err(r) && w.x == 0.0)) && !w.as_liquid(f, r) {
                l.viol(&format!("{}.wetto{}", FN_NAMES[f], r), &[c], format!("{} = {r}, model: region 4 at {}", c.text(), w.text()));
            }
        }
    }));
    l
}
// ------------------------------------------------------------------- wet steam
#[derive(Clone, Copy)]
pub struct Wet {
    pub l: State,
    pub g: State,
    pub x: f64,
}
impl Wet {
    pub fn mix(&self, o: i32) -> f64 {
        if o == 2 {
            return 1.0 / self.mix(3);
        }
        self.l.prop(o) * (1.0 - self.x) + self.g.prop(o) * self.x
    }
    pub fn co(&self, o: i32) -> f64 {
        match o {
            0 => self.l.p,
            1 => self.l.t - K0,
            15 => self.x,
            _ => self.mix(o),
        }
    }
    pub fn text(&self) -> String {
        format!("wet T={:?} p={:?} x={:?}", self.l.t, self.l.p, self.x)
    }
    /// within the tolerance of the equation that locates the phase boundary for this pair
    pub fn edge(&self, f: usize) -> bool {
        let t = self.l.t;
        let d = self.x.min(1.0 - self.x);
        if d < 2e-6 || ((t - 623.15).abs() < 0.01 && d < 1e-3) {
            return true;
        }
        // the saturated volumes of region 3 near the critical point are good to 0.1 %
        if d < (if t > 646.47 { 0.08 } else if t > 646.3 { 1e-2 } else if t > 643.1 { 2e-3 } else { 0.0 }) {
            return true;
        }
        match f {
            // psat(h) and psat(s) of region 3 are good to 0.0043 %
            PH if t > 623.15 => (psat3_h(self.co(4)) / self.l.p - 1.0).abs() < 1.5e-4,
            PS if t > 623.15 => (psat3_s(self.co(5)) / self.l.p - 1.0).abs() < 1.5e-4,
            // the h(s) equations of the saturation line are good to 0.005 kJ/kg
            HS => self.dome_gap() < if t > 646.3 { 2.0 } else if t > 643.1 { 0.3 } else { 0.02 },
            _ => false,
        }
    }
    /// distance in h from the saturation line at the same entropy
    pub fn dome_gap(&self) -> f64 {
        let (h, s) = (self.co(4), self.co(5));
        let liq = s < SC;
        let (mut a, mut b) = (273.15, TC - 0.005);
        for _ in 0..60 {
            let m = 0.5 * (a + b);
            let q = sat_t(m);
            if (liq && q.0.s < s) || (!liq && q.1.s > s) {
                a = m
            } else {
                b = m
            }
        }
        let q = sat_t(0.5 * (a + b));
        ((if liq { q.0.h } else { q.1.h }) - h).abs()
    }
    /// a wet state whose (t,h), (t,s) or (p,v) also belongs to compressed water
    pub fn as_liquid(&self, f: usize, r: f64) -> bool {
        if r != 1.0 || self.l.t > 623.15 {
            return false;
        }
        match f {
            TH => self.co(4) <= reg1(100.0, self.l.t).h * (1.0 + 1e-9) + 1e-6,
            TS => self.l.t < 278.0 && self.co(5) <= self.l.s + 0.02,
            PV => self.l.p < 0.01 && self.co(3) <= reg1(self.l.p, 273.15).v * (1.0 + 1e-9),
            _ => false,
        }
    }
}
pub fn wet_states(tier: &str) -> Vec<Wet> {
    let n = match tier {
        "tiny" => 20,
        "small" => 80,
        "quick" => 300,
        "mid" => 800,
        _ => 2500,
    };
    let mut xs = vec![0.0, 1e-9, 1e-6, 1e-4, 1e-3, 0.999, 0.9999, 1.0 - 1e-6, 1.0 - 1e-9, 1.0];
    for i in 1..(n / 8).max(8) {
        xs.push(i as f64 / (n / 8).max(8) as f64);
    }
    for x in &lits().new {
        if *x < 1.0 {
            xs.extend([*x, x * (1.0 + 1e-6), x * (1.0 - 1e-6)]);
        }
    }
    let mut ts = vec![];
    for i in 0..=n {
        ts.push(273.15 + (647.0 - 273.15) * i as f64 / n as f64);
        ts.push(623.15 + (TC - 0.01 - 623.15) * (1.0 - (1.0 - i as f64 / n as f64).powi(2)));
        if i % 2 == 0 {
            ts.push(tsat(PMIN * (22.0 / PMIN).powf(i as f64 / n as f64)));
        }
    }
    for t in t_axis(size("tiny")) {
        if t <= TC - 0.01 {
            ts.push(t)
        }
    }
    for p in p_axis(size("tiny")) {
        if p < 22.06 {
            ts.push(tsat(p))
        }
    }
    ts.retain(|t| psat(*t) >= PMIN);
    ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ts.dedup();
    let mut v = vec![];
    for t in ts {
        let w = wet_at(t, 0.0);
        for &x in &xs {
            v.push(Wet { x, ..w });
        }
    }
    if let Some(x) = EXTRA_WET.get() {
        v.extend(x.iter().copied());
    }
    v
}
/// wet states on the seams of the implementation (see seam.rs), set once per run
pub static EXTRA_WET: std::sync::OnceLock<Vec<Wet>> = std::sync::OnceLock::new();
pub fn wet_at(t: f64, x: f64) -> Wet {
    let (mut l, mut g) = sat_t(t);
    // in region 3 the basic equation's own pressure differs from psat
    l.p = psat(t);
    g.p = l.p;
    Wet { l, g, x }
}
pub fn wet(tier: &str, f: impl Fn(&Wet, &mut Local) + Sync) -> Local {
    let ws = wet_states(tier);
    explore(&ws, |w, l| {
        l.states += 1;
        f(w, l)
    })
}
