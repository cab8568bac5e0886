//! C09, C10, C11, C12, C19: the calling interface itself.
use crate::checks::*;
use crate::eng::*;
use crate::lat::*;
use crate::pairs::*;
use crate::refm::*;
use crate::sat::*;

pub const INVALID_OUTID: f64 = -1000.0;
pub const INVALID_P: f64 = -2100.0;
pub const INVALID_T: f64 = -2101.0;

/// a description of a state by function and two numbers
#[derive(Clone, Copy)]
pub struct In {
    pub f: usize,
    pub a: f64,
    pub b: f64,
    pub r: i32, // region of the model
}
/// inputs of all twelve functions, one for each lattice state and wet state
pub fn inputs(single: &str, wets: &str) -> Vec<In> {
    let mut v = vec![];
    for st in states(size(single)) {
        for f in 0..8 {
            v.push(In { f, a: st.x(f), b: st.y(f), r: st.s.reg });
        }
    }
    for w in wet_states(wets) {
        for f in 1..12 {
            v.push(In { f, a: w.co(IN[f].0), b: w.co(IN[f].1), r: 4 });
        }
    }
    v
}

// ===================================================================== C09
fn id_alphabet(tier: &str) -> Vec<i32> {
    let n = if tier == "quick" { 130 } else { 2000 };
    let mut v: Vec<i32> = (-n..0).chain(36..=n).collect();
    for k in 8..31 {
        let x = 1i32 << k;
        v.extend([x - 1, x, x + 1, -x, -x - 1, -x + 1, x + 4, x + 15]);
    }
    v.extend([i32::MIN, i32::MIN + 1, i32::MAX, -9999, -1000]);
    v.retain(|x| !(0..=35).contains(x));
    v.sort();
    v.dedup();
    v
}
pub fn c09(tier: &str) -> Local {
    let (a, b) = if tier == "thorough" { ("quick", "small") } else { ("small", "tiny") };
    let ins = inputs(a, b);
    // ---- echo
    let mut l = explore(&ins, |i, l| {
        l.states += 1;
        let fun = FN_NAMES[i.f];
        if (PX..=SX).contains(&i.f) && call(i.f, i.a, i.b, if i.f == PX { 1 } else { 0 }) < 0.0 && i.f != PX {
            // not accepted (rounding at the ends of the line): C10
            l.skip(&format!("{fun}: not accepted"));
            return;
        }
        if i.f == PX && i.a < PMIN_LIB || i.f == TX && i.a < 0.0 {
            return;
        }
        for (o, w) in [(IN[i.f].0, i.a), (IN[i.f].1, i.b)] {
            let regs: &[i32] = if i.f < 8 { &[NOREG, 1, 2, 3, 4, 5] } else { &[NOREG] };
            for &reg in regs {
                let c = Call { f: i.f, a: i.a, b: i.b, o, reg };
                let got = c.run();
                l.transitions += 1;
                l.validated += 1;
                if got.to_bits() != w.to_bits() {
                    l.viol(&format!("{fun}.echo.{}", id::NAMES[o as usize]), &[c], format!("{} = {got:?}, the input is {w:?}", c.text()));
                }
            }
        }
        l.outcome(format!("{fun} echo, region {}", i.r));
    });
    // ---- ids outside 0..35
    let ids = id_alphabet(tier);
    let few: Vec<In> = representatives();
    let items: Vec<(In, i32)> = few.iter().flat_map(|i| ids.iter().map(move |o| (*i, *o))).collect();
    l.merge(explore(&items, |(i, o), l| {
        l.states += 1;
        let fun = FN_NAMES[i.f];
        let regs: Vec<i32> = if i.f < 8 { vec![NOREG, i.r] } else { vec![NOREG] };
        for reg in regs {
            let c = Call { f: i.f, a: i.a, b: i.b, o: *o, reg };
            let got = c.run();
            l.transitions += 1;
            l.validated += 1;
            l.outcome(format!("{fun} invalid id -> {got}"));
            if got != INVALID_OUTID && !(i.f == PT && i.r == 4 && got == -2201.0) {
                l.viol(&format!("{fun}.invalid_id.region{}", i.r), &[c], format!("{} = {got:?}, documented code {INVALID_OUTID}", c.text()));
            }
        }
    }));
    // ---- the symbolic names of the ids are the documented numbers
    let names: [(&str, i32, i32); 36] = [
        ("OP", seuif97::OP, 0),
        ("OT", seuif97::OT, 1),
        ("OD", seuif97::OD, 2),
        ("OV", seuif97::OV, 3),
        ("OH", seuif97::OH, 4),
        ("OS", seuif97::OS, 5),
        ("OE", seuif97::OE, 6),
        ("OU", seuif97::OU, 7),
        ("OCP", seuif97::OCP, 8),
        ("OCV", seuif97::OCV, 9),
        ("OW", seuif97::OW, 10),
        ("OKS", seuif97::OKS, 11),
        ("OF", seuif97::OF, 12),
        ("OG", seuif97::OG, 13),
        ("OZ", seuif97::OZ, 14),
        ("OX", seuif97::OX, 15),
        ("OR", seuif97::OR, 16),
        ("OEC", seuif97::OEC, 17),
        ("OKT", seuif97::OKT, 18),
        ("ODVDT", seuif97::ODVDT, 19),
        ("ODVDP", seuif97::ODVDP, 20),
        ("ODPDT", seuif97::ODPDT, 21),
        ("OIJTC", seuif97::OIJTC, 22),
        ("OJTC", seuif97::OJTC, 23),
        ("ODV", seuif97::ODV, 24),
        ("OKV", seuif97::OKV, 25),
        ("OTC", seuif97::OTC, 26),
        ("OTD", seuif97::OTD, 27),
        ("OPR", seuif97::OPR, 28),
        ("OST", seuif97::OST, 29),
        ("OSDC", seuif97::OSDC, 30),
        ("OPC", seuif97::OPC, 31),
        ("OBETAP", seuif97::OBETAP, 32),
        ("OFI", seuif97::OFI, 33),
        ("OFU", seuif97::OFU, 34),
        ("OALFAP", seuif97::OALFAP, 35),
    ];
    l.merge(explore(&names, |(name, got, want), l| {
        l.states += 1;
        for f in 0..12 {
            for i in few.iter().filter(|i| i.f == f) {
                let c = Call { f, a: i.a, b: i.b, o: *got, reg: NOREG };
                let (u, v) = (c.run(), call(f, i.a, i.b, *want));
                l.transitions += 1;
                l.validated += 1;
                if u.to_bits() != v.to_bits() {
                    l.viol(&format!("constant.{name}"), &[c], format!("seuif97::{name} is {got}, documented {want}: {} = {u:?}, id {want} gives {v:?}", c.text()));
                }
            }
        }
        l.outcome(format!("{name} = {got}"));
    }));
    // ---- every id has the same meaning everywhere
    let all: Vec<i32> = (0..36).collect();
    let t = if tier == "thorough" { "small" } else { "tiny" };
    l.merge(pair_props(t, &all));
    l.merge(sat_props(t, &all));
    l.merge(wet(t, |w, l| {
        if switch(w.l.t) || w.l.t > 640.0 || w.x < 1e-3 || w.x > 0.999 || w.l.t < 273.2 {
            return;
        }
        for f in 1..12 {
            let (a, b) = (w.co(IN[f].0), w.co(IN[f].1));
            // the wet state the function reports
            if f < 8 && call(f, a, b, 16) != 4.0 {
                continue;
            }
            let t = call(f, a, b, 1) + K0;
            let p = call(f, a, b, 0);
            let x = call(f, a, b, 15);
            let (lq, g) = if t <= 623.15 { (reg1(p, t), reg2(p, t)) } else { (reg3(1.0 / v3_sat(p, 0), t), reg3(1.0 / v3_sat(p, 1), t)) };
            let m = Wet { l: lq, g, x };
            for o in 0..36 {
                if o == IN[f].0 || o == IN[f].1 || o == 15 {
                    continue;
                }
                let c = Call::new(f, a, b, o);
                let got = c.run();
                l.transitions += 1;
                l.validated += 1;
                let ok = match o {
                    0 => (got / psat(t) - 1.0).abs() < 1e-6,
                    1 => true,
                    16 => got == 4.0 || f >= PX && is_err(got),
                    _ if MIX.contains(&o) => dev(o, got, m.mix(o)) < 1e-6,
                    // the remaining properties are not defined for a mixture of two phases
                    _ => is_err(got),
                };
                l.outcome(format!("{} wet {} {}", FN_NAMES[f], id::NAMES[o as usize], if is_err(got) { "undefined" } else { "value" }));
                if !ok {
                    l.viol(&format!("{}.wet.{}", FN_NAMES[f], id::NAMES[o as usize]), &[c], format!("{} = {got:?} is not the property {} of {}", c.text(), id::NAMES[o as usize], w.text()));
                }
            }
        }
    }));
    l
}
/// one or a few inputs of each function in each region
pub fn representatives() -> Vec<In> {
    let mut v = vec![];
    for (p, t) in [
        (3.0, 300.0), (80.0, 300.0), (80.0, 500.0), (16.0, 600.0), (0.0035, 300.0), (0.0035, 700.0), (30.0, 700.0), (5.0, 600.0), (60.0, 1000.0),
        (25.5837018, 650.0), (22.2930643, 650.0), (78.309564, 750.0), (50.0, 630.0), (0.5, 1500.0), (30.0, 1500.0), (30.0, 2000.0),
    ] {
        if let Some(st) = St::at(p, t) {
            for f in 0..8 {
                v.push(In { f, a: st.x(f), b: st.y(f), r: st.s.reg });
            }
        }
    }
    for t in [300.0, 400.0, 500.0, 600.0, 630.0, 645.0] {
        let (mut l, mut g) = sat_t(t);
        l.p = psat(t);
        g.p = l.p;
        for x in [0.0, 0.3, 0.7, 1.0] {
            let w = Wet { l, g, x };
            for f in 1..12 {
                if f < 8 && (x == 0.0 || x == 1.0) {
                    continue;
                }
                v.push(In { f, a: w.co(IN[f].0), b: w.co(IN[f].1), r: 4 });
            }
        }
        v.push(In { f: PT, a: psat(t - K0 + K0), b: t - K0, r: 4 });
    }
    v
}

// ===================================================================== C12
pub fn c12(tier: &str) -> Local {
    let (a, b) = match tier {
        "thorough" => ("mid", "small"),
        "quick" => ("small", "tiny"),
        x => (x, x),
    };
    let ins: Vec<In> = inputs(a, b).into_iter().filter(|i| i.f < 8).collect();
    explore(&ins, |i, l| {
        l.states += 1;
        let fun = FN_NAMES[i.f];
        let r = call(i.f, i.a, i.b, 16);
        if !(1.0..=5.0).contains(&r) {
            l.skip(&format!("{fun}: not accepted (C10)"));
            return;
        }
        let r = r as i32;
        l.outcome(format!("{fun} region {r}"));
        for o in 0..36 {
            let u = Call::new(i.f, i.a, i.b, o);
            let c = Call { reg: r, ..u };
            let (x, y) = (u.run(), c.run());
            l.transitions += 2;
            l.validated += 1;
            if x.to_bits() != y.to_bits() {
                l.viol(&format!("{fun}.region{r}.{}", id::NAMES[o as usize]), &[u, c], format!("{} = {x:?} but {} = {y:?}", u.text(), c.text()));
            }
        }
        for reg in 1..=5 {
            let c = Call { f: i.f, a: i.a, b: i.b, o: 16, reg };
            let y = c.run();
            l.transitions += 1;
            if y != reg as f64 {
                l.viol(&format!("{fun}.names_region{reg}"), &[c], format!("{} = {y:?}", c.text()));
            }
        }
    })
}

// ===================================================================== C19
pub fn c19(tier: &str) -> Local {
    let ss = states(size(tier));
    let mut l = explore(&ss, |st, l| {
        l.states += 1;
        for f in ALL_PAIRS {
            let (a, b) = (st.x(f), st.y(f));
            let r = call(f, a, b, 16);
            let c = Call::new(f, a, b, 15);
            let x = c.run();
            l.transitions += 1;
            l.validated += 1;
            let fun = FN_NAMES[f];
            let ok = match r as i32 {
                1 => x == 0.0,
                2 | 5 => x == 1.0,
                3 => (0.0..=1.0).contains(&x),
                4 => (0.0..=1.0).contains(&x) || f == PT && is_err(x),
                _ => is_err(x),
            };
            l.outcome(format!("{fun} region {r} x={}", if x == 0.0 || x == 1.0 || is_err(x) { format!("{x}") } else { "(0,1)".into() }));
            if !ok {
                l.viol(&format!("{fun}.region{r}"), &[c], format!("{} = {x:?} in region {r}, at {}", c.text(), st.text()));
            }
            // by the state itself, away from the boundaries
            let adm = admitted(f, st);
            if adm.len() == 1 && !ambiguous(f, &st.s) && !(f == PT && in_band(a, b + K0)) {
                let want = if adm[0] == 1 { 0.0 } else { 1.0 };
                if x != want && adm[0] != 3 {
                    l.viol(&format!("{fun}.state{}", adm[0]), &[c], format!("{} = {x:?} for {}", c.text(), st.text()));
                }
            }
        }
    });
    // wet states: the mass fraction for which the phases combine to the inputs
    l.merge(wet(tier, |w, l| {
        if switch(w.l.t) {
            return;
        }
        for f in TWOPHASE {
            let (a, b) = (w.co(IN[f].0), w.co(IN[f].1));
            let c = Call::new(f, a, b, 15);
            if call(f, a, b, 16) != 4.0 {
                l.skip(&format!("{}: located in a neighbouring single phase (C02)", FN_NAMES[f]));
                continue;
            }
            let x = c.run();
            let t = w.l.t;
            let tol = match f {
                HS if t > 646.0 => 0.12,
                HS if t > 640.0 => 3e-3,
                HS => 1e-4,
                _ if t > 646.9 => 1e-3,
                _ if t > 646.0 => 1e-5,
                _ => 1e-7,
            };
            bound(l, &format!("{}.x", FN_NAMES[f]), c, x, w.x, (x - w.x).abs(), tol, &|| w.text());
            if !(x >= 0.0 && x <= 1.0) {
                l.viol(&format!("{}.outside", FN_NAMES[f]), &[c], format!("{} = {x:?} at {}", c.text(), w.text()));
            }
            l.outcome(format!("{} wet", FN_NAMES[f]));
        }
        for f in [PX, TX, HX, SX] {
            let (a, b) = (w.co(IN[f].0), w.co(IN[f].1));
            if call(f, a, b, if f == PX { 1 } else { 0 }) <= -1000.0 {
                l.skip(&format!("{}: not accepted", FN_NAMES[f]));
                continue;
            }
            let c = Call::new(f, a, b, 15);
            let x = c.run();
            l.transitions += 1;
            if x.to_bits() != b.to_bits() {
                l.viol(&format!("{}.x", FN_NAMES[f]), &[c], format!("{} = {x:?}", c.text()));
            }
        }
    }));
    // the whole coordinate plane of every pair, not only the images of states
    let n = match tier {
        "tiny" => 40,
        "small" => 80,
        "quick" => 200,
        "mid" => 400,
        _ => 1500,
    };
    let ax = |o: i32| -> Vec<f64> {
        (0..=n)
            .map(|i| {
                let f = i as f64 / n as f64;
                match o {
                    0 => 0.0005 * (110.0f64 / 0.0005).powf(f),
                    1 => -1.0 + 400.0 * f,
                    3 => 0.0009 * (1500.0f64 / 0.0009).powf(f),
                    4 => -10.0 + 7500.0 * f,
                    _ => -0.05 + 13.0 * f,
                }
            })
            .collect()
    };
    let mut pts = vec![];
    for f in TWOPHASE {
        for a in ax(IN[f].0) {
            for b in ax(IN[f].1) {
                pts.push((f, a, b));
            }
        }
    }
    l.merge(explore(&pts, |&(f, a, b), l| {
        l.states += 1;
        l.transitions += 1;
        let r = call(f, a, b, 16);
        let c = Call::new(f, a, b, 15);
        let x = c.run();
        l.outcome(format!("plane {} {}", FN_NAMES[f], if is_err(x) { "rejected" } else { "accepted" }));
        let ok = match r as i32 {
            1..=5 => (0.0..=1.0).contains(&x),
            _ => is_err(x),
        };
        if !ok {
            l.viol(&format!("{}.plane", FN_NAMES[f]), &[c], format!("{} = {x:?}, region {r}", c.text()));
        }
    }));
    l
}
