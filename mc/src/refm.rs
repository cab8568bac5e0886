//! Reference model of IAPWS-IF97 and its companion releases.
//!
//! Written from the releases, one naive sum per quantity, no shared sub-expressions, no splitting, no
//! iteration except bisection.  Units: p MPa, T K, v m3/kg, energies kJ/kg.
//! It has its own frozen coefficient tables (tables.rs) and never calls the code under test.
use crate::tables::*;

pub const R: f64 = 0.461526;
pub const TC: f64 = 647.096;
pub const PC: f64 = 22.064;
pub const DC: f64 = 322.0;
pub const K0: f64 = 273.15;
pub const TT: f64 = 273.16;
pub const PS623: f64 = 16.5291642526045; // IF97 saturation pressure at 623.15 K
pub const SC: f64 = 4.41202148223476;

/// property ids (public interface of the library, README table)
pub mod id {
    pub const P: i32 = 0;
    pub const T: i32 = 1;
    pub const D: i32 = 2;
    pub const V: i32 = 3;
    pub const H: i32 = 4;
    pub const S: i32 = 5;
    pub const E: i32 = 6;
    pub const U: i32 = 7;
    pub const CP: i32 = 8;
    pub const CV: i32 = 9;
    pub const W: i32 = 10;
    pub const KS: i32 = 11;
    pub const F: i32 = 12;
    pub const G: i32 = 13;
    pub const Z: i32 = 14;
    pub const X: i32 = 15;
    pub const R: i32 = 16;
    pub const EC: i32 = 17;
    pub const KT: i32 = 18;
    pub const DVDT: i32 = 19;
    pub const DVDP: i32 = 20;
    pub const DPDT: i32 = 21;
    pub const IJTC: i32 = 22;
    pub const JTC: i32 = 23;
    pub const DV: i32 = 24;
    pub const KV: i32 = 25;
    pub const TC: i32 = 26;
    pub const TD: i32 = 27;
    pub const PR: i32 = 28;
    pub const ST: i32 = 29;
    pub const SDC: i32 = 30;
    pub const PC: i32 = 31;
    pub const BETAP: i32 = 32;
    pub const FI: i32 = 33;
    pub const FU: i32 = 34;
    pub const ALFAP: i32 = 35;
    pub const NAMES: [&str; 36] = [
        "p", "t", "d", "v", "h", "s", "e", "u", "cp", "cv", "w", "ks", "f", "g", "z", "x", "r", "ec", "kt", "dvdt", "dvdp",
        "dpdt", "ijtc", "jtc", "dv", "kv", "tc", "td", "pr", "st", "sdc", "pc", "betap", "fi", "fu", "alfap",
    ];
}

// ------------------------------------------------------------------ sums
fn ipow(x: f64, n: i32) -> f64 {
    if n == 0 {
        1.0
    } else {
        x.powi(n)
    }
}
fn fi(n: i32) -> f64 {
    n as f64
}
/// sum of n a^i b^j
pub fn p00(t: &[(i32, i32, f64)], a: f64, b: f64) -> f64 {
    t.iter().map(|&(i, j, n)| n * ipow(a, i) * ipow(b, j)).sum()
}
fn p10(t: &[(i32, i32, f64)], a: f64, b: f64) -> f64 {
    t.iter().filter(|e| e.0 != 0).map(|&(i, j, n)| n * fi(i) * ipow(a, i - 1) * ipow(b, j)).sum()
}
fn p20(t: &[(i32, i32, f64)], a: f64, b: f64) -> f64 {
    t.iter().filter(|e| e.0 != 0 && e.0 != 1).map(|&(i, j, n)| n * fi(i) * fi(i - 1) * ipow(a, i - 2) * ipow(b, j)).sum()
}
fn p01(t: &[(i32, i32, f64)], a: f64, b: f64) -> f64 {
    t.iter().filter(|e| e.1 != 0).map(|&(i, j, n)| n * ipow(a, i) * fi(j) * ipow(b, j - 1)).sum()
}
fn p02(t: &[(i32, i32, f64)], a: f64, b: f64) -> f64 {
    t.iter().filter(|e| e.1 != 0 && e.1 != 1).map(|&(i, j, n)| n * ipow(a, i) * fi(j) * fi(j - 1) * ipow(b, j - 2)).sum()
}
fn p11(t: &[(i32, i32, f64)], a: f64, b: f64) -> f64 {
    t.iter()
        .filter(|e| e.0 != 0 && e.1 != 0)
        .map(|&(i, j, n)| n * fi(i) * ipow(a, i - 1) * fi(j) * ipow(b, j - 1))
        .sum()
}

// ------------------------------------------------------------------ state
/// A single-phase thermodynamic state with everything the forward equations determine.
#[derive(Clone, Copy, Debug)]
pub struct State {
    pub reg: i32,
    pub p: f64,
    pub t: f64, // K
    pub v: f64,
    pub h: f64,
    pub s: f64,
    pub u: f64,
    pub cp: f64,
    pub cv: f64,
    pub w: f64,
    pub g: f64,
    pub f: f64,
    pub ec: f64, // (1/v)(dv/dT)p
    pub kt: f64, // -(1/v)(dv/dp)T
    pub g_ideal: f64,
}

struct Gam {
    g: f64,
    gp: f64,
    gpp: f64,
    gt: f64,
    gtt: f64,
    gpt: f64,
}

fn from_gibbs(reg: i32, p: f64, t: f64, pstar: f64, tstar: f64, x: Gam) -> State {
    let pi = p / pstar;
    let tau = tstar / t;
    let v = R * t * pi * x.gp / p / 1000.0;
    let h = R * t * tau * x.gt;
    let s = R * (tau * x.gt - x.g);
    let u = R * t * (tau * x.gt - pi * x.gp);
    let cp = -R * tau * tau * x.gtt;
    let a = x.gp - tau * x.gpt;
    let cv = R * (-tau * tau * x.gtt + a * a / x.gpp);
    let w2 = 1000.0 * R * t * x.gp * x.gp / (a * a / (tau * tau * x.gtt) - x.gpp);
    let g = R * t * x.g;
    State {
        reg,
        p,
        t,
        v,
        h,
        s,
        u,
        cp,
        cv,
        w: w2.sqrt(),
        g,
        f: g - 1000.0 * p * v,
        ec: (1.0 - tau * x.gpt / x.gp) / t,
        kt: -x.gpp / x.gp / pstar,
        g_ideal: g_ideal(reg, p, t),
    }
}

pub fn g_ideal(reg: i32, p: f64, t: f64) -> f64 {
    if reg != 5 {
        let tau = 540.0 / t;
        R * t * (p.ln() + REGION2_GFE_J0.iter().zip(REGION2_GFE_N0).map(|(j, n)| n * ipow(tau, *j)).sum::<f64>())
    } else {
        let tau = 1000.0 / t;
        R * t * (p.ln() + REGION5_GFE_JO.iter().zip(REGION5_GFE_NO).map(|(j, n)| n * ipow(tau, *j)).sum::<f64>())
    }
}

pub fn reg1(p: f64, t: f64) -> State {
    let (a, b) = (7.1 - p / 16.53, 1386.0 / t - 1.222);
    let x = REGION1_GFE_IJN;
    from_gibbs(
        1,
        p,
        t,
        16.53,
        1386.0,
        Gam { g: p00(x, a, b), gp: -p10(x, a, b), gpp: p20(x, a, b), gt: p01(x, a, b), gtt: p02(x, a, b), gpt: -p11(x, a, b) },
    )
}

fn gas(reg: i32, p: f64, t: f64, tstar: f64, j0: &[i32], n0: &[f64], res: &[(i32, i32, f64)], shift: f64) -> State {
    let (pi, tau) = (p, tstar / t);
    let b = tau - shift;
    let z = || j0.iter().zip(n0);
    let o = pi.ln() + z().map(|(j, n)| n * ipow(tau, *j)).sum::<f64>();
    let ot: f64 = z().filter(|e| *e.0 != 0).map(|(j, n)| n * fi(*j) * ipow(tau, j - 1)).sum();
    let ott: f64 = z().filter(|e| *e.0 != 0 && *e.0 != 1).map(|(j, n)| n * fi(*j) * fi(j - 1) * ipow(tau, j - 2)).sum();
    from_gibbs(
        reg,
        p,
        t,
        1.0,
        tstar,
        Gam {
            g: o + p00(res, pi, b),
            gp: 1.0 / pi + p10(res, pi, b),
            gpp: -1.0 / (pi * pi) + p20(res, pi, b),
            gt: ot + p01(res, pi, b),
            gtt: ott + p02(res, pi, b),
            gpt: p11(res, pi, b),
        },
    )
}

pub fn reg2(p: f64, t: f64) -> State {
    gas(2, p, t, 540.0, REGION2_GFE_J0, REGION2_GFE_N0, REGION2_GFE_IJN, 0.5)
}
pub fn reg5(p: f64, t: f64) -> State {
    gas(5, p, t, 1000.0, REGION5_GFE_JO, REGION5_GFE_NO, REGION5_GFE_IJN, 0.0)
}

/// the n1 ln(delta) term of region 3 is stored separately by IF97 (first coefficient)
fn r3_table() -> (&'static [(i32, i32, f64)], f64) {
    (REGION3_HFE_IJN, R3_N1)
}
pub const R3_N1: f64 = 0.10658070028513e1;

pub fn reg3(d: f64, t: f64) -> State {
    let (tb, n1) = r3_table();
    let (de, tau) = (d / DC, TC / t);
    let ph = n1 * de.ln() + p00(tb, de, tau);
    let phd = n1 / de + p10(tb, de, tau);
    let phdd = -n1 / (de * de) + p20(tb, de, tau);
    let pht = p01(tb, de, tau);
    let phtt = p02(tb, de, tau);
    let phdt = p11(tb, de, tau);
    let p = d * R * t * de * phd / 1000.0;
    let a = de * phd - de * tau * phdt;
    let b = 2.0 * de * phd + de * de * phdd;
    let f = R * t * ph;
    State {
        reg: 3,
        p,
        t,
        v: 1.0 / d,
        h: R * t * (tau * pht + de * phd),
        s: R * (tau * pht - ph),
        u: R * t * tau * pht,
        cp: R * (-tau * tau * phtt + a * a / b),
        cv: -R * tau * tau * phtt,
        w: (1000.0 * R * t * (b - a * a / (tau * tau * phtt))).sqrt(),
        g: f + R * t * de * phd,
        f,
        ec: a / b / t,
        kt: 1000.0 / (d * R * t * b),
        g_ideal: g_ideal(3, p, t),
    }
}

impl State {
    pub fn d(&self) -> f64 {
        1.0 / self.v
    }
    /// any property by its public id; OT in degrees Celsius
    pub fn prop(&self, o: i32) -> f64 {
        use id as i;
        let dpdt = self.ec / self.kt;
        let d = self.d();
        match o {
            i::P => self.p,
            i::T => self.t - K0,
            i::D => d,
            i::V => self.v,
            i::H => self.h,
            i::S => self.s,
            i::E => self.h - TT * self.s,
            i::U => self.u,
            i::CP => self.cp,
            i::CV => self.cv,
            i::W => self.w,
            i::KS => self.w * self.w / (self.p * 1.0e6 * self.v),
            i::F => self.f,
            i::G => self.g,
            i::Z => 1000.0 * self.p * self.v / (R * self.t),
            i::X => {
                if self.reg == 1 {
                    0.0
                } else {
                    1.0
                }
            }
            i::R => self.reg as f64,
            i::EC => self.ec,
            i::KT => self.kt,
            i::DVDT => self.v * self.ec,
            i::DVDP => -self.v * self.kt,
            i::DPDT => dpdt,
            i::IJTC => -1000.0 * self.v * (self.t * self.ec - 1.0),
            i::JTC => 1000.0 * self.v * (self.t * self.ec - 1.0) / self.cp,
            i::DV => viscosity(d, self.t),
            i::KV => viscosity(d, self.t) / d,
            i::TC => thcond(d, self.t),
            i::TD => thcond(d, self.t) / (d * self.cp * 1000.0),
            i::PR => viscosity(d, self.t) * self.cp * 1000.0 / thcond(d, self.t),
            i::ST => surface_tension(self.t),
            i::SDC => dielectric(d, self.t),
            i::PC => dpdt / self.p,
            i::BETAP => 1.0 / (self.p * self.v * self.kt),
            i::FI => ((self.g - self.g_ideal) / (R * self.t)).exp(),
            i::FU => self.p * ((self.g - self.g_ideal) / (R * self.t)).exp(),
            i::ALFAP => dpdt / self.p,
            _ => f64::NAN,
        }
    }
}

// ------------------------------------------------------------------ saturation
pub fn psat(t: f64) -> f64 {
    let n = REGION4_SAT_PT_N;
    let th = t + n[8] / (t - n[9]);
    let a = th * th + n[0] * th + n[1];
    let b = n[2] * th * th + n[3] * th + n[4];
    let c = n[5] * th * th + n[6] * th + n[7];
    (2.0 * c / (-b + (b * b - 4.0 * a * c).sqrt())).powi(4)
}
pub fn tsat(p: f64) -> f64 {
    let n = REGION4_SAT_PT_N;
    let be = p.sqrt().sqrt();
    let e = be * be + n[2] * be + n[5];
    let f = n[0] * be * be + n[3] * be + n[6];
    let g = n[1] * be * be + n[4] * be + n[7];
    let d = 2.0 * g / (-f - (f * f - 4.0 * e * g).sqrt());
    0.5 * (n[9] + d - ((n[9] + d) * (n[9] + d) - 4.0 * (n[8] + n[9] * d)).sqrt())
}
pub fn b23_p(t: f64) -> f64 {
    0.34805185628969e3 - 0.11671859879975e1 * t + 0.10192970039326e-2 * t * t
}
pub fn b23_t(p: f64) -> f64 {
    0.57254459862746e3 + ((p - 0.13918839778870e2) / 0.10192970039326e-2).sqrt()
}

// ------------------------------------------------------------------ region 3 v(p,T), IAPWS SR5-05
fn horner(n: &[f64], i: &[i32], x: f64) -> f64 {
    (1..n.len()).map(|k| n[k] * ipow(x, i[k])).sum()
}
macro_rules! bnd {
    ($f:ident,$n:ident,$i:ident,$log:expr) => {
        pub fn $f(p: f64) -> f64 {
            horner($n, $i, if $log { p.ln() } else { p })
        }
    };
}
bnd!(t3ab, T_ATREGIONBOUNDARY_N3AB, T_ATREGIONBOUNDARY_I3AB, true);
bnd!(t3cd, T_ATREGIONBOUNDARY_N3CD, T_ATREGIONBOUNDARY_I3CD, false);
bnd!(t3gh, T_ATREGIONBOUNDARY_N3GH, T_ATREGIONBOUNDARY_I3GH, false);
bnd!(t3ij, T_ATREGIONBOUNDARY_N3IJ, T_ATREGIONBOUNDARY_I3IJ, false);
bnd!(t3jk, T_ATREGIONBOUNDARY_N3JK, T_ATREGIONBOUNDARY_I3JK, false);
bnd!(t3mn, T_ATREGIONBOUNDARY_N3MN, T_ATREGIONBOUNDARY_I3MN, false);
bnd!(t3op, T_ATREGIONBOUNDARY_N3OP, T_ATREGIONBOUNDARY_I3OP, true);
bnd!(t3qu, T_ATREGIONBOUNDARY_N3QU, T_ATREGIONBOUNDARY_I3QU, false);
bnd!(t3rx, T_ATREGIONBOUNDARY_N3RX, T_ATREGIONBOUNDARY_I3RX, false);
bnd!(t3uv, T_ATREGIONBOUNDARY_N3UV, T_ATREGIONBOUNDARY_I3UV, false);
bnd!(t3wx, T_ATREGIONBOUNDARY_N3WX, T_ATREGIONBOUNDARY_I3WX, true);
pub fn t3ef(p: f64) -> f64 {
    3.727888004 * (p - 22.064) + 647.096
}
pub const P3CD: f64 = 19.00881189173929;

/// the ordered list of (lower boundary temperature, letter) of the sub-regions at pressure p
pub fn subregions3(p: f64) -> Vec<(f64, char)> {
    let lo = 0.0;
    if p > 40.0 {
        vec![(lo, 'a'), (t3ab(p), 'b')]
    } else if p > 25.0 {
        vec![(lo, 'c'), (t3cd(p), 'd'), (t3ab(p), 'e'), (t3ef(p), 'f')]
    } else if p > 23.5 {
        vec![(lo, 'c'), (t3cd(p), 'g'), (t3gh(p), 'h'), (t3ef(p), 'i'), (t3ij(p), 'j'), (t3jk(p), 'k')]
    } else if p > 23.0 {
        vec![(lo, 'c'), (t3cd(p), 'l'), (t3gh(p), 'h'), (t3ef(p), 'i'), (t3ij(p), 'j'), (t3jk(p), 'k')]
    } else if p > 22.5 {
        vec![
            (lo, 'c'),
            (t3cd(p), 'l'),
            (t3gh(p), 'm'),
            (t3mn(p), 'n'),
            (t3ef(p), 'o'),
            (t3op(p), 'p'),
            (t3ij(p), 'j'),
            (t3jk(p), 'k'),
        ]
    } else if p > psat(643.15) {
        let mut v = vec![(lo, 'c'), (t3cd(p), 'q')];
        if p > 22.11 {
            v.extend([(t3qu(p), 'u'), (t3uv(p), 'v'), (t3ef(p), 'w'), (t3wx(p), 'x')]);
        } else if p > 22.064 {
            v.extend([(t3qu(p), 'u'), (t3uv(p), 'y'), (t3ef(p), 'z'), (t3wx(p), 'x')]);
        } else {
            v.push((t3qu(p), 'u'));
            if p > 21.93161551 {
                v.push((t3uv(p), 'y'));
            }
            if p > 21.90096265 {
                v.extend([(tsat(p), 'z'), (t3wx(p), 'x')]);
            } else {
                v.push((tsat(p), 'x'));
            }
        }
        v.extend([(t3rx(p), 'r'), (t3jk(p), 'k')]);
        v
    } else if p > 20.5 {
        vec![(lo, 'c'), (t3cd(p), 's'), (tsat(p), 'r'), (t3jk(p), 'k')]
    } else if p > P3CD {
        vec![(lo, 'c'), (t3cd(p), 's'), (tsat(p), 't')]
    } else {
        vec![(lo, 'c'), (tsat(p), 't')]
    }
}
pub fn subregion3(p: f64, t: f64) -> char {
    let mut c = '?';
    for (lo, l) in subregions3(p) {
        if t > lo {
            c = l;
        }
    }
    c
}
/// distance (K) to the nearest sub-region temperature boundary
pub fn sub3_margin(p: f64, t: f64) -> f64 {
    subregions3(p).iter().map(|x| (t - x.0).abs()).fold(1e9, f64::min)
}

pub fn v3(p: f64, t: f64, c: char) -> f64 {
    // v*, p*, T*, a, b, c, d, e
    let (vs, ps, ts, a, b, cc, d, e, tab): (f64, f64, f64, f64, f64, f64, f64, f64, &[(i32, i32, f64)]) = match c {
        'a' => (0.0024, 100.0, 760.0, 0.085, 0.817, 1.0, 1.0, 1.0, PT2V_3A_IJN),
        'b' => (0.0041, 100.0, 860.0, 0.280, 0.779, 1.0, 1.0, 1.0, PT2V_3B_IJN),
        'c' => (0.0022, 40.0, 690.0, 0.259, 0.903, 1.0, 1.0, 1.0, PT2V_3C_IJN),
        'd' => (0.0029, 40.0, 690.0, 0.559, 0.939, 1.0, 1.0, 4.0, PT2V_3D_IJN),
        'e' => (0.0032, 40.0, 710.0, 0.587, 0.918, 1.0, 1.0, 1.0, PT2V_3E_IJN),
        'f' => (0.0064, 40.0, 730.0, 0.587, 0.891, 0.5, 1.0, 4.0, PT2V_3F_IJN),
        'g' => (0.0027, 25.0, 660.0, 0.872, 0.971, 1.0, 1.0, 4.0, PT2V_3G_IJN),
        'h' => (0.0032, 25.0, 660.0, 0.898, 0.983, 1.0, 1.0, 4.0, PT2V_3H_IJN),
        'i' => (0.0041, 25.0, 660.0, 0.910, 0.984, 0.5, 1.0, 4.0, PT2V_3I_IJN),
        'j' => (0.0054, 25.0, 670.0, 0.875, 0.964, 0.5, 1.0, 4.0, PT2V_3J_IJN),
        'k' => (0.0077, 25.0, 680.0, 0.802, 0.935, 1.0, 1.0, 1.0, PT2V_3K_IJN),
        'l' => (0.0026, 24.0, 650.0, 0.908, 0.989, 1.0, 1.0, 4.0, PT2V_3L_IJN),
        'm' => (0.0028, 23.0, 650.0, 1.000, 0.997, 1.0, 0.25, 1.0, PT2V_3M_IJN),
        'n' => (0.0031, 23.0, 650.0, 0.976, 0.997, 1.0, 1.0, 1.0, PT2V_3N_IJN),
        'o' => (0.0034, 23.0, 650.0, 0.974, 0.996, 0.5, 1.0, 1.0, PT2V_3O_IJN),
        'p' => (0.0041, 23.0, 650.0, 0.972, 0.997, 0.5, 1.0, 1.0, PT2V_3P_IJN),
        'q' => (0.0022, 23.0, 650.0, 0.848, 0.983, 1.0, 1.0, 4.0, PT2V_3Q_IJN),
        'r' => (0.0054, 23.0, 650.0, 0.874, 0.982, 1.0, 1.0, 1.0, PT2V_3R_IJN),
        's' => (0.0022, 21.0, 640.0, 0.886, 0.990, 1.0, 1.0, 4.0, PT2V_3S_IJN),
        't' => (0.0088, 20.0, 650.0, 0.803, 1.020, 1.0, 1.0, 1.0, PT2V_3T_IJN),
        'u' => (0.0026, 23.0, 650.0, 0.902, 0.988, 1.0, 1.0, 1.0, PT2V_3U_IJN),
        'v' => (0.0031, 23.0, 650.0, 0.960, 0.995, 1.0, 1.0, 1.0, PT2V_3V_IJN),
        'w' => (0.0039, 23.0, 650.0, 0.959, 0.995, 1.0, 1.0, 4.0, PT2V_3W_IJN),
        'x' => (0.0049, 23.0, 650.0, 0.910, 0.988, 1.0, 1.0, 1.0, PT2V_3X_IJN),
        'y' => (0.0031, 22.0, 650.0, 0.996, 0.994, 1.0, 1.0, 4.0, PT2V_3Y_IJN),
        'z' => (0.0038, 22.0, 650.0, 0.993, 0.994, 1.0, 1.0, 4.0, PT2V_3Z_IJN),
        _ => panic!("subregion {c}"),
    };
    let (x, y) = ((p / ps - a).powf(cc), (t / ts - b).powf(d));
    let s = p00(tab, x, y);
    if c == 'n' {
        vs * s.exp()
    } else {
        vs * s.powf(e)
    }
}
pub fn v3_pt(p: f64, t: f64) -> f64 {
    v3(p, t, subregion3(p, t))
}
/// saturated liquid (x=0) / vapour (x=1) volume for p > psat(623.15)
pub fn v3_sat(p: f64, x: i32) -> f64 {
    let t = tsat(p);
    let c = if x == 0 {
        if p < P3CD {
            'c'
        } else if p < psat(643.15) {
            's'
        } else if p < 21.93161551 {
            'u'
        } else {
            'y'
        }
    } else if p < 20.5 {
        't'
    } else if p < psat(643.15) {
        'r'
    } else if p < 21.90096265 {
        'x'
    } else {
        'z'
    };
    v3(p, t, c)
}
/// exact inversion of the region-3 basic equation near a starting volume
pub fn d3_exact(p: f64, t: f64, v0: f64) -> Option<f64> {
    let mut d = 1.0 / v0;
    for _ in 0..60 {
        let s = reg3(d, t);
        // dp/dd = 1/(d kt)
        let dp = 1.0 / (d * s.kt);
        let step = (p - s.p) / dp;
        if !step.is_finite() {
            return None;
        }
        let lim = 0.02 * d;
        d += step.clamp(-lim, lim);
        if step.abs() < 1e-13 * d {
            return Some(d);
        }
    }
    None
}

/// IF97 region of (p,T): 1,2,3,5; 4 only exactly on the line is left to the caller; 0 = out of range
pub fn region_pt(p: f64, t: f64) -> i32 {
    if !(t >= 273.15 && t <= 2273.15 && p > 0.0 && p <= 100.0) {
        return 0;
    }
    if t > 1073.15 {
        return if p <= 50.0 { 5 } else { 0 };
    }
    if t <= 623.15 {
        if p >= psat(t) {
            1
        } else {
            2
        }
    } else if t <= 863.15 {
        if p > b23_p(t) {
            3
        } else {
            2
        }
    } else {
        2
    }
}
pub fn state_pt(p: f64, t: f64) -> Option<State> {
    Some(match region_pt(p, t) {
        1 => reg1(p, t),
        2 => reg2(p, t),
        3 => reg3(1.0 / v3_pt(p, t), t),
        5 => reg5(p, t),
        _ => return None,
    })
}
/// both saturated phases at temperature t (K)
pub fn sat_t(t: f64) -> (State, State) {
    let p = psat(t);
    sat_pt(p, t)
}
pub fn sat_p(p: f64) -> (State, State) {
    let t = tsat(p);
    sat_pt(p, t)
}
fn sat_pt(p: f64, t: f64) -> (State, State) {
    if t <= 623.15 {
        (reg1(p, t), reg2(p, t))
    } else {
        (reg3(1.0 / v3_sat(p, 0), t), reg3(1.0 / v3_sat(p, 1), t))
    }
}

// ------------------------------------------------------------------ backward equations
pub fn t1_ph(p: f64, h: f64) -> f64 {
    p00(PH2T_REG1_IJN, p, h / 2500.0 + 1.0)
}
pub fn t1_ps(p: f64, s: f64) -> f64 {
    p00(PS2T_REG1_IJN, p, s + 2.0)
}
pub fn p1_hs(h: f64, s: f64) -> f64 {
    100.0 * p00(HS2P_REG1_IJN, h / 3400.0 + 0.05, s / 7.6 + 0.05)
}
pub fn h2bc(p: f64) -> f64 {
    0.26526571908428e4 + ((p - 0.45257578905948e1) / 0.12809002730136e-3).sqrt()
}
pub fn h2ab(s: f64) -> f64 {
    -0.349898083432139e4 + 0.257560716905876e4 * s - 0.421073558227969e3 * s * s + 0.276349063799944e2 * s * s * s
}
pub fn sub2_ph(p: f64, h: f64) -> char {
    if p <= 4.0 {
        'a'
    } else if h < h2bc(p) {
        'c'
    } else {
        'b'
    }
}
pub fn sub2_ps(p: f64, s: f64) -> char {
    if p <= 4.0 {
        'a'
    } else if s < 5.85 {
        'c'
    } else {
        'b'
    }
}
pub fn sub2_hs(h: f64, s: f64) -> char {
    if h <= h2ab(s) {
        'a'
    } else if s < 5.85 {
        'c'
    } else {
        'b'
    }
}
pub fn t2_ph(p: f64, h: f64, c: char) -> f64 {
    match c {
        'a' => p00(PH2T_REG2A_IJN, p, h / 2000.0 - 2.1),
        'b' => p00(PH2T_REG2B_IJN, p - 2.0, h / 2000.0 - 2.6),
        _ => p00(PH2T_REG2C_IJN, p + 25.0, h / 2000.0 - 1.8),
    }
}
pub fn t2_ps(p: f64, s: f64, c: char) -> f64 {
    match c {
        'a' => PS2T_REG2A_IJN.iter().map(|&(i, j, n)| n * p.powf(i) * ipow(s / 2.0 - 2.0, j)).sum(),
        'b' => p00(PS2T_REG2B_IJN, p, 10.0 - s / 0.7853),
        _ => p00(PS2T_REG2C_IJN, p, 2.0 - s / 2.9251),
    }
}
pub fn p2_hs(h: f64, s: f64, c: char) -> f64 {
    match c {
        'a' => 4.0 * p00(HS2P_REG2A_IJN, h / 4200.0 - 0.5, s / 12.0 - 1.2).powi(4),
        'b' => 100.0 * p00(HS2P_REG2B_IJN, h / 4100.0 - 0.6, s / 7.9 - 1.01).powi(4),
        _ => 100.0 * p00(HS2P_REG2C_IJN, h / 3500.0 - 0.7, s / 5.9 - 1.1).powi(4),
    }
}
pub fn h3ab(p: f64) -> f64 {
    0.201464004206875e4 + 0.374696550136983e1 * p - 0.219921901054187e-1 * p * p + 0.875131686009950e-4 * p * p * p
}
pub fn t3_ph(p: f64, h: f64) -> f64 {
    if h <= h3ab(p) {
        760.0 * p00(PH2T_3A_REG3_IJN, p / 100.0 + 0.240, h / 2300.0 - 0.615)
    } else {
        860.0 * p00(PH2T_3B_REG3_IJN, p / 100.0 + 0.298, h / 2800.0 - 0.720)
    }
}
pub fn v3_ph(p: f64, h: f64) -> f64 {
    if h <= h3ab(p) {
        0.0028 * p00(PH2V_3A_REG3_IJN, p / 100.0 + 0.128, h / 2100.0 - 0.727)
    } else {
        0.0088 * p00(PH2V_3B_REG3_IJN, p / 100.0 + 0.0661, h / 2800.0 - 0.720)
    }
}
pub fn t3_ps(p: f64, s: f64) -> f64 {
    if s <= SC {
        760.0 * p00(PS2T_3A_REG3_IJN, p / 100.0 + 0.240, s / 4.4 - 0.703)
    } else {
        860.0 * p00(PS2T_3B_REG3_IJN, p / 100.0 + 0.760, s / 5.3 - 0.818)
    }
}
pub fn v3_ps(p: f64, s: f64) -> f64 {
    if s <= SC {
        0.0028 * p00(PS2V_3A_REG3_IJN, p / 100.0 + 0.187, s / 4.4 - 0.755)
    } else {
        0.0088 * p00(PS2V_3B_REG3_IJN, p / 100.0 + 0.298, s / 5.3 - 0.816)
    }
}
pub fn p3_hs(h: f64, s: f64) -> f64 {
    if s <= SC {
        99.0 * p00(HS2P3A_REG3_IJN, h / 2300.0 - 1.01, s / 4.4 - 0.75)
    } else {
        16.6 / p00(HS2P3B_REG3_IJN, h / 2800.0 - 0.681, s / 5.3 - 0.792)
    }
}
/// T_sat(h,s), valid for s >= s''(623.15 K)
pub fn t4_hs(h: f64, s: f64) -> f64 {
    550.0 * p00(HS2T_REG43_IJN, h / 2800.0 - 0.119, s / 9.2 - 1.07)
}
pub fn psat3_h(h: f64) -> f64 {
    let e = h / 2600.0;
    22.0 * p00(H2P_SAT_REG3_IJN, e - 1.02, e - 0.608)
}
pub fn psat3_s(s: f64) -> f64 {
    let e = s / 5.2;
    22.0 * p00(S2P_SAT_REG3_IJN, e - 1.03, e - 0.699)
}

// ------------------------------------------------------------------ transport
pub fn viscosity(d: f64, t: f64) -> f64 {
    let (tr, dr) = (t / TC, d / DC);
    let mu0 = 100.0 * tr.sqrt() / (1.67752 + 2.20462 / tr + 0.6366564 / tr.powi(2) - 0.241605 / tr.powi(3));
    let mu1 = (dr * p00(VISCOSITY_IJH, 1.0 / tr - 1.0, dr - 1.0)).exp();
    mu0 * mu1 * 1e-6
}
pub fn thcond(d: f64, t: f64) -> f64 {
    let (tr, dr) = (t / TC, d / DC);
    let l0 = tr.sqrt()
        / (2.443221e-3 + 1.323095e-2 / tr + 6.770357e-3 / tr.powi(2) - 3.454586e-3 / tr.powi(3) + 4.096266e-4 / tr.powi(4));
    let mut s = 0.0;
    for i in 0..5 {
        for j in 0..6 {
            s += ipow(1.0 / tr - 1.0, i as i32) * THCOND_NIJ[i][j] * ipow(dr - 1.0, j as i32);
        }
    }
    1e-3 * l0 * (dr * s).exp()
}
/// defined up to the critical temperature only
pub fn surface_tension(t: f64) -> f64 {
    if t > TC {
        return f64::NAN;
    }
    let th = 1.0 - t / TC;
    235.8e-3 * th.powf(1.256) * (1.0 - 0.625 * th)
}
/// Harris-Alder g factor exists only above 228 K
pub fn dielectric(d: f64, t: f64) -> f64 {
    let (dr, tr) = (d / DC, TC / t);
    let mut g = 1.0 + 0.196096504426e-2 * dr * (t / 228.0 - 1.0).powf(-1.2);
    for k in 0..11 {
        g += STATIC_DIELECTRIC_N[k] * ipow(dr, STATIC_DIELECTRIC_I[k]) * tr.powf(STATIC_DIELECTRIC_J[k]);
    }
    let (na, mu, e0, kb, m, al) = (6.0221367e23, 6.138e-30, 8.854187817e-12, 1.380658e-23, 0.018015268, 1.636e-40);
    let a = na * mu * mu * d * g / (m * e0 * kb * t);
    let b = na * al * d / (3.0 * m * e0);
    (1.0 + a + 5.0 * b + (9.0 + 2.0 * a + 18.0 * b + a * a + 10.0 * a * b + 9.0 * b * b).sqrt()) / (4.0 * (1.0 - b))
}
