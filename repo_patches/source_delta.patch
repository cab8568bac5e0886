From 89aae249de442e3e8bda5bdf6b8285771550374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 01/35] fix: region 3 (p,T)->v used sub-regions u and x in
 place of c and k for psat(643.15 K) < p <= 22.5 MPa

---
 src/r3/region3_v_pT.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r3/region3_v_pT.rs b/src/r3/region3_v_pT.rs
index c952942..bd56188 100644
--- a/src/r3/region3_v_pT.rs
+++ b/src/r3/region3_v_pT.rs
@@ -285,6 +285,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T <= tBcd {
                 subRegion = 'c';
+                return subRegion;
             } else if T <= tBqu {
                 subRegion = 'q';
                 return subRegion;
@@ -297,6 +298,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T > tBjk {
                 subRegion = 'k';
+                return subRegion;
             }
 
             // tBqu < T <= tBrx
-- 
2.43.0


From 4a3e0261b93c38da849607c6a5794d3f33235974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 02/35] fix: region 3 sub-region l dropped the last of its 43
 terms

---
 src/r3/region3_v_subregion_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_v_subregion_pT.rs b/src/r3/region3_v_subregion_pT.rs
index bc7117f..f0be9fc 100644
--- a/src/r3/region3_v_subregion_pT.rs
+++ b/src/r3/region3_v_subregion_pT.rs
@@ -561,7 +561,7 @@ pub fn pT2v_3l(p: f64, T: f64) -> f64 {
     #[rustfmt::skip]
     let d:para = para {PS: 24.0,  TS: 650.0,   VS: 0.0026,
                         a: 0.908,  b: 0.989,    c: 1.0,    d: 1.0,  e: 4.0, };
-    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 42)];
+    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 43)];
     pT2v_sum_steps(p, T, &IJn, d, &steps)
 }
 
-- 
2.43.0


From 912681541bcf1fa10fae2e1420181664f3df472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 03/35] fix: Prandtl number used 1/T as density in regions 1, 2
 and 5

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 90bad88..af7d846 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -95,7 +95,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
                 prandtl_number(dv, cp, tc)
             }
             _ => {
-                let d = 1.0 / v2;
+                let d = fn_thermal(v1, v2, OD);
                 let dv: f64 = viscosity(d, v2);
                 let cp: f64 = fn_thermal(v1, v2, OCP);
                 let tc: f64 = thcond(d, v2);
-- 
2.43.0


From 55944c0877bd5917c338b10fd04a7a52363ba782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 04/35] fix: kinematic viscosity was viscosity times density in
 region 3

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index af7d846..3919268 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -51,7 +51,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
         },
         OKV => match pair {
             // d,T
-            PAIRS::Td => v2 * viscosity(v2, v1),
+            PAIRS::Td => viscosity(v2, v1) / v2,
             _ => {
                 let d = fn_thermal(v1, v2, OD);
                 viscosity(d, v2) / d
-- 
2.43.0


From 735786890af49ec0fd497b398991211b3472b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 05/35] fix: region 3 exergy misplaced a parenthesis

---
 src/r3/region3_Td_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index f517f89..69b4178 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -126,7 +126,7 @@ pub fn Td2e_reg3(T: f64, d: f64) -> f64 {
     let phi = phi_reg3(delta, tau);
     let phidelta = phi_delta_reg3(delta, tau);
     let phitau = phi_tau_reg3(delta, tau);
-    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * tau * (phitau - phi))
+    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * (tau * phitau - phi))
 }
 
 /// z: Compressibility factor  
-- 
2.43.0


From 5a169d02d81fd9d89b4757908662d741dff08de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 06/35] fix: region 5 isochoric heat capacity divided the
 isobaric part too

---
 src/r5/region5_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r5/region5_pT.rs b/src/r5/region5_pT.rs
index 5239a98..68d6544 100644
--- a/src/r5/region5_pT.rs
+++ b/src/r5/region5_pT.rs
@@ -54,7 +54,7 @@ pub fn pT2cv_reg5(p: f64, T: f64) -> f64 {
     let a: f64 = -tau * tau * (gamma0_tautau_reg5(tau) + gammar_tautau);
     let b: f64 = 1.0 + pi * gammar_pi - tau * pi * gammar_pitau;
     let c: f64 = 1.0 - pi * pi * gammar_pipi;
-    RGAS_WATER * (a - b * b) / c
+    RGAS_WATER * (a - b * b / c)
 }
 
 pub fn pT2w_reg5(p: f64, T: f64) -> f64 {
-- 
2.43.0


From 2d721ca5a4e1f778b5285150e190854c720cc0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 07/35] fix: isothermal throttling coefficient was 1000 times
 too small for its unit kJ/(kg.MPa)

---
 src/r1/region1_pT_ext.rs | 2 +-
 src/r2/region2_pT_ext.rs | 2 +-
 src/r3/region3_Td_ext.rs | 2 +-
 src/r5/region5_pT_ext.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r1/region1_pT_ext.rs b/src/r1/region1_pT_ext.rs
index 63c11ce..ee58d5d 100644
--- a/src/r1/region1_pT_ext.rs
+++ b/src/r1/region1_pT_ext.rs
@@ -113,7 +113,7 @@ pub fn pT2joule_reg1(p: f64, T: f64) -> f64 {
 pub fn pT2iJTC_reg1(p: f64, T: f64) -> f64 {
     let tau: f64 = r1Tstar / T;
     let pi: f64 = p / r1pstar;
-    0.001 * RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
+    RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
 }
 
 /// dvdp Partial derivative (dV/dP)T  m3/(kg·MPa)
diff --git a/src/r2/region2_pT_ext.rs b/src/r2/region2_pT_ext.rs
index 9a45949..3b4ff74 100644
--- a/src/r2/region2_pT_ext.rs
+++ b/src/r2/region2_pT_ext.rs
@@ -110,7 +110,7 @@ pub fn pT2iJTC_reg2(p: f64, T: f64) -> f64 {
     let tau: f64 = r2Tstar / T;
     let pi: f64 = p;
     let gummapitau = gamma0_pitau_reg2() + gammar_pitau_reg2(pi, tau);
-    0.001 * RGAS_WATER * r2Tstar * gummapitau
+    RGAS_WATER * r2Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index 69b4178..6f50c04 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -102,7 +102,7 @@ pub fn Td2joule_reg3(T: f64, d: f64) -> f64 {
 ///  iJTC Isothermal Joule-Thomson coefficient kJ/(kg·MPa)
 /// *  (dh/dp)t
 pub fn Td2iJTC_reg3(T: f64, d: f64) -> f64 {
-    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d) / 1000.0
+    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d)
 }
 
 ///  (dp/dT)v
diff --git a/src/r5/region5_pT_ext.rs b/src/r5/region5_pT_ext.rs
index 14574fa..a36e389 100644
--- a/src/r5/region5_pT_ext.rs
+++ b/src/r5/region5_pT_ext.rs
@@ -102,7 +102,7 @@ pub fn pT2iJTC_reg5(p: f64, T: f64) -> f64 {
     let tau: f64 = r5Tstar / T;
     let pi: f64 = p / r5Pstar;
     let gummapitau = gamma0_pitau_reg5() + gammar_pitau_reg5(pi, tau);
-    0.001 * RGAS_WATER * r5Tstar * gummapitau
+    RGAS_WATER * r5Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
-- 
2.43.0


From c28b782365303114813e0703b5ee363cf8a52e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 08/35] fix: fugacity coefficient in regions 1 and 3 ignored
 the ideal-gas reference (g0)

---
 src/r1/region1_pT_ext.rs | 7 +++++--
 src/r2/mod.rs            | 2 +-
 src/r3/region3_Td_ext.rs | 8 ++++++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/r1/region1_pT_ext.rs b/src/r1/region1_pT_ext.rs
index ee58d5d..7c76f11 100644
--- a/src/r1/region1_pT_ext.rs
+++ b/src/r1/region1_pT_ext.rs
@@ -25,6 +25,8 @@ use crate::algo::*;
 use crate::common::*;
 use crate::r1::region1_gfe::*;
 use crate::r1::region1_pT::*;
+use crate::r2::region2_gfe::gamma0_reg2;
+use crate::r2::region2_pT::{r2Tstar, r2pstar};
 
 /// Region1: the extended properties
 pub fn pT_ext_reg1(p: f64, T: f64, o_id: i32) -> f64 {
@@ -170,10 +172,11 @@ pub fn pT2batap_reg1(p: f64, T: f64) -> f64 {
 }
 
 ///fi Fugacity coefficient  
-/// *  fi = exp(g/ R /T)
+/// *  fi = exp((g-g0)/ R /T), g0: ideal-gas part
 pub fn pT2fi_reg1(p: f64, T: f64) -> f64 {
     let g: f64 = pT2g_reg1(p, T);
-    (g / RGAS_WATER / T).exp()
+    let g0: f64 = RGAS_WATER * T * gamma0_reg2(p / r2pstar, r2Tstar / T);
+    ((g - g0) / RGAS_WATER / T).exp()
 }
 
 ///  fu: Fugacity  MPa
diff --git a/src/r2/mod.rs b/src/r2/mod.rs
index 660c98a..e5b735e 100644
--- a/src/r2/mod.rs
+++ b/src/r2/mod.rs
@@ -2,7 +2,7 @@
 pub mod region2;
 mod region2_T_ph;
 pub mod region2_T_ps;
-mod region2_gfe;
+pub(crate) mod region2_gfe;
 pub mod region2_pT;
 pub mod region2_pT_ext;
 pub mod region2_p_hs;
diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index 6f50c04..8792c06 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -4,6 +4,8 @@
 
 use crate::algo::*;
 use crate::common::*;
+use crate::r2::region2_gfe::gamma0_reg2;
+use crate::r2::region2_pT::{r2Tstar, r2pstar};
 use crate::r3::region3_hfe::*;
 use crate::r3::*;
 
@@ -156,10 +158,12 @@ pub fn Td2batap_reg3(T: f64, d: f64) -> f64 {
 }
 
 /// fi Fugacity coefficient  
-///  *  fi = exp(g/ R /T)
+///  *  fi = exp((g-g0)/ R /T), g0: ideal-gas part
 pub fn Td2fi_reg3(T: f64, d: f64) -> f64 {
     let g: f64 = Td2g_reg3(T, d);
-    (g / RGAS_WATER / T).exp()
+    let p: f64 = Td2p_reg3(T, d);
+    let g0: f64 = RGAS_WATER * T * gamma0_reg2(p / r2pstar, r2Tstar / T);
+    ((g - g0) / RGAS_WATER / T).exp()
 }
 
 ///  fu: Fugacity  MPa
-- 
2.43.0


From 6b8a38a67093bb74a14438ca92f8b7f4a65d25a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 09/35] fix: density of wet steam is the reciprocal of the
 mixed volume, not the mixed density

---
 src/r4/region4_pTx.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/r4/region4_pTx.rs b/src/r4/region4_pTx.rs
index 394e318..0f099b8 100644
--- a/src/r4/region4_pTx.rs
+++ b/src/r4/region4_pTx.rs
@@ -177,7 +177,8 @@ pub fn px_reg4(p: f64, x: f64, o_id: i32) -> f64 {
     let T: f64 = T_saturation(p);
     match o_id {
         OT => return T-273.15,
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / px_reg4(p, x, OV),
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
@@ -210,7 +211,8 @@ pub fn Tx_reg4(T: f64, x: f64, o_id: i32) -> f64 {
     }
     let mut r: f64 = 0.0;
     match o_id {
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / Tx_reg4(T, x, OV),
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
-- 
2.43.0


From 30d8163b51bc1f0229c73203f173923fdb7d805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 10/35] fix: pt of the cdecl binding was exported with the
 stdcall ABI (cdecl did not build on 64-bit)

---
 src/cdecl_c_if97.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index 7911aac..f949f78 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -10,7 +10,7 @@ use crate::r5::*;
 
 /// double pt(double p,double t,short o_id)- the propertry of `o_id` (thermodynamic,transport,etc)  
 #[no_mangle]
-pub unsafe extern "stdcall" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
+pub unsafe extern "C" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
     let T: f64 = t + 273.15;
     let reg: i32 = REGION_NONE;
     match o_id {
-- 
2.43.0


From d13119a6a93b44912b7c650ddc67e5fc47d185f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 11/35] fix: (h,s) of wet steam with s < s''(623.15 K) diverged
 to error codes instead of finding the saturation state

---
 src/r4/region4_T_hs.rs | 77 +++++++-----------------------------------
 1 file changed, 12 insertions(+), 65 deletions(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 3bd9c87..e734f35 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -13,10 +13,8 @@ use crate::r2::region2_pT::*;
 use crate::r3::*;
 use crate::r4::*;
 
-const s4L_623: f64 = 3.778281340; // T=623.16 ，Sature Liquid s
 const s4V_623: f64 = 5.210887825; // T=623.16 ，Sature steam   s
 const h4V_623: f64 = 2.5635920043e+03; // Page 25  Sature steam   h
-const s4L_273: f64 = -1.545495919e-04; // T=273.15 ，Sature Liquid s
 const s4V_273: f64 = 9.155759395; // T=273.15 ，Sature steam s
 
 ///  Page30  5.3 Backward Functions Tsat(h,s),
@@ -76,73 +74,22 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     };
 
     //The if97 function hs2Treg43 is only valid for part of region4. Use iteration outsida.
-    let mut p_Low_Bound: f64 = 0.0;
-    let mut p_High_Bound: f64 = 0.0;
-    let mut PL: f64 = 0.0;
-    let mut Tsat: f64 = 0.0;
-
-    if s > s4L_273 && s <= s4L_623 {
-        p_Low_Bound = P_MIN;
-        p_High_Bound = Ps_623;
-
-        let mut hL: f64 = -1000.0;
-        while (hL - h).abs() > 1.0e-04 && (p_High_Bound - p_Low_Bound).abs() > 1.0e-4 {
-            PL = 0.5 * (p_Low_Bound + p_High_Bound);
-            Tsat = T_saturation(PL);
-            hL = pT2h_reg1(PL, Tsat);
-            if hL > h {
-                p_High_Bound = PL;
-            } else {
-                p_Low_Bound = PL;
-            }
-        }
-    };
-
-    if s > s4L_623 && s <= SC_WATER {
-        PL = h2p_sat_reg3(h); // liquid , boundaries
-        p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
-    }
-    if s > SC_WATER && s <= s4V_623 {
-        PL = h2p_sat_reg3(h); // steam,boundaries
-        p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
-    }
-
-    let mut sss: f64 = -1000.0;
-    let mut p: f64 = 0.0;
-    let mut xs: f64;
-    let mut s4v: f64;
-    let mut s4L: f64;
-    let mut v4v: f64;
-    let mut v4L: f64;
-
-    while (s - sss).abs() > 1.0e-6 {
-        p = 0.5 * (p_Low_Bound + p_High_Bound);
-
-        Tsat = T_saturation(p);
-        xs = ph_reg4(p, h, OX); // region4_phps
-
-        if p < Ps_623 {
-            s4v = pT2s_reg2(p, Tsat);
-            s4L = pT2s_reg1(p, Tsat);
-        } else {
-            v4v = ph_reg3(p, p2sat_steam(p, OH), OV);
-            s4v = Td2s_reg3(Tsat, 1.0 / v4v);
-            v4L = ph_reg3(p, p2sat_water(p, OH), OV);
-            s4L = Td2s_reg3(Tsat, 1.0 / v4L);
-        };
-
-        sss = xs * s4v + (1.0 - xs) * s4L;
-
-        if sss < s {
+    // At constant h the entropy of the mixture falls with rising pressure: bisection on p
+    let mut p_Low_Bound: f64 = P_MIN4;
+    let mut p_High_Bound: f64 = P_MAX4;
+    let mut p: f64 = 0.5 * (p_Low_Bound + p_High_Bound);
+    while p > p_Low_Bound && p < p_High_Bound {
+        let hL: f64 = p2sat_water(p, OH);
+        let x: f64 = (h - hL) / (p2sat_steam(p, OH) - hL);
+        let sL: f64 = p2sat_water(p, OS);
+        let sss: f64 = sL + x * (p2sat_steam(p, OS) - sL);
+        if hL > h || sss < s {
             p_High_Bound = p;
-            p_Low_Bound = (1.0 + (sss - s) / s) * p;
         } else {
             p_Low_Bound = p;
-            p_High_Bound = (1.0 + (sss - s) / s) * p;
         }
-    } // end of while  ( abs(s - sss).abd() > 1.0e-6)
+        p = 0.5 * (p_Low_Bound + p_High_Bound);
+    }
 
     T_saturation(p)
 }
-- 
2.43.0


From d863d1b33e29951193909b663d6c51dc8b8a7331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 12/35] fix: (t,v), (t,h) and (t,s) rejected every state of
 region 2 above 863.15 K

---
 src/common/region.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/region.rs b/src/common/region.rs
index 3ca9e72..4a68c36 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -536,6 +536,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (v > vss) && (v < vpmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (v >= vB23) && (v < vpmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (v >= vp100) && (v < vpmax2))
     {
         return 2;
     };
@@ -579,6 +580,8 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         hp100 = pT2h_reg1(100.0, T);
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         hp100 = pt_reg3(100.0, T - 273.15, OH);
+    } else if (T > T_MAX3) && (T <= T_MAX2) {
+        hp100 = pT2h_reg2(100.0, T);
     }
 
     let mut hsw: f64 = 0.0;
@@ -637,6 +640,9 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     if (T > T_MAX1) && (T <= T_MAX3) && (h >= hB23) && (h < hpmax2) {
         return 2;
     };
+    if (T > T_MAX3) && (T <= T_MAX2) && (h >= hp100) && (h < hpmax2) {
+        return 2;
+    };
     if (T > T_MIN3) && (T <= TC_WATER) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
         || ((T > TC_WATER) && (T <= T_MAX3) && (h >= hp100) && (h < hB23))
     {
@@ -715,6 +721,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (s > sss) && (s < spmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (s >= sB23) && (s < spmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (s >= sp100) && (s < spmax2))
     {
         return 2;
     };
-- 
2.43.0


From 41cb1b2fe2cad035a8bc44c8340cd5c4986858b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 13/35] fix: (p,v) in region 1 returned wrong temperatures and
 rejected water at its maximum density

---
 src/algo/root.rs           |  20 +++++++
 src/common/region.rs       |   7 ++-
 src/r1/region1_pair_ext.rs | 109 ++++++++-----------------------------
 3 files changed, 46 insertions(+), 90 deletions(-)

diff --git a/src/algo/root.rs b/src/algo/root.rs
index af761fc..faadceb 100644
--- a/src/algo/root.rs
+++ b/src/algo/root.rs
@@ -93,3 +93,23 @@ pub fn rtsec2(
     }
     return rts;
 }
+
+/// bisect : the root of the monotone function fun(x) between x1 and x2,
+/// the nearest end of the bracket if there is no root in it
+pub fn bisect<F: Fn(f64) -> f64>(fun: F, mut x1: f64, mut x2: f64) -> f64 {
+    let rising: bool = fun(x2) > fun(x1);
+    let mut x: f64 = 0.5 * (x1 + x2);
+    while x > x1 && x < x2 {
+        if (fun(x) > 0.0) == rising {
+            x2 = x;
+        } else {
+            x1 = x;
+        }
+        x = 0.5 * (x1 + x2);
+    }
+    if fun(x1).abs() <= fun(x2).abs() {
+        x1
+    } else {
+        x2
+    }
+}
diff --git a/src/common/region.rs b/src/common/region.rs
index 4a68c36..d830df4 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -8,6 +8,7 @@ use crate::common::propertry_id::*;
 
 use crate::r1::region1_T_phps::*;
 use crate::r1::region1_pT::*;
+use crate::r1::region1_pair_ext::p2vmin_reg1;
 
 use crate::r2::region2_T_ps::*;
 use crate::r2::region2_pT::*;
@@ -429,7 +430,7 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
         return INVALID_VALUE;
     }
 
-    let vt273: f64 = pT2v_reg1(p, 273.15);
+    let vmin: f64 = p2vmin_reg1(p);
     let vt1073: f64 = pT2v_reg2(p, 1073.15);
     let mut vt2273: f64 = 0.0;
     if (p >= P_MIN5) && (p <= P_MAX5) {
@@ -456,8 +457,8 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
             vss = pT2v_sat_reg3(p, T1, 1.0);
         }
     }
-    if ((p >= P_MIN1) && (p <= P_MIN3)) && ((v >= vt273) && (v <= vsw))
-        || ((p > P_MIN3) && (p <= P_MAX1)) && ((v >= vt273) && (v <= vt623))
+    if ((p >= P_MIN1) && (p <= P_MIN3)) && ((v >= vmin) && (v <= vsw))
+        || ((p > P_MIN3) && (p <= P_MAX1)) && ((v >= vmin) && (v <= vt623))
     {
         return 1;
     };
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 8eca994..83d4855 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -3,100 +3,35 @@
 use crate::algo::root::*;
 use crate::common::constant::*;
 use crate::r1::region1_pT::*;
+use crate::r1::region1_pT_ext::*;
 use crate::r4::region4_sat_pT::*;
 
-/// Region 1  (p,v)->T using the secant method and refine adjust
-/// * p: pressure  MPa
-//  * v: specific volume m^3/kg
-/// * T: temperature  K
-pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
-    let mut T1: f64 = T_MIN1;
-    let mut v1: f64 = pT2v_reg1(p, T1);
-    let mut f1: f64 = v - pT2v_reg1(p, T1);
-
-    let mut T2: f64 = T_MAX1;
-    if (p >= 16.5291643) && (p <= 100.0) {
-        T2 = T_MAX1;
+/// Region 1: the maximum temperature on the isobar p
+fn p2Tmax_reg1(p: f64) -> f64 {
+    if p < P_MIN3 {
+        T_saturation(p)
     } else {
-        T2 = T_saturation(p);
-    };
-    let mut v2: f64 = pT2v_reg1(p, T2);
-    let mut f: f64 = v - v2;
-    if (v2 - v1) != 0.0 {
-        T2 = T1 + (T2 - T1) * (v - v1) / (v2 - v1);
-    }
-    v2 = pT2v_reg1(p, T2);
-    f = v - v2;
-    if f > 0.0 {
-        T2 = T_MAX1;
-        v2 = pT2v_reg1(p, T2);
-        f = v - v2;
+        T_MAX1
     }
-    let mut T: f64 = rtsec2(pT2v_reg1, p, v, T1, T2, f1, f, 1.0e-3, 100);
+}
 
-    let mut r_error = 0.0; //relative error
-    r_error = (v - pT2v_reg1(p, T)) / v;
-    if T >= T_MIN1 && T <= T_MAX1 && r_error.abs() < 1.0e-8 {
-        return T;
-    };
-    if T < T_MIN1 {
-        T = T_MIN1;
-    };
-    if T > T_MAX1 {
-        T = T_MAX1;
-    }
+/// Region 1: the temperature of the maximum density on the isobar p
+/// *  below about 30 MPa the volume of cold water falls with T first
+fn p2Tvmin_reg1(p: f64) -> f64 {
+    bisect(|T| pT2ec_reg1(p, T), T_MIN1, p2Tmax_reg1(p).min(T_MIN1 + 5.0))
+}
 
-    // Region 1 : the diff volume is the very small when the diff T is large
-    // so, we need to adjust the T
-    let V_ESPION: f64 = 1.0e-8;
-    let MAX_STEPS: i32 = 1000000;
-    f = v - pT2v_reg1(p, T);
-    r_error = f / v;
-    let mut success: bool = false;
-    let mut steps: i32 = 0;
-    if r_error > 0.0
-    // T^ -> V^, the  v of T is samller than the real value,T is  small
-    {
-        while !success {
-            T += 0.01; //the T is smaller than the real value, so  +T
-            if T > T_MAX1 {
-                return T;
-            };
-            f = v - pT2v_reg1(p, T);
-            r_error = f / v;
-            if r_error.abs() < V_ESPION {
-                return T;
-            } else {
-                steps += 1;
-                if steps > MAX_STEPS {
-                    success = true;
-                }
-            }
-        }
-    }
+/// Region 1: the minimum specific volume on the isobar p
+pub fn p2vmin_reg1(p: f64) -> f64 {
+    pT2v_reg1(p, p2Tvmin_reg1(p))
+}
 
-    if r_error < 0.0
-    // T^ -> V^, the  v of T is biggerr than the real value,T is  bigger
-    {
-        success = false;
-        steps = 0;
-        while !success {
-            T -= 0.001; //the T is biggerr than the real value,so  -T
-            if T < T_MIN1 {
-                return T_MIN1;
-            };
-            r_error = (v - pT2v_reg1(p, T)) / v;
-            if r_error.abs() < V_ESPION {
-                return T;
-            } else {
-                steps += 1;
-                if steps > MAX_STEPS {
-                    success = true;
-                }
-            };
-        }
-    };
-    INVALID_VALUE as f64
+/// Region 1  (p,v)->T using the bisection method
+/// * p: pressure  MPa
+//  * v: specific volume m^3/kg
+/// * T: temperature  K
+pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
+    bisect(|T| pT2v_reg1(p, T) - v, p2Tvmin_reg1(p), p2Tmax_reg1(p))
 }
 
 /// Region 1  (T,v)->p using the secant method
-- 
2.43.0


From cb72c2ace92b434089c6e5db8880f63f4b198e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 14/35] fix: (t,h) rejected compressed water above 523 K with h
 below saturation, where enthalpy first falls with pressure

---
 src/algo/root.rs           |  7 +++----
 src/common/region.rs       | 30 ++++-------------------------
 src/r1/region1_pair_ext.rs | 39 +++++++++++++++++---------------------
 3 files changed, 24 insertions(+), 52 deletions(-)

diff --git a/src/algo/root.rs b/src/algo/root.rs
index faadceb..1ec625e 100644
--- a/src/algo/root.rs
+++ b/src/algo/root.rs
@@ -94,13 +94,12 @@ pub fn rtsec2(
     return rts;
 }
 
-/// bisect : the root of the monotone function fun(x) between x1 and x2,
-/// the nearest end of the bracket if there is no root in it
+/// bisect : the point between x1 and x2 where fun(x) turns from negative to positive,
+/// x1 if it is positive and x2 if it is negative on all of the interval
 pub fn bisect<F: Fn(f64) -> f64>(fun: F, mut x1: f64, mut x2: f64) -> f64 {
-    let rising: bool = fun(x2) > fun(x1);
     let mut x: f64 = 0.5 * (x1 + x2);
     while x > x1 && x < x2 {
-        if (fun(x) > 0.0) == rising {
+        if fun(x) > 0.0 {
             x2 = x;
         } else {
             x1 = x;
diff --git a/src/common/region.rs b/src/common/region.rs
index d830df4..edf0f19 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -8,7 +8,7 @@ use crate::common::propertry_id::*;
 
 use crate::r1::region1_T_phps::*;
 use crate::r1::region1_pT::*;
-use crate::r1::region1_pair_ext::p2vmin_reg1;
+use crate::r1::region1_pair_ext::{p2vmin_reg1, T2hmin_reg1};
 
 use crate::r2::region2_T_ps::*;
 use crate::r2::region2_pT::*;
@@ -609,31 +609,9 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         return 1;
     }
     //  if p>Ps, p^, h--, Hmin,p^,h++, h<hsat_water(T)
-    if (T >= (250.0 + 273.15)) && (T <= T_MAX1) && (h < hsw) && (h <= hp100) {
-        let mut Hmin: f64 = hsw;
-        let mut p11: f64 = p1 + 0.1;
-        let mut Hmid: f64 = pT2h_reg1(p11, T);
-        if Hmid < Hmin {
-            let mut HminFounded: bool = false;
-
-            while !HminFounded {
-                p11 += 0.1;
-                Hmid = pT2h_reg1(p11, T);
-                if Hmid < Hmin {
-                    Hmin = Hmid;
-                } else {
-                    HminFounded = true;
-                }
-            }
-            if h >= Hmin {
-                return 1;
-            } else {
-                return INVALID_VALUE;
-            };
-        } else {
-            return INVALID_VALUE;
-        }
-    };
+    if (T >= T_MIN1) && (T <= T_MAX1) && (h < hsw) && (h >= T2hmin_reg1(T)) {
+        return 1;
+    }
 
     if (T >= T_MIN2) && (T <= T_MAX1) && (h > hss) && (h < hpmax2) {
         return 2;
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 83d4855..3b2ea57 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -47,34 +47,29 @@ pub fn Tv2p_reg1(T: f64, v: f64) -> f64 {
     return p;
 }
 
-/// Region 1  (T,h)->p using the secant method
+/// Region 1: the pressure of the minimum enthalpy on the isotherm T
+/// *  above about 520 K the enthalpy of water falls with p first
+fn T2phmin_reg1(T: f64) -> f64 {
+    bisect(|p| pT2iJTC_reg1(p, T), p_saturation(T), P_MAX1)
+}
+
+/// Region 1: the minimum enthalpy on the isotherm T
+pub fn T2hmin_reg1(T: f64) -> f64 {
+    pT2h_reg1(T2phmin_reg1(T), T)
+}
+
+/// Region 1  (T,h)->p using the bisection method
 ///  *  T: temperature  K
 ///  *  h: specific enthalpy kJ/kg
 ///  *  p: pressure  MPa
 pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
     let pmin1: f64 = p_saturation(T);
-    let mut p1: f64 = pmin1;
-    let mut p2: f64 = P_MAX1; // p1 + stepa
-    let mut h1 = pT2h_reg1(p1, T);
-    if (h - h1).abs() < ESP {
-        return p1;
-    };
-    let mut h2: f64 = pT2h_reg1(p2, T);
-    if (h - h2).abs() < ESP {
-        return p2;
-    }
-
-    let f1: f64 = h - pT2h_reg1(p1, T);
-    let f: f64 = h - pT2h_reg1(p2, T);
-    let mut p: f64 = rtsec1(pT2h_reg1, T, h, p1, p2, f1, f, ESP, I_MAX);
-
-    if p > P_MAX1 {
-        p = P_MAX1;
-    }
-    if p < pmin1 {
-        p = pmin1;
+    let phmin: f64 = T2phmin_reg1(T);
+    if h < pT2h_reg1(pmin1, T) {
+        bisect(|p| h - pT2h_reg1(p, T), pmin1, phmin)
+    } else {
+        bisect(|p| pT2h_reg1(p, T) - h, phmin, P_MAX1)
     }
-    p
 }
 
 /// Region 1  (T,s)->p using the secant method
-- 
2.43.0


From 6e067c9ce1e00b73716893a6aa48c7649ed5b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 15/35] fix: (t,s) of cold water near its density maximum
 stopped away from the solution in region 1

---
 src/r1/region1_pair_ext.rs | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 3b2ea57..3770ef9 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -72,32 +72,10 @@ pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
     }
 }
 
-/// Region 1  (T,s)->p using the secant method
+/// Region 1  (T,s)->p using the bisection method
 ///  * T: temperature  K
 ///  * s: specific entropy  kJ/(kg K)
 ///  * p: pressure  MPa
 pub fn Ts2p_reg1(T: f64, s: f64) -> f64 {
-    let pmin1: f64 = p_saturation(T);
-    let mut p1: f64 = pmin1; //
-    let mut s1: f64 = pT2s_reg1(p1, T);
-    let mut f1: f64 = s - s1;
-    let p2: f64 = P_MAX1;
-    let s2: f64 = pT2s_reg1(p2, T);
-    let f2: f64 = s - s2;
-    p1 = p2 - (p2 - p1) * (s - s2) / (s1 - s2);
-    if p1 < pmin1 {
-        p1 = pmin1;
-    }
-    s1 = pT2s_reg1(p1, T);
-    f1 = s - s1;
-    if f1.abs() < ESP {
-        return p1;
-    }
-    let mut p: f64 = rtsec1(pT2s_reg1, T, s, p1, p2, f1, f2, ESP, I_MAX);
-    if p > P_MAX1 {
-        p = P_MAX1;
-    } else if p < pmin1 {
-        p = pmin1;
-    }
-    p
+    bisect(|p| s - pT2s_reg1(p, T), p_saturation(T), P_MAX1)
 }
-- 
2.43.0


From 5e22c3e603dcd8ae44603936c1a22ba400152449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 16/35] fix: (t,v) diverged to the lowest pressure for part of
 region 5

---
 src/r5/region5_pair_ext.rs | 58 ++------------------------------------
 1 file changed, 2 insertions(+), 56 deletions(-)

diff --git a/src/r5/region5_pair_ext.rs b/src/r5/region5_pair_ext.rs
index faec665..feb6afe 100644
--- a/src/r5/region5_pair_ext.rs
+++ b/src/r5/region5_pair_ext.rs
@@ -28,63 +28,9 @@ pub fn pv2T_reg5(p: f64, v: f64) -> f64 {
     T
 }
 
-/// Region 5: (T,v)-> p
+/// Region 5: (T,v)-> p using the bisection method
 pub fn Tv2p_reg5(T: f64, v: f64) -> f64 {
-    let mut p1: f64 = P_MIN5;
-    let mut v1: f64 = pT2v_reg5(p1, T);
-    if v == v1 {
-        return p1;
-    }
-
-    let mut p2: f64 = 10.0 * p1;
-    if p2 > P_MAX5 {
-        p2 = P_MAX5;
-    };
-
-    let mut v2: f64 = pT2v_reg5(p2, T);
-    if v == v2 {
-        return p2;
-    }
-
-    let mut vbounded: bool = false;
-    if (v > v2) && (v < v1) {
-        vbounded = true;
-    }
-
-    while !vbounded {
-        p1 = p2;
-        v1 = v2;
-        p2 = 5.0 * p1;
-        if p2 >= P_MAX5 {
-            p2 = P_MAX5;
-            vbounded = true;
-        }
-        v2 = pT2v_reg5(p2, T);
-        if v == v2 {
-            return p2;
-        }
-        if (v > v2) && (v < v1) {
-            vbounded = true;
-        }
-    }
-
-    let mut f2: f64 = v - v2;
-    p1 = p2 - (p2 - p1) * (v - v2) / (v1 - v2);
-    if p1 < P_MIN5 {
-        p1 = P_MIN5;
-    }
-    let f1: f64 = v - pT2v_reg5(p1, T);
-    if f1.abs() < ESP {
-        return p1;
-    };
-    let mut p: f64 = rtsec1(pT2v_reg5, T, v, p1, p2, f1, f2, ESP, I_MAX);
-    if p > P_MAX5 {
-        p = P_MAX5;
-    };
-    if p < P_MIN5 {
-        p = P_MIN5;
-    };
-    p
+    bisect(|p| v - pT2v_reg5(p, T), P_MIN5, P_MAX5)
 }
 
 /// Region 5: (T,h)-> p
-- 
2.43.0


From 0e9c1c53ff1858119c33c02d24d21fc10895ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 17/35] fix: (t,v) and (t,s) rejected the upper pressure limit
 of region 1

---
 src/common/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index edf0f19..90c439c 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -532,7 +532,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     };
 
     //
-    if (T >= T_MIN1) && (T <= T_MAX1) && (v < vsw) && (v > vp100) {
+    if (T >= T_MIN1) && (T <= T_MAX1) && (v < vsw) && (v >= vp100) {
         return 1;
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (v > vss) && (v < vpmax2))
@@ -695,7 +695,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
         };
     };
     //
-    if (T >= T_MIN1) && (T <= T_MAX1) && (s < ssw) && (s > sp100) {
+    if (T >= T_MIN1) && (T <= T_MAX1) && (s < ssw) && (s >= sp100) {
         return 1;
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (s > sss) && (s < spmax2))
-- 
2.43.0


From ba5f37777a9bc35b3f071788a903e1316500a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 18/35] fix: (h,x) and (s,x) missed the root or rejected valid
 wet steam where h or s is not monotone in T

---
 src/common/constant.rs |   8 ++--
 src/r4/region4.rs      | 106 +++++++++++++++++++++++++----------------
 2 files changed, 70 insertions(+), 44 deletions(-)

diff --git a/src/common/constant.rs b/src/common/constant.rs
index a4ec5f3..e83b99d 100644
--- a/src/common/constant.rs
+++ b/src/common/constant.rs
@@ -72,10 +72,10 @@ pub const T_MAX4: f64 = 647.096;
 pub const T_MIN4: f64 = 273.15;
 pub const P_MAX4: f64 = 22.064;
 pub const P_MIN4: f64 = 0.000611212677444;
-pub const H_MAX4: f64 = 2803.2738880203456;
-pub const H_MIN4: f64 = 0.38039218566765925;
-pub const S_MAX4: f64 = 9.153081306725117;
-pub const S_MIN4: f64 = 0.33567511183921145;
+pub const H_MAX4: f64 = 2803.29; // maximum of the saturated steam, about 234 C
+pub const H_MIN4: f64 = -0.0416; // saturated water, 273.15 K
+pub const S_MAX4: f64 = 9.15576; // saturated steam, 273.15 K
+pub const S_MIN4: f64 = -0.000155; // saturated water, 273.15 K
 
 /// Region5  boundary constants
 pub const T05: f64 = 1000.0;
diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 9fff503..0cdf544 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -3,6 +3,7 @@
 //! * (p,v),(t,v),(t,h),(t,s)
 //! * (h,x),(s,x)
 
+use crate::algo::root::bisect;
 use crate::common::constant::*;
 use crate::common::propertry_id::*;
 use crate::r3::*;
@@ -113,51 +114,75 @@ pub fn ts_reg4(t: f64, s: f64, o_id: i32) -> f64 {
     Tx_reg4(t + 273.15, x, o_id)
 }
 
-/// function for getting the steam quality,residuals: x(T,y)-x
-fn Ty2x_residuals(T: f64, x: f64, y: f64, y_id: i32) -> f64 {
-    let sw = T2sat_water(T, y_id);
-    let ss = T2sat_steam(T, y_id);
-    (y - sw) / (ss - sw) - x
+/// function for getting the property y of wet steam, residuals: y(T,x)-y
+fn Tx2y_residuals(T: f64, x: f64, y: f64, y_id: i32) -> f64 {
+    let sw: f64 = T2sat_water(T, y_id);
+    let ss: f64 = T2sat_steam(T, y_id);
+    sw + x * (ss - sw) - y
 }
 
-/// Bisection for the root : Ty2x_residuals(T,x, y, y_id)=0
-fn bisection_reg4(x: f64, y: f64, y_id: i32, mut Tl: f64, mut Tr: f64, tol: f64, maxiter: i32) -> f64 {
-    let mut T: f64 = 0.0;
-    let mut fl: f64 = Ty2x_residuals(Tl, x, y, y_id); // residual for left  bound
-    let mut fr: f64 = Ty2x_residuals(Tr, x, y, y_id); //resdiual for right bound
-    let mut f: f64 = 0.0;
-    let mut numIters: i32 = 0;
-
-    for i in 0..maxiter {
-        numIters += 1;
-        // get midpoint
-        T = 0.5 * (Tl + Tr);
-        // evaluate resdiual at midpoint
-        f = Ty2x_residuals(T, x, y, y_id);
-        //  check for convergence
-        if f.abs() < tol {
-            break;
-        };
-
-        // reset the bounds
-        if f * fl < 0.0 {
-            // move right bound info to mid
-            Tr = T;
-            fr = f;
-        } else {
-            // move left bound info to mid
-            Tl = T;
-            fl = f;
+/// Bisection for the root: Tx2y_residuals(T,x,y,y_id)=0 between Tl and Tr
+fn bisection_reg4(x: f64, y: f64, y_id: i32, Tl: f64, Tr: f64) -> f64 {
+    if Tx2y_residuals(Tl, x, y, y_id) < 0.0 {
+        bisect(|T| Tx2y_residuals(T, x, y, y_id), Tl, Tr)
+    } else {
+        bisect(|T| -Tx2y_residuals(T, x, y, y_id), Tl, Tr)
+    }
+}
+
+/// The lowest T of the root: Tx2y_residuals(T,x,y,y_id)=0
+/// * y is not monotone in T along a line of constant x, so the root must be bracketed first
+/// * INVALID_VALUE: there is no wet steam with y and x
+fn xy2T_reg4(x: f64, y: f64, y_id: i32) -> f64 {
+    const STEPS: i32 = 64;
+    let step: f64 = (T_MAX4 - T_MIN4) / STEPS as f64;
+    let mut Tl: f64 = T_MIN4;
+    let mut fl: f64 = Tx2y_residuals(Tl, x, y, y_id);
+    let mut f0: f64 = fl;
+    for i in 1..=STEPS {
+        let Tr: f64 = if i < STEPS { T_MIN4 + i as f64 * step } else { T_MAX4 };
+        let fr: f64 = Tx2y_residuals(Tr, x, y, y_id);
+        if fl * fr <= 0.0 {
+            return bisection_reg4(x, y, y_id, Tl, Tr);
         }
+        // the residual turns away from zero around Tl: two roots may lie close to its extremum
+        if i > 1 && fl.abs() <= f0.abs() && fl.abs() <= fr.abs() {
+            let mut Ta: f64 = Tl - step;
+            let mut Tb: f64 = Tr;
+            for _ in 0..100 {
+                let T1: f64 = Ta + (Tb - Ta) / 3.0;
+                let T2: f64 = Tb - (Tb - Ta) / 3.0;
+                let f1: f64 = Tx2y_residuals(T1, x, y, y_id);
+                let f2: f64 = Tx2y_residuals(T2, x, y, y_id);
+                if f1 * f0 <= 0.0 {
+                    return bisection_reg4(x, y, y_id, Tl - step, T1);
+                }
+                if f2 * f0 <= 0.0 {
+                    return bisection_reg4(x, y, y_id, Tl - step, T2);
+                }
+                if f1.abs() < f2.abs() {
+                    Tb = T2;
+                } else {
+                    Ta = T1;
+                }
+            }
+            if Tx2y_residuals(Ta, x, y, y_id).abs() < 1.0e-9 {
+                return Ta;
+            }
+        }
+        f0 = fl;
+        fl = fr;
+        Tl = Tr;
     }
-    T
+    INVALID_VALUE as f64
 }
 
 /// (h,x,o_id)
 pub fn hx_reg4(h: f64, x: f64, o_id: i32) -> f64 {
-    let mut Tl: f64 = T_MIN4;
-    let mut Tr: f64 = T_MAX4;
-    let T: f64 = bisection_reg4(x, h, OH, Tl, Tr, 0.00001, 1000);
+    let T: f64 = xy2T_reg4(x, h, OH);
+    if T == INVALID_VALUE as f64 {
+        return T;
+    };
     if o_id == OT {
         return T - 273.15;
     };
@@ -166,9 +191,10 @@ pub fn hx_reg4(h: f64, x: f64, o_id: i32) -> f64 {
 
 /// (s,x,o_id)
 pub fn sx_reg4(s: f64, x: f64, o_id: i32) -> f64 {
-    let mut Tl: f64 = T_MIN4;
-    let mut Tr: f64 = T_MAX4;
-    let T: f64 = bisection_reg4(x, s, OS, Tl, Tr, 0.00001, 1000);
+    let T: f64 = xy2T_reg4(x, s, OS);
+    if T == INVALID_VALUE as f64 {
+        return T;
+    };
     if o_id == OT {
         return T - 273.15;
     };
-- 
2.43.0


From 42de129c95a30941c133de33118cc547ba42c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 19/35] fix: (p,v) accepted any small volume as region 2 below
 the lowest saturation pressure

---
 src/common/region.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 90c439c..4c35653 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -443,7 +443,9 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     let mut vt623: f64 = 0.0;
     let mut vB23: f64 = 0.0;
 
-    if (p > 0.000611213) && (p <= P_MIN3) {
+    if p < P_MIN {
+        vss = pT2v_reg2(p, T_MIN2);
+    } else if p <= P_MIN3 {
         T1 = T_saturation(p);
         vsw = pT2v_reg1(p, T1);
         vss = pT2v_reg2(p, T1);
-- 
2.43.0


From 58bb236893a8a568c348d6d174a923b2d2f5c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 20/35] fix: pt on the saturation line answered every property
 with the number 4 instead of the invalid (p,t) code

---
 src/r4/region4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 0cdf544..25ea77b 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -22,7 +22,7 @@ pub fn pT_reg4(p: f64, T: f64, o_id: i32) -> f64 {
     if T == TC_WATER && p == PC_WATER {
         return Td_reg3(TC_WATER, DC_WATER, o_id);
     } else {
-        return 4.0 as f64;
+        return INVALID_PT as f64; // p and t do not determine the state
     }
 }
 
-- 
2.43.0


From f883a599a0fc512f3571a3794a47387cc8b690dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 21/35] fix: saturated volumes of region 3 switched equations
 at rounded instead of the IAPWS pressures

---
 src/r3/region3_v_pT.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/r3/region3_v_pT.rs b/src/r3/region3_v_pT.rs
index bd56188..1a453b4 100644
--- a/src/r3/region3_v_pT.rs
+++ b/src/r3/region3_v_pT.rs
@@ -154,13 +154,13 @@ pub fn pT2v_sat_reg3(p: f64, T: f64, x: f64) -> f64 {
     // set the region
     // force the region if density of saturated water is asked for
     if x == 0.0 {
-        if p < 19.0088 {
+        if p < 19.00881189173929 {
             subRegion = 'c';
         } else {
-            if p < 21.0434 {
+            if p < 21.04336732 {
                 subRegion = 's';
             } else {
-                if p < 21.9316 {
+                if p < 21.93161551 {
                     subRegion = 'u';
                 } else {
                     subRegion = 'y';
@@ -171,9 +171,9 @@ pub fn pT2v_sat_reg3(p: f64, T: f64, x: f64) -> f64 {
         if p < 20.5 {
             subRegion = 't';
         } else {
-            if p < 21.0434 {
+            if p < 21.04336732 {
                 subRegion = 'r';
-            } else if p < 21.9009 {
+            } else if p < 21.90096265 {
                 subRegion = 'x';
             } else {
                 subRegion = 'z';
-- 
2.43.0


From 8723c8dc1cf4b04fafda77a45ccdaf3d1de30581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:02 +0000
Subject: [PATCH 22/35] fix: (h,s) of wet steam at the lower end of the
 saturation line gave infinite volume and quality

---
 src/r4/region4.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 25ea77b..a5eb18e 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -49,7 +49,8 @@ pub fn ps_reg4(p: f64, s: f64, o_id: i32) -> f64 {
 
 pub fn hs_reg4(h: f64, s: f64, o_id: i32) -> f64 {
     // for T<623.15 only
-    let T: f64 = hs2T_reg4(h, s);
+    // the equation Tsat(h,s) may fall below the lower end of the saturation line by its tolerance
+    let T: f64 = hs2T_reg4(h, s).max(T_MIN4);
     if o_id == OT {
         return T - K;
     }
-- 
2.43.0


From c7ea139ad811158ffc29c96110e95a12ce541737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 23/35] fix: (h,x) and (s,x) missed two close roots within 5 K
 of the lower end of the line

---
 src/r4/region4.rs | 61 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index a5eb18e..a2e1e0a 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -131,6 +131,33 @@ fn bisection_reg4(x: f64, y: f64, y_id: i32, Tl: f64, Tr: f64) -> f64 {
     }
 }
 
+/// The root between Tl and Tr if the residual, with the same sign at both, touches zero in between
+fn turning_root_reg4(x: f64, y: f64, y_id: i32, Tl: f64, Tr: f64) -> Option<f64> {
+    let fl: f64 = Tx2y_residuals(Tl, x, y, y_id);
+    let (mut Ta, mut Tb) = (Tl, Tr);
+    for _ in 0..100 {
+        let T1: f64 = Ta + (Tb - Ta) / 3.0;
+        let T2: f64 = Tb - (Tb - Ta) / 3.0;
+        let f1: f64 = Tx2y_residuals(T1, x, y, y_id);
+        let f2: f64 = Tx2y_residuals(T2, x, y, y_id);
+        if f1 * fl <= 0.0 {
+            return Some(bisection_reg4(x, y, y_id, Tl, T1));
+        }
+        if f2 * fl <= 0.0 {
+            return Some(bisection_reg4(x, y, y_id, Tl, T2));
+        }
+        if f1.abs() < f2.abs() {
+            Tb = T2;
+        } else {
+            Ta = T1;
+        }
+    }
+    if Tx2y_residuals(Ta, x, y, y_id).abs() < 1.0e-9 {
+        return Some(Ta);
+    }
+    None
+}
+
 /// The lowest T of the root: Tx2y_residuals(T,x,y,y_id)=0
 /// * y is not monotone in T along a line of constant x, so the root must be bracketed first
 /// * INVALID_VALUE: there is no wet steam with y and x
@@ -143,32 +170,22 @@ fn xy2T_reg4(x: f64, y: f64, y_id: i32) -> f64 {
     for i in 1..=STEPS {
         let Tr: f64 = if i < STEPS { T_MIN4 + i as f64 * step } else { T_MAX4 };
         let fr: f64 = Tx2y_residuals(Tr, x, y, y_id);
+        // the residual may turn away from zero in the first step or around Tl: two roots lie close to its extremum
+        if i == 1
+            && fl * fr > 0.0
+            && Tx2y_residuals(Tl + 0.001, x, y, y_id).abs() < fl.abs()
+            && Tx2y_residuals(Tr - 0.001, x, y, y_id).abs() < fr.abs()
+        {
+            if let Some(T) = turning_root_reg4(x, y, y_id, Tl, Tr) {
+                return T;
+            }
+        }
         if fl * fr <= 0.0 {
             return bisection_reg4(x, y, y_id, Tl, Tr);
         }
-        // the residual turns away from zero around Tl: two roots may lie close to its extremum
         if i > 1 && fl.abs() <= f0.abs() && fl.abs() <= fr.abs() {
-            let mut Ta: f64 = Tl - step;
-            let mut Tb: f64 = Tr;
-            for _ in 0..100 {
-                let T1: f64 = Ta + (Tb - Ta) / 3.0;
-                let T2: f64 = Tb - (Tb - Ta) / 3.0;
-                let f1: f64 = Tx2y_residuals(T1, x, y, y_id);
-                let f2: f64 = Tx2y_residuals(T2, x, y, y_id);
-                if f1 * f0 <= 0.0 {
-                    return bisection_reg4(x, y, y_id, Tl - step, T1);
-                }
-                if f2 * f0 <= 0.0 {
-                    return bisection_reg4(x, y, y_id, Tl - step, T2);
-                }
-                if f1.abs() < f2.abs() {
-                    Tb = T2;
-                } else {
-                    Ta = T1;
-                }
-            }
-            if Tx2y_residuals(Ta, x, y, y_id).abs() < 1.0e-9 {
-                return Ta;
+            if let Some(T) = turning_root_reg4(x, y, y_id, Tl - step, Tr) {
+                return T;
             }
         }
         f0 = fl;
-- 
2.43.0


From 118a711a0f7c848d0c6859d6b1b2fa37b5cd8e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:14 +0000
Subject: [PATCH 24/35] fix: steam quality hid the error code of (p,t), and an
 unknown region argument was returned as the value

---
 src/common/propertry_pairs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 3919268..0bb1248 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -118,12 +118,15 @@ pub fn pair_properties(
     if o_id == OR {
         return sub_region as f64;
     };
+    if reg != REGION_NONE && !(1..=5).contains(&reg) {
+        return INVALID_VALUE as f64; // no such region
+    }
     if o_id == OX {
         match sub_region {
             1 => return 0.0,
             2 | 3 | 5 => return 1.0,
             4 => return f4(v1, v2, OX),
-            _ => return INVALID_VALUE as f64,
+            _ => return sub_region as f64, // the error code of the inputs
         }
     }
     match sub_region {
-- 
2.43.0


From 263f71853f68c60be2bfdfab3c54f4170674f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:05 +0000
Subject: [PATCH 25/35] fix: quality of wet steam left [0,1] by the boundary
 tolerance and was infinite at the critical temperature

---
 src/r4/region4.rs          |  6 +++---
 src/r4/region4_pair_ext.rs | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index a2e1e0a..fc331d7 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -29,7 +29,7 @@ pub fn pT_reg4(p: f64, T: f64, o_id: i32) -> f64 {
 pub fn ph_reg4(p: f64, h: f64, o_id: i32) -> f64 {
     let h1: f64 = p2sat_water(p, OH);
     let h2: f64 = p2sat_steam(p, OH);
-    let x: f64 = (h - h1) / (h2 - h1);
+    let x: f64 = y2x_reg4(h, h1, h2);
     if o_id == OX {
         return x;
     }
@@ -39,7 +39,7 @@ pub fn ph_reg4(p: f64, h: f64, o_id: i32) -> f64 {
 pub fn ps_reg4(p: f64, s: f64, o_id: i32) -> f64 {
     let s1: f64 = p2sat_water(p, OS);
     let s2: f64 = p2sat_steam(p, OS);
-    let x: f64 = (s - s1) / (s2 - s1);
+    let x: f64 = y2x_reg4(s, s1, s2);
     if o_id == OX {
         return x;
     }
@@ -62,7 +62,7 @@ pub fn hs_reg4(h: f64, s: f64, o_id: i32) -> f64 {
     let h1: f64 = p2sat_water(p, OH);
     let h2: f64 = p2sat_steam(p, OH);
 
-    let x: f64 = (h - h1) / (h2 - h1);
+    let x: f64 = y2x_reg4(h, h1, h2);
     if o_id == OX {
         return x;
     }
diff --git a/src/r4/region4_pair_ext.rs b/src/r4/region4_pair_ext.rs
index 0121b38..c2af9eb 100644
--- a/src/r4/region4_pair_ext.rs
+++ b/src/r4/region4_pair_ext.rs
@@ -6,30 +6,43 @@ use crate::common::propertry_id::*;
 
 use crate::r4::region4_pTx::*;
 
+/// Steam quality from the property y and its values of saturated water and steam.
+/// * y may lie outside of them by the tolerance of the region boundaries; they are equal at the critical point
+pub fn y2x_reg4(y: f64, y_sat_w: f64, y_sat_s: f64) -> f64 {
+    if y <= y_sat_w {
+        return 0.0;
+    }
+    let x: f64 = (y - y_sat_w) / (y_sat_s - y_sat_w);
+    if x > 1.0 {
+        return 1.0;
+    }
+    x
+}
+
 /// Region 4: (p,v)-> x
 pub fn pv2x_reg4(p: f64, v: f64) -> f64 {
     let v_sat_w: f64 = p2sat_water(p, OV);
     let v_sat_s: f64 = p2sat_steam(p, OV);
-    (v - v_sat_w) / (v_sat_s - v_sat_w)
+    y2x_reg4(v, v_sat_w, v_sat_s)
 }
 
 /// Region 4: (T,v)-> x
 pub fn Tv2x_reg4(T: f64, v: f64) -> f64 {
     let v_sat_w: f64 = T2sat_water(T, OV);
     let v_sat_s: f64 = T2sat_steam(T, OV);
-    (v - v_sat_w) / (v_sat_s - v_sat_w)
+    y2x_reg4(v, v_sat_w, v_sat_s)
 }
 
 /// Region 4: (T,h)-> x
 pub fn Th2x_reg4(T: f64, h: f64) -> f64 {
     let h_sat_w: f64 = T2sat_water(T, OH);
     let h_sat_s: f64 = T2sat_steam(T, OH);
-    (h - h_sat_w) / (h_sat_s - h_sat_w)
+    y2x_reg4(h, h_sat_w, h_sat_s)
 }
 
 /// Region 4: (T,s)-> x
 pub fn Ts2x_reg4(T: f64, s: f64) -> f64 {
     let s_sat_w: f64 = T2sat_water(T, OS);
     let s_sat_s: f64 = T2sat_steam(T, OS);
-    (s - s_sat_w) / (s_sat_s - s_sat_w)
+    y2x_reg4(s, s_sat_w, s_sat_s)
 }
-- 
2.43.0


From 080ba49277b73a84a024d554a71b0a3ef87aa909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 26/35] fix: (h,s) accepted states outside regions 2 and 5
 whose limited pressure or temperature does not give h and s

---
 src/common/region.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 4c35653..68a170e 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -267,7 +267,10 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         p = hs2p_reg5(h, s);
         T = ph2T_reg5(p, h);
         if 1073.15 < T && T <= 2273.15 && P_MIN <= p && p <= 50.0 {
-            return 5;
+            // p and T are limited to region 5: they must be the state of (h,s)
+            if (pT2h_reg5(p, T) - h).abs() < 1.0e-3 && (pT2s_reg5(p, T) - s).abs() < 1.0e-5 {
+                return 5;
+            }
         }
     };
     if smin <= s && s <= s13 {
@@ -389,7 +392,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if sTPmax <= s && s < s2ab {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2ab_s(s);
-        p = hs2p_reg2(h, s);
+        p = hs2p_reg2(h, s).min(P_MAX2);
         hmax = pT2h_reg2(p, 1073.15);
         if hmin <= h && h < hs {
             return 4;
@@ -402,7 +405,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if s2ab <= s && s < s4v {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2ab_s(s);
-        p = hs2p_reg2(h, s);
+        p = hs2p_reg2(h, s).min(P_MAX2);
         hmax = pT2h_reg2(p, 1073.15);
         if hmin <= h && h < hs {
             return 4;
-- 
2.43.0


From 619f63ccb481d0aebbb4bcfe6e6f5bf03f4f2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 27/35] fix: a NaN pressure, temperature or quality passed the
 range checks of px, tx, hx, sx

---
 src/rust_if97.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust_if97.rs b/src/rust_if97.rs
index 615e31b..4a76ded 100644
--- a/src/rust_if97.rs
+++ b/src/rust_if97.rs
@@ -181,7 +181,7 @@ where
 // #[no_mangle]
 // pub unsafe extern "C"  fn px(p: f64, x: f64, o_id: i32) -> f64 {
 pub fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(P_MIN4..=P_MAX4).contains(&p) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -211,7 +211,7 @@ pub fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T_MIN4..=T_MAX4).contains(&T) || !(0.0..=1.0).contains(&x) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -344,7 +344,7 @@ where
 /// ```
 ///
 pub fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(H_MIN4..=H_MAX4).contains(&h) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -369,7 +369,7 @@ pub fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 /// ```
 ///
 pub fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(S_MIN4..=S_MAX4).contains(&s) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
-- 
2.43.0


From 555dcbcd1ef70abd90bcee9f1888dce29ae6d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 28/35] fix: (h,s) had no upper pressure limit for region 3
 next to region 2

---
 src/common/region.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 68a170e..ec507e9 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -353,9 +353,17 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
             //hs2p_reg2c r2::region2_p_hs
             {
                 return 2;
-            } else {
+            }
+            if s >= pT2s_reg2(100.0, 863.15) {
+                return 3;
+            }
+            // region 3 ends at p=100 MPa
+            v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
+            T = ps2T_reg3(100.0, s) - 0.0248;
+            if h <= Td2h_reg3(T, 1.0 / v) {
                 return 3;
             }
+            return INVALID_VALUE;
         }
 
         if h23max <= h && h <= hmax {
-- 
2.43.0


From e8b8e27e445dcf52df471e9dd296232dd2180d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 29/35] fix: (h,s) of water colder than 273.15 K was accepted
 as region 1

---
 src/common/region.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common/region.rs b/src/common/region.rs
index ec507e9..9cab0db 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -8,6 +8,7 @@ use crate::common::propertry_id::*;
 
 use crate::r1::region1_T_phps::*;
 use crate::r1::region1_pT::*;
+use crate::r1::region1_p_hs::*;
 use crate::r1::region1_pair_ext::{p2vmin_reg1, T2hmin_reg1};
 
 use crate::r2::region2_T_ps::*;
@@ -282,6 +283,13 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
             return 4;
         }
         if hs <= h && h <= hmax {
+            if s < s4l {
+                // no saturated water has this entropy: region 1 ends at 273.15 K
+                p = hs2p_reg1(h, s);
+                if p < P_MIN || ph2T_reg1(p, h) < 273.15 - 0.025 {
+                    return INVALID_VALUE;
+                }
+            }
             return 1;
         }
     };
-- 
2.43.0


From 9a9fa7c5ca15da8f6fadca6bf5fd3f2d841afa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:46 +0000
Subject: [PATCH 30/35] fix: NaN passed the range checks of px, tx, hx, sx in
 the C, stdcall and Python bindings

---
 src/cdecl_c_if97.rs   | 8 ++++----
 src/python_if97.rs    | 8 ++++----
 src/stdcall_c_if97.rs | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index f949f78..b6f59a7 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -56,7 +56,7 @@ pub unsafe extern "C" fn hs(h: f64, s: f64, o_id: i32) -> f64 {
 /// double px(double p,double x,short o_id) - the propertry of `o_id` (thermodynamic)
 #[no_mangle]
 pub unsafe extern "C" fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(P_MIN4..=P_MAX4).contains(&p) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -74,7 +74,7 @@ pub unsafe extern "C" fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T_MIN4..=T_MAX4).contains(&T) || !(0.0..=1.0).contains(&x) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -129,7 +129,7 @@ pub unsafe extern "C" fn ts(t: f64, s: f64, o_id: i32) -> f64 {
 /// double hx(double h,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "C" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(H_MIN4..=H_MAX4).contains(&h) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -142,7 +142,7 @@ pub unsafe extern "C" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 /// double sx(double s,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "C" fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(S_MIN4..=S_MAX4).contains(&s) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
diff --git a/src/python_if97.rs b/src/python_if97.rs
index cd57e35..c850c46 100644
--- a/src/python_if97.rs
+++ b/src/python_if97.rs
@@ -53,7 +53,7 @@ fn hs(h: f64, s: f64, o_id: i32) -> f64 {
 
 #[pyfunction]
 fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(P_MIN4..=P_MAX4).contains(&p) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -70,7 +70,7 @@ fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T_MIN4..=T_MAX4).contains(&T) || !(0.0..=1.0).contains(&x) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -120,7 +120,7 @@ fn ts(t: f64, s: f64, o_id: i32) -> f64 {
 
 #[pyfunction]
 fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(H_MIN4..=H_MAX4).contains(&h) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -132,7 +132,7 @@ fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 
 #[pyfunction]
 fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(S_MIN4..=S_MAX4).contains(&s) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
diff --git a/src/stdcall_c_if97.rs b/src/stdcall_c_if97.rs
index 5a0a787..49eb280 100644
--- a/src/stdcall_c_if97.rs
+++ b/src/stdcall_c_if97.rs
@@ -56,7 +56,7 @@ pub unsafe extern "stdcall" fn hs(h: f64, s: f64, o_id: i32) -> f64 {
 /// double px(double p,double x,short o_id) - the propertry of `o_id` (thermodynamic)
 #[no_mangle]
 pub unsafe extern "stdcall" fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(P_MIN4..=P_MAX4).contains(&p) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -74,7 +74,7 @@ pub unsafe extern "stdcall" fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T_MIN4..=T_MAX4).contains(&T) || !(0.0..=1.0).contains(&x) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -129,7 +129,7 @@ pub unsafe extern "stdcall" fn ts(t: f64, s: f64, o_id: i32) -> f64 {
 /// double hx(double h,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "stdcall" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(H_MIN4..=H_MAX4).contains(&h) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -142,7 +142,7 @@ pub unsafe extern "stdcall" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 /// double sx(double s,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "stdcall" fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(S_MIN4..=S_MAX4).contains(&s) || !(0.0..=1.0).contains(&x) {
         return INVALID_VALUE as f64;
     }
     match o_id {
-- 
2.43.0


From e60fd2020e29da841d01f8da05d5f68358769698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:30 +0000
Subject: [PATCH 31/35] fix: (h,s) next to the rounded limits of the boundary
 equations was assigned the wrong region

---
 src/common/boundaries.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/boundaries.rs b/src/common/boundaries.rs
index 0054398..ca3e067 100644
--- a/src/common/boundaries.rs
+++ b/src/common/boundaries.rs
@@ -159,7 +159,7 @@ pub fn hs_region_h3a_s(s: f64) -> f64 {
         (32, 6, 0.631052532240980E+0),
     ];
     // Check input parameters
-    if s < 3.77828134 || s > SC_WATER {
+    if s < 3.778281339 || s > SC_WATER {
         return INVALID_S as f64;
     }
 
@@ -205,7 +205,7 @@ pub fn hs_region_h2ab_s(s: f64) -> f64 {
     ];
 
     // Check input parameters
-    if s < 5.85 || s > 9.155759395 {
+    if s < 5.85 || s > 9.155759396 {
         return INVALID_S as f64;
     }
 
@@ -259,7 +259,7 @@ pub fn hs_region_h13_s(s: f64) -> f64 {
         (6, -3, -0.690815545851641E+02),
     ];
 
-    if s < 3.397782955 || s > 3.77828134 {
+    if s < 3.397782954 || s > 3.77828134 {
         return INVALID_S as f64;
     };
 
@@ -300,7 +300,7 @@ pub fn hs_region_t_hs(h: f64, s: f64) -> f64 // _t23_hs(h, s)
         (14, 1, 0.783237062349385E+07),
     ];
     // Check input parameters
-    if s < 5.048096828 || s > 5.260578707 || h < 2.563592004e3 || h > 2.812942061e3 {
+    if s < 5.048096828 || s > 5.260578707 || h < 2.563592003e3 || h > 2.812942061e3 {
         return INVALID_HS as f64;
     }
 
-- 
2.43.0


From a15e868e7b11463982357fe56955e03a7811d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:40 +0000
Subject: [PATCH 32/35] fix: (t,v) of region 2 stopped away from the solution
 where its secant step left the bracket or fell below 1e-8 MPa

---
 src/r2/region2_pair_ext.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/r2/region2_pair_ext.rs b/src/r2/region2_pair_ext.rs
index 57bc85c..5068da1 100644
--- a/src/r2/region2_pair_ext.rs
+++ b/src/r2/region2_pair_ext.rs
@@ -97,7 +97,7 @@ pub fn pv2T_reg2(p: f64, v: f64) -> f64 {
     T
 }
 
-/// Region 2  (T,v)->p using the secant method
+/// Region 2  (T,v)->p using the bisection method
 ///      T: temperature  K
 ///      p: pressure  Map
 //       v: specific volume m^3/kg
@@ -111,7 +111,6 @@ pub fn Tv2p_reg2(T: f64, v: f64) -> f64 {
 
     let stepa: f64 = 1.0;
     let stepm: f64 = 5.0;
-    let mut p: f64 = 0.0;
     let mut p2: f64 = p1 * stepm;
     let mut v2: f64 = pT2v_reg2(p2, T);
     if (v - v2).abs() < ESP {
@@ -146,20 +145,7 @@ pub fn Tv2p_reg2(T: f64, v: f64) -> f64 {
         }
     }
 
-    let f2: f64 = v - v2;
-    let pmid: f64 = p2 - (p2 - p1) * (v - v2) / (v1 - v2);
-    if v < pT2v_reg2(pmid, T) {
-        p1 = pmid;
-    }
-    if p1 < P_MIN2 {
-        p1 = P_MIN2;
-    }
-    let f1: f64 = v - pT2v_reg2(p1, T);
-    if f1.abs() < ESP {
-        return p1;
-    }
-
-    let mut p: f64 = rtsec1(pT2v_reg2, T, v, p1, p2, f1, f2, ESP, I_MAX);
+    let mut p: f64 = bisect(|p| v - pT2v_reg2(p, T), p1, p2);
     if p < P_MIN2 {
         p = P_MIN2;
     } else if p > pmax2 {
-- 
2.43.0


From c43fe0eba84a9821c3912fcdb350683a88ad78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:55 +0000
Subject: [PATCH 33/35] fix: (h,x) and (s,x) missed roots inside the first and
 the last step of the saturation line

---
 src/r4/region4.rs | 59 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index fc331d7..68176e8 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -162,37 +162,58 @@ fn turning_root_reg4(x: f64, y: f64, y_id: i32, Tl: f64, Tr: f64) -> Option<f64>
 /// * y is not monotone in T along a line of constant x, so the root must be bracketed first
 /// * INVALID_VALUE: there is no wet steam with y and x
 fn xy2T_reg4(x: f64, y: f64, y_id: i32) -> f64 {
-    const STEPS: i32 = 64;
-    let step: f64 = (T_MAX4 - T_MIN4) / STEPS as f64;
+    // the lines are wavy next to the critical point
+    const T_FINE: f64 = 640.0;
+    const COARSE: i32 = 64;
+    const STEPS: i32 = 128;
+    let node = |i: i32| -> f64 {
+        if i <= COARSE {
+            T_MIN4 + (T_FINE - T_MIN4) * i as f64 / COARSE as f64
+        } else if i < STEPS {
+            T_FINE + (T_MAX4 - T_FINE) * (i - COARSE) as f64 / (STEPS - COARSE) as f64
+        } else {
+            T_MAX4
+        }
+    };
+    let residual = |T: f64| Tx2y_residuals(T, x, y, y_id);
+    let mut T0: f64 = T_MIN4;
     let mut Tl: f64 = T_MIN4;
-    let mut fl: f64 = Tx2y_residuals(Tl, x, y, y_id);
+    let mut fl: f64 = residual(Tl);
     let mut f0: f64 = fl;
+    let mut T_jump: f64 = INVALID_VALUE as f64;
     for i in 1..=STEPS {
-        let Tr: f64 = if i < STEPS { T_MIN4 + i as f64 * step } else { T_MAX4 };
-        let fr: f64 = Tx2y_residuals(Tr, x, y, y_id);
-        // the residual may turn away from zero in the first step or around Tl: two roots lie close to its extremum
-        if i == 1
-            && fl * fr > 0.0
-            && Tx2y_residuals(Tl + 0.001, x, y, y_id).abs() < fl.abs()
-            && Tx2y_residuals(Tr - 0.001, x, y, y_id).abs() < fr.abs()
-        {
-            if let Some(T) = turning_root_reg4(x, y, y_id, Tl, Tr) {
-                return T;
-            }
-        }
+        let Tr: f64 = node(i);
+        let fr: f64 = residual(Tr);
+        let mut T: Option<f64> = None;
         if fl * fr <= 0.0 {
-            return bisection_reg4(x, y, y_id, Tl, Tr);
+            T = Some(bisection_reg4(x, y, y_id, Tl, Tr));
+        } else if i > 1 && fl.abs() <= f0.abs() && fl.abs() <= fr.abs() {
+            // the residual may turn away from zero around Tl: two roots lie close to its extremum
+            T = turning_root_reg4(x, y, y_id, T0, Tr);
         }
-        if i > 1 && fl.abs() <= f0.abs() && fl.abs() <= fr.abs() {
-            if let Some(T) = turning_root_reg4(x, y, y_id, Tl - step, Tr) {
+        if T.is_none()
+            && (i == 1 || i == STEPS)
+            && residual(Tl + 0.001) * fl.signum() < fl.abs()
+            && residual(Tr - 0.001) * fr.signum() < fr.abs()
+        {
+            // or inside of the first and the last step
+            T = turning_root_reg4(x, y, y_id, Tl, Tr);
+        }
+        if let Some(T) = T {
+            // next to the critical point the residual also changes its sign at the jumps between equations
+            if residual(T).abs() < 1.0e-6 {
                 return T;
             }
+            if T_jump == INVALID_VALUE as f64 {
+                T_jump = T;
+            }
         }
+        T0 = Tl;
         f0 = fl;
         fl = fr;
         Tl = Tr;
     }
-    INVALID_VALUE as f64
+    T_jump
 }
 
 /// (h,x,o_id)
-- 
2.43.0


From b3e59452923628aa086baef85a46314dde3f039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:59 +0000
Subject: [PATCH 34/35] fix: (h,s) accepted any enthalpy for the entropy of
 saturated water at 273.15 K

---
 src/common/boundaries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/boundaries.rs b/src/common/boundaries.rs
index ca3e067..fdad14b 100644
--- a/src/common/boundaries.rs
+++ b/src/common/boundaries.rs
@@ -125,7 +125,7 @@ pub fn hs_region_h1_s(s: f64) -> f64 {
     ];
 
     // Check input parameters
-    if s < -1.545495919e-4 || s > 3.77828134 {
+    if s < -1.545495920e-4 || s > 3.77828134 {
         return INVALID_S as f64;
     }
 
-- 
2.43.0


From a863c30f8a92d578c247d7d197dafdf48f10718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:58 +0000
Subject: [PATCH 35/35] fix: (t,h) and (p,v) rejected saturated water that px
 and tx report, by the rounding of the saturation line

---
 src/common/region.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 9cab0db..ab26746 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -493,7 +493,8 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     {
         return 3;
     };
-    if (p > P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
+    // saturated water from (t,x) may lie below v'(p) by the rounding of p
+    if (p > P_MIN) && (p <= PC_WATER) && (v >= vsw * (1.0 - 1.0e-12)) && (v <= vss) {
         return 4; // x is obtained in r4::region4_pair_ext::pv2x_reg4
     };
     if (p > P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
@@ -649,8 +650,8 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         return 3;
     };
 
-    //  (t,h)
-    if (T >= T_MIN1) && (T <= TC_WATER) && (h >= hsw) && (h <= hss) {
+    //  (t,h): saturated water from (p,x) may lie below h'(T) by the rounding of T
+    if (T >= T_MIN1) && (T <= TC_WATER) && (h >= hsw - 1.0e-9) && (h <= hss) {
         return 4;
     };
 
-- 
2.43.0

