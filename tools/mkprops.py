#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script only so the text is easy to edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook="none: public API only"):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

API="src/rust_if97.rs"
p("C01","(p,t) properties are the IAPWS-IF97 values everywhere in the validity range",
 "For every pressure and temperature in the range of validity of IAPWS-IF97, the specific volume, enthalpy, entropy, internal energy, isochoric and isobaric heat capacity and speed of sound returned for (p,t) are those of the basic equation of the region the point lies in. In the dense-fluid region, where the basic equation is in density, the returned volume is the one given by the IAPWS backward equations (supplementary release on v(p,T)) and reproduces the pressure within the tolerance that release states.",
 ["inputs"],"all (p,t) with 0.000611213 <= p <= 100 MPa and 0 <= t <= 800 C, and p <= 50 MPa for 800 < t <= 2000 C",
 "The tests sample about 3 points per region (and 2 per sub-region of region 3) with absolute tolerances that hide a lost term; the claim is over the whole (p,t) plane, every coefficient and every sub-region.",
 [API,"src/r1/region1_pT.rs","src/r2/region2_pT.rs","src/r3/region3_Td.rs","src/r3/region3_v_pT.rs","src/r3/region3_v_subregion_pT.rs","src/r5/region5_pT.rs","src/r1/region1_gfe.rs","src/r2/region2_gfe.rs","src/r3/region3_hfe.rs","src/r5/region5_gfe.rs","src/algo/polynomial.rs","src/algo/polynomial_steps.rs"],
 [("Gibbs/Helmholtz dimensionless equations and derivatives","src/r*/region*_gfe.rs, src/r3/region3_hfe.rs"),("split polynomial evaluators with hand-kept step boundaries","src/algo/polynomial_steps.rs"),("region 3 v(p,T) sub-regions","src/r3/region3_v_pT.rs")],
 ["pt(p,t,OV/OH/OS/OU/OCP/OCV/OW)"])
p("C02","Every state is assigned the IF97 region it lies in, the same for every input pair",
 "For every (p,t) the reported region is the one IAPWS-IF97 assigns, with region 4 only on the saturation line, and the region boundaries used are the IF97 boundary equations. When the same single-phase state is described by any other supported pair - (p,h), (p,s), (h,s), (p,v), (t,v), (t,h), (t,s) - and the state is not within equation tolerance of a boundary, the same region is reported, and every wet state with its pressure or temperature is reported as region 4.",
 ["inputs"],"all states in the validity range, on, next to (ulp, 1e-9, 1e-6, 1e-3) and away from each boundary, for each of the 8 pairs with automatic region choice",
 "Tests never ask for the region at all, and never visit a boundary; region selection is a chain of about 60 comparisons of which the tests take a handful of paths.",
 [API,"src/common/region.rs","src/common/boundaries.rs","src/common/constant.rs","src/r4/region4_sat_pT.rs"],
 [("region classification per input pair","src/common/region.rs *_sub_region"),("B23 and h-s boundary equations","src/common/boundaries.rs")],
 ["<pair>(x,y,OR)"])
p("C03","Backward pairs (p,h), (p,s), (h,s) invert the forward equations within IAPWS tolerance",
 "For every state in the validity range, feeding its (p,h), (p,s) or (h,s) back in yields the temperature, and for (h,s) the pressure, of the original state within the numerical-consistency tolerances published by IAPWS for the backward equations. In single-phase regions the result is the value of the official backward equation, including across the sub-region boundaries of those equations.",
 ["inputs"],"all states of regions 1, 2 (a,b,c), 3 (a,b), 4 and 5 in (p,h), (p,s) and (h,s) coordinates",
 "The tests check three published points per equation; consistency is a statement about every point of each two-dimensional domain and each sub-region seam.",
 [API,"src/r1/region1_T_phps.rs","src/r1/region1_p_hs.rs","src/r2/region2_T_ph.rs","src/r2/region2_T_ps.rs","src/r2/region2_p_hs.rs","src/r3/region3_Tv_phps.rs","src/r3/region3_p_hs.rs","src/r4/region4_T_hs.rs","src/r5/region5_ph_ps_hs.rs"],
 [("IAPWS backward equations","src/r*/region*_T_ph*.rs, *_p_hs.rs"),("secant solution in region 5","src/r5/region5_ph_ps_hs.rs")],
 ["ph/ps/hs(x,y,OT/OP/OV/OX)"])
p("C04","Extended pairs (p,v), (t,v), (t,h), (t,s) return a state that reproduces both inputs",
 "For every state in the validity range described by (p,v), (t,v), (t,h) or (t,s), the state returned satisfies both given values: its pressure or temperature equals the given one and re-evaluating the volume, enthalpy or entropy at the returned state gives the other within solver tolerance. Where the pair determines the state uniquely, the returned state is the original one.",
 ["inputs"],"all states in regions 1-5 in the four extended coordinates, interior and near region boundaries, with automatic region choice",
 "Tests contain at most three interior points per region; convergence and root selection of the iterative solvers depend on where in the region the start bracket falls.",
 [API,"src/r1/region1_pair_ext.rs","src/r2/region2_pair_ext.rs","src/r3/region3_pair_ext.rs","src/r4/region4_pair_ext.rs","src/r5/region5_pair_ext.rs","src/algo/root.rs"],
 [("secant/bisection inversion","src/algo/root.rs, src/r*/region*_pair_ext.rs")],
 ["pv/tv/th/ts(x,y,OP/OT/OV/OH/OS)"])
p("C05","Saturation and wet-steam states follow the IF97 saturation line and the lever rule",
 "Saturation pressure and temperature are the IF97 region-4 equation and invert each other on the whole line; dry and boiling states equal the adjoining single-phase states. For every pressure or temperature on the line and every quality in [0,1], enthalpy, entropy, internal energy and specific volume are the mass-weighted mean of the two phases and density is the reciprocal of that volume, whichever pair the state is given by.",
 ["inputs"],"all (p,x), (t,x), (h,x), (s,x) with x in [0,1] along the whole saturation line from the triple point to the critical point, and wet states re-expressed in every other pair",
 "Tests check 3 saturation points and no wet state through most pairs; the lever rule is a statement over the whole dome.",
 [API,"src/r4/region4_sat_pT.rs","src/r4/region4_pTx.rs","src/r4/region4.rs","src/r4/region4_T_hs.rs","src/r4/region4_pair_ext.rs"],
 [("saturation equation","src/r4/region4_sat_pT.rs"),("lever rule","src/r4/region4_pTx.rs")],
 ["px/tx/hx/sx(.,.,o_id)","pt/ph/ps/hs/pv/tv/th/ts on wet states"])
p("C06","All properties reported for one state are mutually consistent, for every input pair",
 "For every pair and every input that describes a single-phase state, the reported properties satisfy the defining identities: h = u + pv, f = u - Ts, g = h - Ts, density = 1/v, compressibility z = pv/RT, isentropic exponent k = w^2/(pv), fugacity consistent with the Gibbs energy and exergy e = h - Tt*s with Tt = 273.16 K. Each property asked for individually through a pair equals the same property asked for through (p,t) of that state.",
 ["inputs"],"all 12 pairs x all property ids x all states of regions 1,2,3,5 (and the two-phase identities in region 4)",
 "Tests never ask for e, z, f, g, k, fi, fu at all, and never compare two properties of the same state; the per-region formulae are five separate hand-written copies.",
 [API,"src/common/propertry_pairs.rs","src/r1/region1_pT_ext.rs","src/r2/region2_pT_ext.rs","src/r3/region3_Td_ext.rs","src/r5/region5_pT_ext.rs","src/r4/region4.rs"],
 [("extended property formulae per region","src/r*/region*_ext.rs"),("dispatch from pair to region function","src/common/propertry_pairs.rs, src/r*/region*.rs")],
 ["<pair>(x,y,o_id) for every o_id"])
p("C07","Derivative properties are the true partial derivatives of the reported state surface",
 "For every single-phase state the isobaric expansion and pressure coefficients, isothermal compressibility and stress coefficient, isochoric relations, the partial derivatives of volume and pressure, and the Joule-Thomson and isothermal throttling coefficients equal the partial derivatives of the library's own v(p,t), h(p,t) and p(v,t) surfaces, in the documented units. Heat capacities and speed of sound equal the corresponding derivatives of enthalpy, internal energy and pressure.",
 ["inputs"],"all states of regions 1,2,3,5 reached by (p,t) and by the other pairs x the 14 derivative-type properties",
 "No existing test evaluates any derivative property; a sign, factor or dropped term is invisible to them everywhere.",
 [API,"src/r1/region1_pT_ext.rs","src/r2/region2_pT_ext.rs","src/r3/region3_Td_ext.rs","src/r5/region5_pT_ext.rs","src/r1/region1_gfe.rs","src/r2/region2_gfe.rs","src/r3/region3_hfe.rs","src/r5/region5_gfe.rs"],
 [("derivative property formulae","src/r*/region*_ext.rs")],
 ["pt(p,t,OEC/OKT/ODVDT/ODVDP/ODPDT/OIJTC/OJTC/OBETAP/OFI/OFU/OALFAP/OPC/OCP/OCV/OW)"])
p("C08","Transport and further properties follow their IAPWS formulations in every pair",
 "Dynamic viscosity, thermal conductivity, surface tension and static dielectric constant equal the IAPWS formulations (industrial form, without critical enhancement) at the density and temperature of the state. Kinematic viscosity, thermal diffusivity and Prandtl number equal viscosity/density, conductivity/(density*cp) and viscosity*cp/conductivity of the same state, in whichever region and by whichever pair it is given.",
 ["inputs"],"all states of regions 1,2,3,5 through all 8 single-phase pairs, and surface tension along the saturation line",
 "The tests check the formulations at the IAPWS (rho,T) table points only and never through the public interface or for the derived quantities.",
 [API,"src/common/transport_further.rs","src/common/propertry_pairs.rs","src/r1/region1.rs","src/r2/region2.rs","src/r3/region3.rs","src/r5/region5.rs"],
 [("transport formulations","src/common/transport_further.rs"),("pair_transport_reg","src/common/propertry_pairs.rs or the transport module")],
 ["<pair>(x,y,ODV/OKV/OTC/OTD/OPR/OST/OSDC)"])
p("C09","Requested inputs are echoed and property ids mean the same thing in every function",
 "For every function and every accepted input, asking for one of the two given properties returns it bit-for-bit. Every property id 0-35 denotes the same property in every function and every region, and any id outside that set yields the documented invalid-property code, never a number that looks like a property.",
 ["inputs"],"12 functions x all property ids (0..35, every id in -1000..1000 and the i32 extremes) x states of each region and the wet region",
 "Tests use about 6 of the 36 ids and no invalid one.",
 [API,"src/common/propertry_id.rs","src/common/propertry_pairs.rs","src/common/constant.rs"],
 [("echo and dispatch on property id","src/rust_if97.rs"),("per-region dispatch","src/r*/region*.rs")],
 ["<fn>(x,y,o_id)"])
p("C10","Inputs outside the validity range always give the documented error code",
 "For every function, inputs outside the documented validity range give one of the library's negative error codes - for (p,t) the code that names the offending variable - for every property that is not an echo of an input, and never a plausible property value. Inputs inside the range never give an error code for a property defined in that region.",
 ["inputs"],"all 12 functions x a lattice straddling every limit of the validity range (both sides, ulp/1e-9/1e-6/1e-3 away, and far out) x property ids",
 "No test passes an out-of-range value or looks at an error code.",
 [API,"src/common/region.rs","src/common/constant.rs","src/common/propertry_pairs.rs"],
 [("range checks","src/common/region.rs"),("code propagation","src/common/propertry_pairs.rs")],
 ["<fn>(x,y,o_id)"])
p("C11","Every call terminates and returns a number, for every possible argument",
 "No call of any public function panics, overflows, recurses or loops without bound, whatever floating-point values (including NaN, infinities, subnormals and extremes), property id and region argument it is given.",
 ["inputs"],"12 functions x every ordered pair over a lattice of special and boundary doubles x every property id x region arguments (absent, 1..5, and invalid)",
 "Tests only pass sensible values; a hang or panic needs an unusual combination of an iterative path and an argument.",
 [API,"src/algo/root.rs","src/r4/region4_T_hs.rs","src/r4/region4_pTx.rs","src/r2/region2_pair_ext.rs","src/r5/region5_ph_ps_hs.rs"],
 [("unbounded while loops and powi on table exponents","src/r4/region4_T_hs.rs, src/r4/region4_pTx.rs, src/r2/region2_pair_ext.rs")],
 ["every public function"])
p("C12","Naming the region explicitly never changes the answer",
 "When a call is given the region in which its state lies, it returns exactly what it returns with automatic region choice, for every property. Asking for the region through a call that names one returns that region.",
 ["inputs"],"8 pair functions accepting a region x all property ids x states in all five regions, near and away from boundaries",
 "No existing test uses the region argument.",
 [API,"src/common/propertry_pairs.rs"],
 [("region argument dispatch","src/common/propertry_pairs.rs, src/rust_if97.rs")],
 ["<fn>(x,y,(o_id,region)) against <fn>(x,y,o_id)"])
p("C13","A call's result depends on its arguments only, not on earlier calls",
 "In every sequence of calls, each call returns bit-for-bit what the same call returns in a fresh process, whatever calls precede it and whatever order they come in.",
 ["histories"],"all sequences of calls up to the stated depth over an alphabet that has a call for every evaluation path (pair x region x kind of property, error and boundary calls)",
 "Each test makes its calls in one fixed order; no test repeats a call after another one.",
 ["src/lib.rs",API,"src/algo/root.rs","src/algo/polynomial_steps.rs","src/r1/region1_gfe.rs","src/r3/region3_v_subregion_pT.rs"],
 [("absence of hidden state (no cache, no static mut, no thread-local)","whole crate")],
 ["results of call sequences"],[("process-wide or thread-local data","any memo or workspace a call leaves behind")])
p("C14","Concurrent calls from several threads give the results of sequential calls",
 "Under every interleaving of calls made by several threads, each call returns bit-for-bit what it returns when run alone, without deadlock, panic or data race.",
 ["schedules"],"all interleavings, at every access to memory shared between threads, of two or three threads each making calls from an alphabet covering every evaluation path",
 "The test-suite has no multi-threaded test; a race needs a specific interleaving inside one call.",
 ["src/lib.rs",API,"src/algo/root.rs","src/algo/polynomial_steps.rs"],
 [("absence of shared mutable state, or correct synchronisation of it","whole crate")],
 ["results of concurrent calls"],[("statics, atomics, locks, once-cells","anything written by one call and visible to another thread")],
 hook="none: the crate is compiled unmodified with compiler-inserted memory-access callbacks")
p("C15","C, stdcall and Python bindings return exactly what the Rust functions return",
 "For each of the twelve functions, and every input, property id, the exported C function, the exported stdcall function and the Python extension function return the value of the Rust function of the same name with automatic region choice, bit for bit when compiled alike (an optimising compiler may fold constants differently in different builds). Every one of the three bindings builds from its feature flag.",
 ["configurations","inputs"],"3 bindings x 12 functions x all property ids x the state lattice incl. errors and special values",
 "The bindings are never executed by the tests; each is a separate hand-written copy of the dispatch.",
 ["src/cdecl_c_if97.rs","src/stdcall_c_if97.rs","src/python_if97.rs",API,"Cargo.toml"],
 [("duplicated dispatch per binding","src/*_if97.rs")],
 ["C ABI symbols / Python module functions"])
p("C16","The Python convenience functions name the inputs and output they use",
 "Every two-letter-to-one-letter helper of the Python package (for example p,t to h) returns what the general function of its input pair returns for the property in its name, and the package exports every helper that the documentation lists.",
 ["inputs","configurations"],"every helper of the package x states of every region",
 "There are no Python tests.",
 ["python/seuif97/__init__.py","src/python_if97.rs"],
 [("helper table","python/seuif97/__init__.py")],
 ["seuif97.pt2h(...), ..."])
p("C17","Every valid state is mechanically and thermally stable and surfaces are monotone",
 "For every single-phase state in the validity range all properties are finite, volume, heat capacities, speed of sound, isothermal compressibility, viscosity and conductivity are positive, and cp >= cv. Along every isobar enthalpy and entropy never fall with rising temperature, and along every isotherm volume never rises with rising pressure, through all regions and sub-regions.",
 ["inputs"],"all states of the validity range; all neighbouring pairs of states on a dense (p,t) lattice",
 "Tests look at isolated points; monotonicity relates pairs of points, and fails only where a wrong branch or a lost term bites.",
 [API,"src/r1/region1_pT.rs","src/r2/region2_pT.rs","src/r3/region3_v_pT.rs","src/r5/region5_pT.rs"],
 [("basic equations and region hand-over","src/common/region.rs, src/r*")],
 ["pt(p,t,*)"])
p("C18","Properties are continuous across every region and sub-region seam",
 "Crossing any internal seam of the formulation - between regions 1/3, 2/3, 2/5, the saturation line's phase values, or between sub-regions of a backward equation - changes volume, enthalpy, entropy, heat capacity and temperature by no more than the inconsistency IAPWS publishes for that seam.",
 ["inputs"],"all points along every seam, paired with their neighbours on the other side, in (p,t), (p,h), (p,s) and (h,s)",
 "No test evaluates two sides of a seam.",
 [API,"src/common/region.rs","src/common/boundaries.rs","src/r2/region2_T_ph.rs","src/r2/region2_T_ps.rs","src/r2/region2_p_hs.rs","src/r3/region3_v_pT.rs","src/r3/region3_Tv_phps.rs"],
 [("sub-region selection","src/r2/region2_T_ph.rs, src/r2/region2_T_ps.rs, src/r2/region2_p_hs.rs, src/r3/region3_v_pT.rs, src/r3/region3_Tv_phps.rs")],
 ["pt/ph/ps/hs on both sides of each seam"])
p("C19","Steam quality is 0 in liquid, 1 in vapour and the mass fraction in wet steam",
 "For every pair, the reported quality is 0 for compressed liquid, 1 for vapour and supercritical states as documented, and for a wet state the mass fraction for which the two phases combine to the given inputs. Quality is always within [0,1] for an accepted input.",
 ["inputs"],"8 pairs x states in every region, incl. wet states from x=0 to x=1 and both sides of the saturation line",
 "No test asks for quality except through one example.",
 [API,"src/common/propertry_pairs.rs","src/r4/region4.rs","src/r4/region4_pair_ext.rs"],
 [("quality selection","src/common/propertry_pairs.rs, src/r4/region4.rs")],
 ["<pair>(x,y,OX)"])
p("C20","Re-expressing a state through any chain of input pairs does not drift",
 "Starting from any state, converting it through any sequence of input pairs (each step taking two properties of the previous result as the next call's inputs) stays at the same state, within the accumulated published tolerances, and never ends in an error. A saturated liquid or vapour state reported by px or tx is accepted by every other pair.",
 ["histories","inputs"],"all chains of pairs up to the stated depth from every start state of a lattice covering all regions",
 "Tests make single calls; users (cycle calculations) chain them, each output being the next call's input.",
 [API,"src/common/region.rs","src/r1/region1_pair_ext.rs","src/r2/region2_pair_ext.rs","src/r3/region3_pair_ext.rs","src/r4/region4_pair_ext.rs","src/r5/region5_pair_ext.rs"],
 [("forward and backward evaluation paths composed","all pair functions")],
 ["chains of <pair>(x,y,o_id)"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
