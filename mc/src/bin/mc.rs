use mc::checks::*;
use mc::eng::*;
use mc::pairs::*;
use mc::sat::*;
const ALL: [i32; 36] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35,
];
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        eprintln!("usage: mc PROPERTY quick|thorough  |  mc replay FILE");
        std::process::exit(2);
    }
    if a[1] == "replay" {
        std::process::exit(mc::replay::replay(&a[2]));
    }
    if a[1] == "lits" {
        // regenerate lits_base.txt after a deliberate change of /repo
        let mut v: Vec<u64> = mc::lat::all_literals().iter().map(|x| x.to_bits()).collect();
        v.sort();
        for x in v {
            println!("{x:016x}");
        }
        return;
    }
    let prop = a[1].clone();
    let tier = a.get(2).cloned().unwrap_or("quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let run = Run { prop: prop.clone(), tier: tier.clone(), seed, t0: std::time::Instant::now() };
    set_deadline(if tier == "quick" { 600 } else { 800 });
    let t = tier.as_str();
    // the pairs have 8 x 36 calls per state: a coarser lattice
    let t2 = match t {
        "quick" => "tiny",
        "thorough" => "mid",
        x => x,
    };
    let code = supervise(&run, 20, 850, || {
        {
            use mc::seam::{seam_states, seam_wet};
            let all = [PT, PH, PS, HS, PV, TV, TH, TS];
            let two = [PH, PS, HS, PV, TV, TH, TS];
            let (z, zw) = match t {
                "quick" => ("small", "tiny"),
                "thorough" => ("mid", "small"),
                x => (x, x),
            };
            let (st, we) = match prop.as_str() {
                "C01" => (seam_states(&[PT], &[4, 10], t), vec![]),
                "C02" => (seam_states(&all, &[16], t), seam_wet(&two, &[16], t)),
                "C03" => (seam_states(&[PH, PS, HS], &[1], t), vec![]),
                "C04" => (seam_states(&[PV, TV, TH, TS], &[5], t), vec![]),
                "C05" => (vec![], seam_wet(&[PH, PS, HS, PV, TV, TH, TS, PX, TX, HX, SX], &[15, 1], zw)),
                "C06" => (seam_states(&[PT], &[2, 6, 11, 12, 13, 14, 33, 34], zw), vec![]),
                "C07" => (seam_states(&[PT], &[8, 9, 10, 17, 18, 19, 20, 21, 22, 23, 31, 32, 35], z), seam_wet(&[PX, TX], &[8, 9, 10, 17, 18, 19, 20, 21, 22, 23, 31, 32, 35], zw)),
                "C08" => (seam_states(&[PT], &[24, 25, 26, 27, 28, 29, 30], t), seam_wet(&[PX, TX], &[24, 26, 27, 29, 30], zw)),
                "C09" | "C10" | "C12" | "C15" | "C16" | "C19" => (seam_states(&all, &[15], zw), seam_wet(&[PX, TX, HX, SX], &[15, 4], zw)),
                "C20" => (seam_states(&two, &[4], zw), seam_wet(&two, &[4], "tiny")),
                _ => (vec![], vec![]),
            };
            let _ = mc::checks::EXTRA_WET.set(we);
            let _ = mc::lat::EXTRA.set(st);
        }
        let l = match prop.as_str() {
            "C01" => pt_props(t, &[2, 3, 4, 5, 7, 8, 9, 10]),
            "C02" => c02(t),
            "C03" => c03(t),
            "C04" => c04(t),
            "C05" => c05(if t == "thorough" { "thorough" } else { t }),
            "C06" => {
                let mut l = pair_props(if t == "quick" { "small" } else { t2 }, &ALL);
                l.merge(pt_props(t, &[2, 6, 11, 12, 13, 14, 33, 34]));
                l
            }
            "C07" => {
                let ids = [8, 9, 10, 17, 18, 19, 20, 21, 22, 23, 31, 32, 35];
                let mut l = pt_props(t, &ids);
                l.merge(pair_props(t2, &ids));
                l.merge(sat_props(t2, &ids));
                l
            }
            "C08" => {
                let ids = [24, 25, 26, 27, 28, 29, 30];
                let mut l = pt_props(t, &ids);
                l.merge(pair_props(t2, &ids));
                l.merge(sat_props(t2, &ids));
                l
            }
            "C09" => mc::api::c09(t),
            "C10" => mc::outer::c10(t),
            "C11" => mc::outer::c11(t),
            "C12" => mc::api::c12(t),
            "C13" | "C14" | "C15" | "C16" => match match prop.as_str() {
                "C13" => mc::conc::c13(t),
                "C14" => mc::conc::c14(t),
                "C15" => mc::bind::c15(t),
                _ => mc::bind::c16(t),
            } {
                Ok(l) => l,
                Err(e) => {
                    eprintln!("engine error: {e}");
                    return 2;
                }
            },
            "C17" => mc::surf::c17(t),
            "C18" => mc::surf::c18(t),
            "C20" => mc::chain::c20(t),
            "C19" => mc::api::c19(t),
            "CXX" => pt_props(t, &ALL),
            _ => {
                eprintln!("engine error: unknown property {prop}");
                return 2;
            }
        };
        let note = mc::seam::NOTE.lock().unwrap().clone();
        if !note.is_empty() {
            println!("  seams of the implementation: {note}");
        }
        run.finish(&l, &[("implementation_seams", jstr(&note))], l.validated, true, &[])
    });
    std::process::exit(code);
}
