//! Replays a recorded counterexample against the current build.
use crate::eng::*;

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let i = s.find(&format!("\"{k}\":"))? + k.len() + 3;
    let r = s[i..].trim_start();
    if let Some(q) = r.strip_prefix('"') {
        Some(&q[..q.find('"')?])
    } else {
        Some(r[..r.find([',', '}']).unwrap_or(r.len())].trim())
    }
}
/// 1: every call gives the recorded value again; 0: the behaviour changed
pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("engine error: cannot read {path}");
        return 2;
    };
    init_slots();
    let prop = field(&s, "property").unwrap_or("?").to_string();
    println!("property {prop}, {}", field(&s, "kind").unwrap_or(""));
    println!("recorded: {}", field(&s, "message").unwrap_or(""));
    if prop == "C14" {
        return crate::conc::replay14(field(&s, "message").unwrap_or("")).unwrap_or_else(|e| {
            eprintln!("engine error: {e}");
            2
        });
    }
    let Some(i) = s.find("\"calls\":[") else { return 2 };
    let mut same = true;
    let mut all = vec![];
    let mut n = 0;
    for part in s[i..].split("{\"value_bits\":").skip(1) {
        let part = format!("{{\"value_bits\":{part}");
        let f = FN_NAMES.iter().position(|x| Some(*x) == field(&part, "fn"));
        let bits = |k| field(&part, k).and_then(|x| u64::from_str_radix(x, 16).ok()).map(f64::from_bits);
        let o = field(&part, "o").and_then(|x| x.parse().ok());
        let (Some(f), Some(a), Some(b), Some(o)) = (f, bits("a_bits"), bits("b_bits"), o) else {
            eprintln!("engine error: cannot parse {path}");
            return 2;
        };
        let reg = field(&part, "reg").and_then(|x| x.parse().ok()).unwrap_or(NOREG);
        let c = Call { f, a, b, o, reg };
        n += 1;
        all.push(c);
        if prop == "C15" || prop == "C16" {
            continue;
        }
        println!("call {}", c.text());
        let got = c.run();
        match field(&part, "value_bits").and_then(|x| u64::from_str_radix(x, 16).ok()) {
            Some(v) => {
                println!("  returns {:?}, recorded {:?}", got, f64::from_bits(v));
                same &= v == got.to_bits();
            }
            None => {
                println!("  returned {got:?}; the recorded call did not return");
                same = false;
            }
        }
    }
    if prop == "C15" || prop == "C16" {
        return match crate::bind::replay(&prop, field(&s, "kind").unwrap_or(""), &all) {
            Ok(c) => {
                println!("{}", if c == 1 { "reproduced" } else { "not reproduced" });
                c
            }
            Err(e) => {
                eprintln!("engine error: {e}");
                2
            }
        };
    }
    if same && n > 0 {
        println!("reproduced");
        1
    } else {
        println!("not reproduced: the behaviour differs from the recorded one");
        0
    }
}
