mod util;
mod fc;
mod p_bool;
mod p_lit;
mod p_local;
mod p_not;
mod p_pattern;
mod p_paths;
mod p_range;
mod p_source;
mod p_script;
mod p_subst;
mod p_symbol;
mod p_vars;

use std::time::Duration;
use util::*;

fn props() -> Vec<&'static Prop> {
    vec![&p_bool::PROP, &p_not::PROP, &p_range::PROP, &p_symbol::PROP, &p_script::PROP, &p_subst::PROP, &p_source::P10, &p_source::P11, &p_source::P25, &fc::P01, &fc::P02, &fc::P03, &fc::P04, &fc::P05, &p_vars::P06, &p_vars::P07, &p_vars::P08, &p_pattern::PROP, &p_paths::PROP, &p_lit::P17, &p_lit::P19, &p_local::PROP]
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    match a.first().map(|s| s.as_str()) {
        Some("search") => {
            let p = props().into_iter().find(|p| p.id == a[1]).expect("no such property");
            let budget = Duration::from_secs_f64(opt("--budget").and_then(|b| b.parse().ok()).unwrap_or(5.0));
            let seed = opt("--seed").and_then(|b| b.parse().ok()).unwrap_or(1);
            let threads = opt("--threads").and_then(|b| b.parse().ok()).unwrap_or(8);
            let known: Vec<String> = opt("--known").and_then(|f| std::fs::read_to_string(f).ok()).map(|s| s.lines().map(|l| l.to_string()).collect()).unwrap_or_default();
            let r = search(p, seed, budget, threads, &known, opt("--trace"), Duration::from_secs(60));
            let arr = |c: &Case| format!("[{}]", c.iter().map(|s| json(s)).collect::<Vec<_>>().join(","));
            let out = format!(
                "{{\"evaluations\":{},\"skipped\":{},\"distinct_nontrivial\":{},\"fixed\":{},\"wall\":{:.3},\"rule\":{},\"samples\":[{}],\"failures\":[{}]}}",
                r.evaluations, r.skipped, r.distinct_nontrivial, r.fixed, r.wall, json(p.rule),
                r.samples.iter().map(|c| arr(c)).collect::<Vec<_>>().join(","),
                r.failures.iter().map(|(c, m)| format!("{{\"case\":{},\"line\":{},\"detail\":{},\"replay\":{}}}", arr(c), json(&encode_case(c)), json(m), json(&encode(p.id, c, m)))).collect::<Vec<_>>().join(",")
            );
            match opt("--out") {
                Some(f) => std::fs::write(f, out).unwrap(),
                None => println!("{out}"),
            }
            // a hung worker must not keep the process alive
            std::process::exit(0);
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&a[1]).expect("replay file");
            let id = s.lines().find_map(|l| l.strip_prefix("property: ")).expect("no property line").to_string();
            let Some(case) = s.lines().find_map(|l| l.strip_prefix("case: ")) else {
                println!("this replay file names a failed proof obligation; it has no failing input");
                std::process::exit(0);
            };
            let p = props().into_iter().find(|p| p.id == id).expect("no such property");
            match run_check(p, &decode_case(case)) {
                Outcome::Ok(_) => println!("holds"),
                Outcome::Skip => println!("outside the property's domain"),
                Outcome::Fail(m) => {
                    println!("VIOLATED: {m}");
                    std::process::exit(1);
                }
            }
        }
        _ => {
            for p in props() {
                println!("{}", p.id);
            }
        }
    }
}
