//! The configuration a test runs with, on suites with local configurations at any level (P20): the tests are
//! named one by one, and record the environment, substitutions and format they ran with.
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub static PROP: Prop = Prop {
    id: "P20",
    rule: "a suite of five directories, up to three levels deep, any of them with a local configuration that sets some of format, patterns, exclusions, two variables, three substitutions (one redefines a default) and features; 1-8 of their 25 files are named on the command line, in any order; the environment, substitutions, format and features each one ran with are compared; non-trivial when two configurations apply to a test",
    fixed,
    gen,
    check,
};
const DIRS: &[&str] = &["", "a", "a/b", "a/b/c", "d"];
const FILES: &[&str] = &["t.tst", "f1.tst", "f2.tst", "nat.tst", "t.alt"];
const PATS: &[&[&str]] = &[&["*.tst"], &["*.alt"], &["*.tst", "*.alt"], &["*f1.tst", "*.alt"]];
const EXCL: &[&[&str]] = &[&["*f1.tst"], &["*f2.tst", "*nat.tst"], &["*.alt"]];
fn glob(p: &[&str], f: &str) -> bool {
    p.iter().any(|p| f.ends_with(&p[1..]))
}
/// settings by name: T, P, X, F and V1, V2, s1, s2, ps
#[derive(Clone, Default)]
struct Cfg<'a> {
    one: BTreeMap<&'a str, &'a str>,
    feats: BTreeSet<&'a str>,
}
fn cfg(s: &str) -> Option<Cfg<'_>> {
    let mut c = Cfg::default();
    for kv in s.split(';').filter(|x| !x.is_empty()) {
        let (k, v) = kv.split_once('=')?;
        let ok = match k {
            "T" => v == "sh" || v == "exe",
            "P" => v.parse::<usize>().is_ok_and(|i| i < PATS.len()),
            "X" => v.parse::<usize>().is_ok_and(|i| i < EXCL.len()),
            "F" => v == "f1" || v == "f2",
            "V1" | "V2" | "s1" | "s2" | "ps" => !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric()),
            _ => false,
        };
        if !ok {
            return None;
        }
        if k == "F" {
            c.feats.insert(v);
        } else if c.one.insert(k, v).is_some() {
            return None;
        }
    }
    Some(c)
}
fn toml(c: &Cfg, suite: bool) -> String {
    let list = |p: &[&str]| p.iter().map(|p| format!("\"{p}\"")).collect::<Vec<_>>().join(", ");
    let mut t = String::new();
    if suite {
        t += "name = \"x\"\n";
    }
    if let Some(p) = c.one.get("P") {
        t += &format!("patterns = [{}]\n", list(PATS[p.parse::<usize>().unwrap()]));
    }
    if let Some(p) = c.one.get("X") {
        t += &format!("exclude = [{}]\n", list(EXCL[p.parse::<usize>().unwrap()]));
    }
    if !c.feats.is_empty() {
        t += &format!("available_features = [{}]\n", list(&c.feats.iter().copied().collect::<Vec<_>>()));
    }
    match c.one.get("T") {
        Some(&"sh") => t += "[format.shtest]\n",
        Some(_) => t += "[format.executable]\n",
        None => {}
    }
    let mut vars = String::new();
    let mut subs = String::new();
    for (k, v) in &c.one {
        match *k {
            "V1" | "V2" => vars += &format!("{k} = \"{v}\"\n"),
            "s1" | "s2" => subs += &format!("'%\\{{{k}\\}}' = \"{v}\"\n"),
            "ps" => subs += &format!("'%\\{{pathsep\\}}' = \"{v}\"\n"),
            _ => {}
        }
    }
    if !vars.is_empty() {
        t += &format!("[env]\n{vars}");
    }
    if !subs.is_empty() {
        t += &format!("[substitutions]\n{subs}");
    }
    t
}
fn check(c: &Case) -> Outcome {
    let Some((names, cs)) = c.split_first() else { return Outcome::Skip };
    let mut levels: BTreeMap<&str, Cfg> = BTreeMap::new();
    for l in cs {
        let Some((d, s)) = l.split_once('|') else { return Outcome::Skip };
        let Some(x) = cfg(s) else { return Outcome::Skip };
        // `-` is the suite, `.` the local configuration next to it
        let d = if d == "." { "" } else { d };
        if d != "-" && !DIRS.contains(&d) || levels.insert(d, x).is_some() {
            return Outcome::Skip;
        }
    }
    if !levels.get("-").is_some_and(|s| s.one.contains_key("P")) {
        return Outcome::Skip;
    }
    let all: Vec<String> = DIRS.iter().flat_map(|d| FILES.iter().map(move |f| if d.is_empty() { f.to_string() } else { format!("{d}/{f}") })).collect();
    let named: Vec<&str> = names.split(',').filter(|n| !n.is_empty()).collect();
    if named.is_empty() || named != ["."] && (named.len() > 12 || named.iter().collect::<BTreeSet<_>>().len() != named.len() || !named.iter().all(|n| all.contains(&n.to_string()))) {
        return Outcome::Skip;
    }
    // the whole suite: as in the known finding only
    if named == ["."] && *c != fixed()[0] {
        return Outcome::Skip;
    }
    // what each of them should record
    let mut deep = false;
    let mut want: BTreeMap<&str, String> = BTreeMap::new();
    for n in all.iter().filter(|n| named == ["."] || named.contains(&n.as_str())) {
        let dir = n.rsplit_once('/').map(|x| x.0).unwrap_or("");
        let mut eff = levels["-"].clone();
        for d in DIRS.iter().filter(|d| d.is_empty() || dir == **d || dir.starts_with(&format!("{d}/"))) {
            if let Some(l) = levels.get(d) {
                deep = true;
                eff.one.extend(l.one.iter().map(|(k, v)| (*k, *v)));
                eff.feats.extend(l.feats.iter());
            }
        }
        let g = |k: &str| eff.one.get(k).copied();
        let found = glob(PATS[g("P").unwrap().parse::<usize>().unwrap()], n) && !g("X").is_some_and(|x| glob(EXCL[x.parse::<usize>().unwrap()], n));
        let exe = g("T") == Some("exe");
        let req = n.rsplit('/').next().unwrap();
        let runs = found && (exe || ["f1", "f2"].iter().all(|f| !req.starts_with(f) || eff.feats.contains(f)));
        let out = if !runs {
            String::new()
        } else if exe {
            format!("exe|{}|{}\n", g("V1").unwrap_or(""), g("V2").unwrap_or(""))
        } else {
            format!("sh|{}|{}|{}|{}|{}\n", g("V1").unwrap_or(""), g("V2").unwrap_or(""), g("s1").unwrap_or("%{s1}"), g("s2").unwrap_or("%{s2}"), g("ps").unwrap_or(":"))
        };
        want.insert(n, out);
    }

    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("VH_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
    let dir = format!("{base}/loc{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed));
    std::fs::create_dir_all(format!("{dir}/out")).unwrap();
    for d in DIRS {
        std::fs::create_dir_all(format!("{dir}/suite/{d}")).unwrap();
    }
    for (d, c) in &levels {
        let f = if *d == "-" { "lit.suite.toml".to_string() } else { format!("{d}/lit.local.toml") };
        std::fs::write(format!("{dir}/suite/{f}"), toml(c, *d == "-")).unwrap();
    }
    let mut sh = String::new();
    for (i, n) in all.iter().enumerate() {
        let req = match n.rsplit('/').next().unwrap() {
            "f1.tst" => "# REQUIRES: f1\n",
            "f2.tst" => "# REQUIRES: f2\n",
            "nat.tst" => "# REQUIRES: native\n",
            _ => "",
        };
        let out = format!("{dir}/out/{i}");
        std::fs::write(format!("{dir}/src{i}"), format!("#!/bin/sh\n{req}# RUN: echo \"sh|$V1|$V2|%{{s1}}|%{{s2}}|%{{pathsep}}\" >> '{out}'\necho \"exe|$V1|$V2\" >> '{out}'\n")).unwrap();
        // copied by a process of its own, see p_lit
        sh += &format!("cp '{dir}/src{i}' '{dir}/suite/{n}'; chmod +x '{dir}/suite/{n}'\n");
    }
    assert!(Command::new("sh").arg("-c").arg(&sh).stdin(Stdio::null()).status().expect("sh").success());
    let bin = std::env::var("VH_LITCHECK").unwrap_or_else(|_| "/verif/target/debug/litcheck".into());
    let o = Command::new(bin).args(["lit", "run"]).args(&named).current_dir(format!("{dir}/suite")).env_remove("LIT_FILTER").env_remove("LIT_FILTER_OUT").env_remove("V1").env_remove("V2").env("NO_COLOR", "1").stdin(Stdio::null()).output().expect("litcheck binary");
    let got: BTreeMap<&str, String> = all.iter().enumerate().map(|(i, n)| (n.as_str(), std::fs::read_to_string(format!("{dir}/out/{i}")).unwrap_or_default())).collect();
    std::fs::remove_dir_all(&dir).ok();
    for (n, g) in &got {
        let none = String::new();
        let w = want.get(n).unwrap_or(&none);
        if g != w {
            return Outcome::Fail(format!("{n} recorded {g:?}, should record {w:?}\n{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)));
        }
    }
    Outcome::Ok(deep)
}
fn fixed() -> Vec<Case> {
    let mut v: Vec<Vec<&str>> = vec![
        vec![".", "-|P=0;V1=s", "a|V1=l"],
        vec!["t.tst,a/t.tst,d/t.tst", "-|P=0;V1=s;s1=x", "a|V1=l;s2=y"],
        vec!["a/b/c/t.tst,a/b/t.tst,a/t.tst", "-|P=0;V1=s;s1=x", "a|V1=l;s2=y", "a/b|T=exe;V2=k", "a/b/c|T=sh;s1=z"],
        vec!["a/t.tst,a/b/t.tst,a/b/c/t.tst", "-|P=0;V1=s;s1=x", "a|V1=l;s2=y", "a/b|T=exe;V2=k", "a/b/c|T=sh;s1=z"],
        vec!["t.tst,a/t.tst", "-|P=0;ps=q", "a|V1=l"],
        vec!["a/t.tst", "-|P=0", "a|ps=q"],
        vec!["a/t.tst,d/t.tst,t.tst", "-|P=0;F=f1", ".|V1=r;F=f2"],
    ];
    for f in ["f1", "f2", "nat"] {
        for (x, y) in [("F=f1", "F=f2"), ("F=f1", "V1=q"), ("V1=q", "F=f1"), ("X=0", "X=1"), ("X=0", ""), ("P=0", "P=1"), ("P=0", "P=2"), ("P=3", "F=f1")] {
            v.push(vec![Box::leak(format!("a/{f}.tst,a/b/{f}.tst,a/t.alt,a/b/t.alt").into_boxed_str()), Box::leak(format!("-|P=0;{}", if x.starts_with("P") { "" } else { x }).into_boxed_str()), Box::leak(format!("a|{x}").into_boxed_str()), Box::leak(format!("a/b|{y}").into_boxed_str())]);
        }
    }
    v.into_iter().map(|c| c.into_iter().map(|s| s.to_string()).collect()).collect()
}
fn gen(r: &mut Rng) -> Case {
    let settings = |r: &mut Rng, suite: bool| -> String {
        let mut s: Vec<String> = vec![];
        if suite || r.chance(1, 4) {
            s.push(format!("P={}", if suite { r.pick(&[0, 0, 2]).to_owned() } else { r.below(PATS.len()) }));
        }
        if r.chance(1, 5) {
            s.push(format!("X={}", r.below(EXCL.len())));
        }
        if r.chance(1, 4) {
            s.push(format!("T={}", r.pick(&["sh", "exe"])));
        }
        for k in ["V1", "V2", "s1", "s2", "ps"] {
            if r.chance(1, 3) {
                s.push(format!("{k}={}", r.pick(&["x", "y", "z", "7"])));
            }
        }
        for f in ["f1", "f2"] {
            if r.chance(1, 3) {
                s.push(format!("F={f}"));
            }
        }
        s.join(";")
    };
    let mut c = vec![String::new(), format!("-|{}", settings(r, true))];
    for d in [".", "a", "a/b", "a/b/c", "d"] {
        if r.chance(1, 2) {
            let s = settings(r, false);
            c.push(format!("{d}|{s}"));
        }
    }
    let mut names: Vec<String> = vec![];
    for _ in 0..r.range(1, 8) {
        let d = *r.pick(&["", "a", "a", "a/b", "a/b", "a/b/c", "a/b/c", "d"]);
        let f = *r.pick(FILES);
        let n = if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
        if !names.contains(&n) {
            names.push(n);
        }
    }
    c[0] = names.join(",");
    c
}
