//! `litcheck lit run` as a process, on suites written for each case: the status of every test against the
//! conditions and outcomes it was written with, the summary and the exit status against the statuses.
use crate::util::*;
use std::collections::BTreeMap;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub static P17: Prop = Prop {
    id: "P17",
    rule: "suites of 1-5 tests (shell scripts and executables) run by the litcheck binary: REQUIRES/UNSUPPORTED/XFAIL conditions over four features, retries, commands that pass, fail with every kind of code, die by a signal, pass at the n-th run, malformed scripts, --no-execute, time limits; the status and the number of runs of every test are compared; non-trivial when a test ran",
    fixed: fixed17,
    gen: gen17,
    check: check17,
};
pub static P19: Prop = Prop {
    id: "P19",
    rule: "suites of 0-12 tests of every outcome, in nested directories, with --filter/--filter-out, -q, -v, -a, 1-4 workers, and tests that abort the run: one report per test, counts that add up, exit status; non-trivial when two tests or more ran",
    fixed: fixed19,
    gen: gen19,
    check: check19,
};

/// conditions and their value over the features a, b, c, d
const CONDS: &[(&str, fn(&str) -> bool)] = &[
    ("a", |f| f.contains('a')),
    ("b", |f| f.contains('b')),
    ("c", |f| f.contains('c')),
    ("d", |f| f.contains('d')),
    ("!a", |f| !f.contains('a')),
    ("!b", |f| !f.contains('b')),
    ("a && b", |f| f.contains('a') && f.contains('b')),
    ("a || c", |f| f.contains('a') || f.contains('c')),
    ("!(b || c)", |f| !(f.contains('b') || f.contains('c'))),
    ("{{^[ab]$}}", |f| f.contains('a') || f.contains('b')),
    ("true", |_| true),
    ("false", |_| false),
];
fn holds(c: &str, f: &str) -> Option<bool> {
    CONDS.iter().find(|(t, _)| *t == c).map(|(_, g)| g(f))
}
fn all(cs: &str) -> Vec<&str> {
    cs.split('~').filter(|c| !c.is_empty()).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
#[allow(clippy::upper_case_acronyms)]
enum St {
    Unresolved,
    Excluded,
    Skipped,
    Pass,
    Flaky,
    Fail,
    Xfail,
    Xpass,
    Timeout,
    Unsupported,
}
const LABELS: &[(St, &str, &str)] = &[
    (St::Unresolved, "Unresolved", "UNRESOLVED"),
    (St::Excluded, "Excluded", "EXCLUDED"),
    (St::Skipped, "Skipped", "SKIPPED"),
    (St::Pass, "Passed", "PASS"),
    (St::Flaky, "Passed With Retry", "FLAKYPASS"),
    (St::Fail, "Failed", "FAIL"),
    (St::Xfail, "Failed As Expected", "XFAIL"),
    (St::Xpass, "Unexpectedly Passed", "XPASS"),
    (St::Timeout, "Timed Out", "TIMEOUT"),
    (St::Unsupported, "Unsupported", "UNSUPPORTED"),
];
fn failure(s: St) -> bool {
    matches!(s, St::Unresolved | St::Fail | St::Xpass | St::Timeout)
}

/// one test: requires, unsupported, xfail, retries, behaviour, directory
struct T<'a> {
    requires: Vec<&'a str>,
    unsupported: Vec<&'a str>,
    xfail: Vec<&'a str>,
    retries: Option<usize>,
    what: &'a str,
    arg: u32,
    dir: &'a str,
}
fn parse<'a>(l: &'a str) -> Option<T<'a>> {
    let p: Vec<&str> = l.split(';').collect();
    if p.len() != 6 {
        return None;
    }
    let (what, arg) = p[4].split_once(':').unwrap_or((p[4], "0"));
    let t = T { requires: all(p[0]), unsupported: all(p[1]), xfail: all(p[2]), retries: if p[3].is_empty() { None } else { Some(p[3].parse().ok()?) }, what, arg: arg.parse().ok()?, dir: p[5] };
    for c in t.requires.iter().chain(&t.unsupported).chain(&t.xfail) {
        holds(c, "")?;
    }
    let ok = match what {
        "pass" | "two" | "malformed" | "norun" | "abort" | "sleep" | "out" => true,
        "fail" => (1..256).contains(&t.arg),
        "nul" => (0..256).contains(&t.arg),
        "sig" => [6, 9, 15].contains(&t.arg),
        "flaky" => (1..6).contains(&t.arg),
        "first" | "second" => (1..256).contains(&t.arg),
        _ => false,
    };
    (ok && t.retries.unwrap_or(0) < 10 && ["", "s", "s/u", "v"].contains(&t.dir)).then_some(t)
}
/// what one run of the commands does: status, and whether the test counts its runs
fn outcome(t: &T, run: usize) -> St {
    match t.what {
        "pass" | "two" | "out" => St::Pass,
        "fail" | "first" | "second" => St::Fail,
        "nul" => [St::Fail, St::Pass][(t.arg == 0) as usize],
        "sig" => St::Unresolved,
        "flaky" => {
            if run >= t.arg as usize {
                St::Pass
            } else {
                St::Fail
            }
        }
        "sleep" => St::Timeout,
        _ => St::Unresolved,
    }
}
/// (status, number of runs)
fn oracle(t: &T, exe: bool, suite_unsup: &[&str], f: &str, noexec: bool) -> (St, usize) {
    if exe {
        if suite_unsup.iter().any(|c| holds(c, f) == Some(true)) {
            return (St::Unsupported, 0);
        }
        return if noexec { (St::Pass, 0) } else { (outcome(t, 1), 1) };
    }
    if matches!(t.what, "malformed" | "norun" | "abort") {
        return (St::Unresolved, 0);
    }
    if t.requires.iter().any(|c| holds(c, f) == Some(false)) || t.unsupported.iter().any(|c| holds(c, f) == Some(true)) {
        return (St::Unsupported, 0);
    }
    if noexec {
        return (St::Pass, 0);
    }
    let mut n = 0;
    let mut s;
    loop {
        n += 1;
        s = outcome(t, n);
        if s != St::Fail || n > t.retries.unwrap_or(0) {
            break;
        }
    }
    if s == St::Pass && n > 1 {
        s = St::Flaky;
    }
    if t.xfail.iter().any(|c| holds(c, f) == Some(true)) {
        s = match s {
            St::Pass | St::Flaky => St::Xpass,
            St::Fail => St::Xfail,
            s => s,
        };
    }
    (s, n)
}
/// the commands of a test; every run adds a character to `cnt`
fn commands(t: &T, cnt: &str) -> Vec<String> {
    let count = format!("printf x >> '{cnt}'");
    match t.what {
        "pass" => vec![count],
        "out" => vec![count, format!("seq 1 {}", 20 * t.arg.min(4000)), "cat".into()],
        "two" => vec![count, "true".into(), "( exit 0 )".into()],
        "fail" => vec![count, format!("exit {}", t.arg)],
        "first" => vec![format!("{count}; ( exit {} )", t.arg), "true".into()],
        "second" => vec![count, format!("( exit {} )", t.arg)],
        "nul" => vec![count, format!("( exit \0{} )", t.arg)], // ignored by the shell
        "sig" => vec![count, format!("kill -{} $$; sleep 9", t.arg)],
        "flaky" => vec![count, format!("[ `wc -c < '{cnt}'` -ge {} ]", t.arg)],
        "sleep" => vec![count, "exec sleep 30".into()],
        _ => vec![],
    }
}

struct Run {
    names: Vec<String>,
    want: Vec<(St, usize)>,
    runs: Vec<usize>,
    code: Option<i32>,
    out: String,
    quiet: bool,
    abort: bool,
}
/// options;format;features;conditions under which the suite is unsupported
fn run(c: &Case) -> Option<Run> {
    let (o, ts) = c.split_first()?;
    let p: Vec<&str> = o.split(';').collect();
    if p.len() != 4 {
        return None;
    }
    let exe = match p[1] {
        "sh" | "" => false,
        "exe" => true,
        _ => return None,
    };
    if p[2].chars().any(|c| !"abcd".contains(c)) {
        return None;
    }
    let unsup = all(p[3]);
    if !exe && !unsup.is_empty() || unsup.iter().any(|c| holds(c, "").is_none()) {
        return None;
    }
    let ts: Vec<T> = ts.iter().map(|t| parse(t)).collect::<Option<_>>()?;
    let (mut noexec, mut quiet, mut timeout) = (false, false, false);
    let mut args: Vec<String> = vec![];
    let mut input = ".";
    let (mut filter, mut filter_out): (Option<String>, Option<String>) = (None, None);
    for o in p[0].split(' ').filter(|o| !o.is_empty()) {
        match o.split_at(1) {
            ("q", "") => (quiet, _) = (true, args.push("-q".into())),
            ("v", "") => args.push("-v".into()),
            ("a", "") => args.push("-a".into()),
            ("n", "") => (noexec, _) = (true, args.push("--no-execute".into())),
            ("t", "") => (timeout, _) = (true, args.extend(["--timeout".into(), "1".into()])),
            // a directory is named instead of the suite: as in the known finding only
            ("d", "") if *c == by_dir() => input = "s",
            ("j", n) if n.parse::<usize>().is_ok_and(|n| (1..=4).contains(&n)) => args.extend(["-j".into(), n.into()]),
            ("f", n) if n.chars().all(|c| c.is_ascii_digit()) && !n.is_empty() => filter = Some(n.into()),
            ("g", n) if n.chars().all(|c| c.is_ascii_digit()) && !n.is_empty() => filter_out = Some(n.into()),
            _ => return None,
        }
    }
    if timeout != ts.iter().any(|t| t.what == "sleep") || timeout && ts.len() > 2 {
        return None;
    }
    if exe && ts.iter().any(|t| matches!(t.what, "malformed" | "norun" | "abort" | "flaky" | "nul")) {
        return None;
    }
    // tests are named t<i>x, filters are `t[<digits>]x`
    for (flag, f) in [("--filter", &filter), ("--filter-out", &filter_out)] {
        if let Some(f) = f {
            args.extend([flag.to_string(), format!("t[{f}]x")]);
        }
    }
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("VH_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
    let dir = format!("{base}/lit{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed));
    let mk = |d: &str| std::fs::create_dir_all(format!("{dir}/{d}")).unwrap();
    mk("cnt");
    mk("suite");
    let feats = p[2].chars().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(", ");
    let mut toml = format!("name = \"x\"\npatterns = [\"*.tst\"]\navailable_features = [{feats}]\n");
    if exe {
        toml += &format!("[format.executable]\nunsupported = [{}]\n", unsup.iter().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(", "));
    } else if p[1] == "sh" {
        toml += "[format.shtest]\n";
    }
    std::fs::write(format!("{dir}/suite/lit.suite.toml"), toml).unwrap();
    let mut names = vec![];
    let mut want = vec![];
    let mut exes = String::new();
    let mut abort = false;
    for (i, t) in ts.iter().enumerate() {
        let rel = if t.dir.is_empty() { format!("t{i}x.tst") } else { format!("{}/t{i}x.tst", t.dir) };
        mk(&format!("suite/{}", t.dir));
        let file = format!("{dir}/suite/{rel}");
        let cnt = format!("{dir}/cnt/{i}");
        let cmds = commands(t, &cnt);
        if exe {
            let text = format!("#!/bin/sh\n{}\n", cmds.join(" && "));
            std::fs::write(format!("{file}.src"), text).unwrap();
            // copied by a process of its own: this one never holds the file open, so that no process forked meanwhile does
            exes += &format!("cp '{file}.src' '{file}'; chmod +x '{file}'\n");
        } else {
            let mut text = String::new();
            let conds = |k: &str, cs: &[&str], text: &mut String| {
                // the first half in a list of its own
                let (x, y) = cs.split_at(cs.len() / 2);
                for l in [x, y] {
                    if !l.is_empty() {
                        *text += &format!("# {k}: {}\n", l.join(", "));
                    }
                }
            };
            conds("REQUIRES", &t.requires, &mut text);
            for c in &cmds {
                text += &format!("# RUN: {c}\n");
            }
            conds("UNSUPPORTED", &t.unsupported, &mut text);
            conds("XFAIL", &t.xfail, &mut text);
            if let Some(n) = t.retries {
                text += &format!("ALLOWED_RETRIES: {n}\n");
            }
            match t.what {
                "malformed" => text += &format!("RUN: printf x >> '{cnt}'\nREQUIRES: )\n"),
                "norun" => text += "nothing here\n",
                _ => (),
            }
            let mut bytes = text.into_bytes();
            if t.what == "abort" {
                bytes.extend(b"RUN: true \xff\xfe\n");
            }
            std::fs::write(&file, bytes).unwrap();
        }
        let selected = filter.as_ref().is_none_or(|f| i < 10 && f.contains(&i.to_string())) && !filter_out.as_ref().is_some_and(|f| i < 10 && f.contains(&i.to_string()));
        abort |= selected && t.what == "abort";
        names.push(format!("x::{rel}"));
        want.push(if selected { oracle(t, exe, &unsup, p[2], noexec) } else { (St::Excluded, 0) });
    }
    if exe {
        assert!(Command::new("sh").arg("-c").arg(&exes).stdin(Stdio::null()).status().expect("sh").success());
    }
    let bin = std::env::var("VH_LITCHECK").unwrap_or_else(|_| "/verif/target/debug/litcheck".into());
    let o = Command::new(bin).args(["lit", "run"]).args(&args).arg(input).current_dir(format!("{dir}/suite")).env_remove("LIT_FILTER").env_remove("LIT_FILTER_OUT").env("NO_COLOR", "1").stdin(Stdio::null()).output().expect("litcheck binary");
    let runs = (0..ts.len()).map(|i| std::fs::metadata(Path::new(&dir).join("cnt").join(i.to_string())).map(|m| m.len() as usize).unwrap_or(0)).collect();
    std::fs::remove_dir_all(&dir).ok();
    let out = format!("{}\n{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    Some(Run { names, want, runs, code: o.status.code(), out, quiet, abort })
}
/// the statuses under which the groups of the report list each test
fn groups(r: &Run) -> Result<BTreeMap<String, Vec<St>>, String> {
    let mut m: BTreeMap<String, Vec<St>> = BTreeMap::new();
    let mut cur: Option<(St, usize, usize)> = None;
    let close = |cur: &mut Option<(St, usize, usize)>| match cur.take() {
        Some((s, n, k)) if n != k => Err(format!("the group of {s:?} announces {n} tests and lists {k}")),
        _ => Ok(()),
    };
    for l in r.out.lines() {
        if let Some(h) = l.strip_prefix("******************** ") {
            close(&mut cur)?;
            let Some((label, n)) = h.strip_suffix("):").and_then(|h| h.rsplit_once(" Tests (")) else { continue };
            let Some((s, _, _)) = LABELS.iter().find(|(_, x, _)| *x == label) else { return Err(format!("unknown status `{label}`")) };
            cur = Some((*s, n.parse().map_err(|_| format!("no count in `{l}`"))?, 0));
        } else if let (Some((s, _, k)), Some(name)) = (cur.as_mut(), l.strip_prefix("  ")) {
            *k += 1;
            m.entry(name.to_string()).or_default().push(*s);
        } else {
            close(&mut cur)?;
        }
    }
    close(&mut cur)?;
    Ok(m)
}
/// the counts of the summary
fn summary(r: &Run) -> Result<(usize, BTreeMap<St, usize>), String> {
    let ls: Vec<&str> = r.out.lines().collect();
    let Some(i) = ls.iter().rposition(|l| l.starts_with("Total Discovered Tests: ")) else { return Err("no summary".into()) };
    let total = ls[i]["Total Discovered Tests: ".len()..].trim().parse().map_err(|_| "no total".to_string())?;
    let mut m = BTreeMap::new();
    for l in &ls[i + 1..] {
        let Some((label, n)) = l.strip_prefix("  ").and_then(|l| l.split_once(':')) else { break };
        let Some((s, _, _)) = LABELS.iter().find(|(_, x, _)| *x == label.trim()) else { return Err(format!("unknown status `{label}`")) };
        let n = n.trim().split(' ').next().unwrap().parse().map_err(|_| format!("no count in `{l}`"))?;
        if m.insert(*s, n).is_some() {
            return Err(format!("two counts of {s:?}"));
        }
    }
    Ok((total, m))
}
fn check17(c: &Case) -> Outcome {
    let Some(r) = run(c) else { return Outcome::Skip };
    if r.abort || r.want.iter().all(|(s, _)| *s == St::Excluded) {
        return Outcome::Skip;
    }
    let g = match groups(&r) {
        Ok(g) => g,
        Err(e) => return Outcome::Fail(format!("{e}\n{}", r.out)),
    };
    for (i, (want, runs)) in r.want.iter().enumerate() {
        let got = match g.get(&r.names[i]) {
            Some(g) => g.last().copied(),
            None => None,
        };
        if got != Some(*want) && !(r.quiet && !failure(*want) && got.is_none()) {
            return Outcome::Fail(format!("test {i} should be {want:?}, reported {got:?}\n{}", r.out));
        }
        if r.runs[i] != *runs {
            return Outcome::Fail(format!("test {i} ran {} times, should run {runs} times\n{}", r.runs[i], r.out));
        }
    }
    Outcome::Ok(r.want.iter().any(|(_, n)| *n > 0))
}
fn check19(c: &Case) -> Outcome {
    let Some(r) = run(c) else { return Outcome::Skip };
    if r.want.iter().all(|(s, _)| *s == St::Excluded) {
        return Outcome::Skip; // an error of its own
    }
    let fail = |m: String| Outcome::Fail(format!("{m}\n{}", r.out));
    let (g, (total, counts)) = match groups(&r).and_then(|g| Ok((g, summary(&r)?))) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    let mut per: BTreeMap<St, usize> = BTreeMap::new();
    for (i, name) in r.names.iter().enumerate() {
        let want = r.want[i].0;
        let got = g.get(name).map(|v| v.as_slice()).unwrap_or(&[]);
        let ok = match got {
            [s] if *s == want => true,
            // the run ended before its turn
            [St::Skipped] => r.abort && want != St::Excluded,
            [] => r.quiet && !failure(want) || r.quiet && r.abort,
            _ => false,
        };
        if !ok {
            return fail(format!("test {i} should be reported once, as {want:?}; reported as {got:?}"));
        }
        *per.entry(got.first().copied().unwrap_or(want)).or_default() += 1;
    }
    if let Some(n) = g.keys().find(|n| !r.names.contains(n)) {
        return fail(format!("`{n}` is no test"));
    }
    if total != r.names.len() || counts.values().sum::<usize>() != total {
        return fail(format!("{} tests, the summary counts {total} as {counts:?}", r.names.len()));
    }
    if !r.abort && counts != per || counts.values().any(|n| *n == 0) {
        return fail(format!("the summary counts {counts:?} should be {per:?}"));
    }
    // and each is announced as it ends, unless asked not to
    for (i, name) in r.names.iter().enumerate() {
        let want = r.want[i].0;
        if want != St::Excluded && !r.abort && (!r.quiet || failure(want)) {
            let tag = LABELS.iter().find(|(s, _, _)| *s == want).unwrap().2;
            if r.out.lines().filter(|l| **l == format!("{tag}: {name}")).count() != 1 {
                return fail(format!("test {i} should be announced once as {tag}"));
            }
        }
    }
    let bad = r.abort || r.want.iter().any(|(s, _)| failure(*s));
    if (r.code == Some(0)) == bad {
        return fail(format!("the run ended with {:?}, but {}", r.code, if bad { "a test failed or the run was cut short" } else { "no test failed" }));
    }
    Outcome::Ok(r.want.iter().filter(|(_, n)| *n > 0).count() > 1)
}
fn by_dir() -> Case {
    vec!["d;sh;;".to_string(), ";;;;pass;s".to_string()]
}
fn fixed17() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let mk = |xs: &[&str]| xs.iter().map(|s| s.to_string()).collect::<Case>();
    for f in ["", "a", "ab", "abcd"] {
        for (c, _) in CONDS {
            v.push(vec![format!(";sh;{f};"), format!("{c};;;;pass;"), format!(";{c};;;pass;"), format!(";;{c};;pass;"), format!(";;{c};;fail:1;"), format!(";;{c};;sig:9;")]);
        }
        v.push(vec![format!(";;{f};"), "a~b;;;;pass;".into(), "a~c~d;;;;pass;".into(), ";c~d;;;pass;".into(), ";b~c~a;;;pass;".into(), ";;d~b;;fail:2;".into(), "a;a;;;pass;".into()]);
        v.push(vec![format!(";exe;{f};a"), ";;;;pass;".into(), ";;;;fail:3;".into()]);
        v.push(vec![format!(";exe;{f};c~b"), ";;;;sig:9;".into(), ";;;;fail:3;".into(), ";;;;two;".into()]);
        v.push(vec![format!("n;exe;{f};c~d"), ";;;;sig:9;".into(), ";;;;fail:3;".into(), ";;;;two;".into()]);
    }
    for n in 0..4 {
        for k in 1..5 {
            v.push(vec![";sh;a;".into(), format!(";;;{n};flaky:{k};"), format!(";;a;{n};flaky:{k};"), format!(";;b;{n};flaky:{k};"), format!(";;;{n};fail:{k};"), format!(";;;{n};sig:9;")]);
        }
    }
    for n in [1, 2, 3, 126, 127, 128, 129, 130, 137, 143, 254, 255] {
        v.push(vec![";sh;a;".into(), format!(";;;;fail:{n};"), format!(";;;;first:{n};"), format!(";;a;;second:{n};")]);
        v.push(vec![";exe;a;".into(), format!(";;;;fail:{n};")]);
    }
    v.push(mk(&[";sh;a;", ";;;;malformed;", ";;a;;norun;", "b;;;;malformed;", ";;a;2;sig:6;", ";;a;;sig:15;"]));
    v.push(mk(&["n;sh;a;", ";;;;malformed;", ";;a;;pass;", "b;;;;pass;", ";a;;;pass;", ";;;3;fail:1;"]));
    v.push(mk(&["t;sh;a;", ";;a;1;sleep;", ";;;;pass;"]));
    v.push(mk(&["t;exe;a;", ";;;;sleep;"]));
    v.push(by_dir());
    v.push(mk(&[";sh;a;", ";;;;nul:0;", ";;;;nul:3;", ";;;;pass;"]));
    v.push(mk(&[";sh;a;", ";;;;out:4000;", ";;;;out:1;"]));
    v.push(mk(&[";exe;a;", ";;;;out:4000;", ";;;;out:1;"]));
    v
}
fn test(r: &mut Rng, exe: bool, cond: usize, dirs: bool) -> String {
    let conds = |r: &mut Rng, chance: usize| -> String {
        if exe || !r.chance(chance, 10) {
            return String::new();
        }
        let n = if r.chance(2, 3) { 1 } else { r.range(2, 4) };
        (0..n).map(|_| r.pick(CONDS).0).collect::<Vec<_>>().join("~")
    };
    let what = match r.below(if exe { 7 } else { 12 }) {
        0 | 1 => "pass".to_string(),
        2 | 3 => format!("{}:{}", r.pick(&["fail", "first", "second"]), r.range(1, 255)),
        4 => format!("sig:{}", r.pick(&[6, 9, 15])),
        5 => "two".into(),
        6 => format!("out:{}", r.pick(&[1, 9, 900])),
        7 | 8 => format!("flaky:{}", r.range(1, 4)),
        9 => "malformed".into(),
        10 => format!("nul:{}", r.pick(&[0, 1])),
        _ => "norun".into(),
    };
    let (q, u, x) = (conds(r, cond), conds(r, cond), conds(r, cond));
    let n = if !exe && r.chance(1, 3) { r.range(0, 3).to_string() } else { String::new() };
    format!("{q};{u};{x};{n};{what};{}", if dirs { r.pick::<&str>(&["", "", "s", "s/u", "v"]) } else { "" })
}
fn feats(r: &mut Rng) -> String {
    ["a", "b", "c", "d"].iter().filter(|_| r.chance(1, 2)).copied().collect()
}
fn gen17(r: &mut Rng) -> Case {
    let exe = r.chance(1, 6);
    let un = if exe && r.chance(1, 2) { r.pick(CONDS).0 } else { "" };
    let mut o = vec![];
    if r.chance(1, 8) {
        o.push("n");
    }
    if r.chance(1, 8) {
        o.push(*r.pick(&["a", "v", "j1"]));
    }
    let mut c = vec![format!("{};{};{};{un}", o.join(" "), if exe { "exe" } else { *r.pick(&["sh", ""]) }, feats(r))];
    for _ in 0..r.range(1, 5) {
        c.push(test(r, exe, 4, false));
    }
    c
}
fn fixed19() -> Vec<Case> {
    let mk = |xs: &[&str]| xs.iter().map(|s| s.to_string()).collect::<Case>();
    let mut v = vec![];
    for o in ["", "q", "v", "a", "j1", "q j1", "f0", "g0", "q g0"] {
        for w in ["pass", "fail:1", "sig:9", "malformed", "norun", "flaky:2", "out:3", "abort"] {
            for (x, n) in [("", ""), ("a", ""), ("", "2"), ("a", "2")] {
                v.push(vec![format!("{o};sh;a;"), format!(";;{x};{n};{w};"), ";;;;pass;s".into()]);
            }
        }
        v.push(mk(&[&format!("{o};sh;a;"), "b;;;;pass;", ";a;;;pass;s", ";;;;pass;"]));
        v.push(mk(&[&format!("{o};sh;a;"), ";;;;pass;", ";;;;pass;s", ";;;;pass;v"]));
        v.push(mk(&[&format!("{o};exe;a;"), ";;;;pass;", ";;;;fail:3;s", ";;;;sig:9;v"]));
    }
    v.push(mk(&["t;sh;a;", ";;;;sleep;"]));
    v.push(mk(&["t q;sh;a;", ";;a;;sleep;"]));
    v
}
fn gen19(r: &mut Rng) -> Case {
    let exe = r.chance(1, 8);
    let mut o: Vec<String> = vec![];
    for (k, d) in [("q", 5), ("v", 6), ("a", 6), ("n", 10)] {
        if r.chance(1, d) {
            o.push(k.into());
        }
    }
    let n = r.range(1, 12);
    if r.chance(1, 2) {
        o.push(format!("j{}", r.range(1, 4)));
    }
    for (k, d) in [("f", 4), ("g", 4)] {
        if r.chance(1, d) {
            o.push(format!("{k}{}", (0..r.range(1, 4)).map(|_| r.below(10.min(n)).to_string()).collect::<String>()));
        }
    }
    let mut c = vec![format!("{};{};{};", o.join(" "), if exe { "exe" } else { "sh" }, feats(r))];
    let bland = r.chance(1, 3);
    for _ in 0..n {
        c.push(if bland { format!(";;;;{};{}", r.pick(&["pass", "two"]), r.pick(&["", "s"])) } else { test(r, exe, 2, true) });
    }
    if !exe && r.chance(1, 6) {
        let i = r.range(1, c.len() - 1);
        c[i] = ";;;;abort;".into();
    }
    c
}
