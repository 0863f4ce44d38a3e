//! Substitutions against sequential rewriting of literal text.
use crate::util::*;
use lit::config::{ScopedSubstitutionSet, SubstitutionSet};
use lit::formats::{directives::ScriptCommand, TestScript};
use litcheck::diagnostics::{DefaultSourceManager, FileName, SourceManager, Span};

pub static PROP: Prop = Prop {
    id: "P21",
    rule: "1-5 definitions (literal keys and values over a small alphabet with %, $, { }, regex metacharacters, keys inside values; some regex patterns with templates) spread over parent and scope with overrides, applied to commands; and scripts of RUN / DEFINE / REDEFINE lines; non-trivial when some key occurs in the text",
    fixed,
    gen,
    check,
};
const MARK: char = '\u{e0ff}';
const RX: &[(&str, &str)] = &[("a+", "<$0>"), ("(?<x>b)c", "${x}$x."), ("[0-9]", "#"), ("^a", "z"), ("(?<b>^|\\s)not(?<a>$|\\s)", "${b}NOT${a}"), ("x*", "-")];

fn fixed() -> Vec<Case> {
    let c = |x: &[&str]| -> Case { x.iter().map(|s| s.to_string()).collect() };
    vec![
        c(&["Frun | FileCheck a.txt"]),
        c(&["I%%"]), c(&["I%%%"]), c(&["I%%%%a"]), c(&["I"]), c(&["Iplain"]),
        c(&["P%s=%%", "I%s"]), c(&["P%s=a%", "I%s%"]), c(&["P%s=$0", "I%s $0"]), c(&["P%s=%t", "P%t=x", "I%s%t"]), c(&["P%t=x", "P%s=%t", "I%s%t"]),
        c(&["P%s=%s%s", "I%s"]), c(&["P%s=1", "S%s=2", "I%s"]), c(&["P%s=1", "P%t=3", "S%t=2", "S%u=5", "I%s%t%u%%s"]), c(&["P%s=1", "P%s=2", "I%s"]),
        c(&["S%%=%", "I%%s%%"]), c(&["P%s=x", "S%%=%", "I%%s %s %%%s"]),
        c(&["D%{a} = 1", "R%{a} b"]), c(&["R%{a}", "D%{a} = 1", "R%{a}", "E%{a} = 2", "R%{a}"]), c(&["D%{a} = 1", "D%{a} = 2", "Rx"]), c(&["E%{a} = 2", "Rx"]),
        c(&["D%{a} = $0 \\d.*", "R%{a} %%{a}"]), c(&["D%{a} = 1", "D%{ab} = %{a}", "R%{ab}%{a}"]), c(&["P%{a}=7", "D%{a} = 1", "Rx"]), c(&["P%{a}=7", "E%{a} = 1", "R%{a}"]), c(&["P%{a}x=7", "P%{a}=8", "E%{a} = 1", "R%{a}x"]),
    ]
}
fn word(r: &mut Rng, lo: usize, hi: usize, al: &[&str]) -> String {
    (0..r.range(lo, hi)).map(|_| *r.pick(al)).collect()
}
fn gen(r: &mut Rng) -> Case {
    let mut v: Case = vec![];
    let al: &[&str] = &["a", "b", "c", "%", "%", "%s", "%t", "%%", "{", "}", "%{a}", "%{b}", "$0", "$", ".", "*", "\\", "#", "é", " ", "1", "not", "(", "[a]"];
    let kal: &[&str] = &["a", "b", "%s", "%s", "%t", "%t", "%", "%%", "%{a}", "%{b}", "%{ab}", ".", "(", "$", "é", "bc"];
    let script = r.chance(1, 3);
    for _ in 0..r.range(if script { 0 } else { 1 }, 4) {
        let tag = if r.chance(1, 2) || script { "P" } else { "S" };
        let mut k = word(r, 1, 2, kal);
        let mut x = word(r, 0, 4, al);
        r.salt(&mut x);
        if r.chance(1, 10) {
            r.salt(&mut k);
        }
        k.retain(|c| c != '=');
        if k.is_empty() {
            k.push('q');
        }
        v.push(format!("{tag}{k}={x}"));
    }
    if r.chance(1, 6) && !script {
        v.push(format!("X{}", r.below(RX.len())));
    }
    if script {
        for _ in 0..r.range(1, 5) {
            match r.below(4) {
                0 => v.push(format!("D{} = {}", r.pick(&["%{a}", "%{b}", "%{ab}", "%{c:1}"]), word(r, 0, 3, al))),
                1 => v.push(format!("E{} = {}", r.pick(&["%{a}", "%{b}", "%{ab}"]), word(r, 0, 3, al))),
                _ => v.push(format!("R{}", word(r, 1, 5, al))),
            }
        }
        v.push("Rend".into());
    } else {
        let mut t = word(r, 0, 7, al);
        if r.chance(1, 3) && !v.is_empty() {
            let k = v[r.below(v.len())][1..].split('=').next().unwrap().to_string();
            t.push_str(&k);
        }
        r.salt(&mut t);
        v.push(format!("I{t}"));
    }
    v
}
enum E {
    Lit(String, String),
    Rx(usize),
}
fn key(e: &E) -> String {
    match e {
        E::Lit(k, _) => k.clone(),
        E::Rx(i) => format!("\0{i}"),
    }
}
fn put(m: &mut Vec<E>, e: E) {
    match m.iter_mut().find(|x| key(x) == key(&e)) {
        Some(x) => *x = e,
        None => m.push(e),
    }
}
/// leftmost non-overlapping occurrences, by characters
fn lrep(s: &[char], p: &[char], by: &[char], hit: &mut bool) -> Vec<char> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if !p.is_empty() && s[i..].starts_with(p) {
            o.extend_from_slice(by);
            i += p.len();
            *hit = true;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}
fn cs(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn expand(text: &str, p: &[E], s: &[E], hit: &mut bool) -> String {
    let mut no = false;
    let esc = |t: &[char]| lrep(t, &['%', '%'], &[MARK], &mut false);
    let mut b = esc(&cs(text));
    let mut eff: Vec<&E> = p.iter().map(|e| s.iter().find(|x| key(x) == key(e)).unwrap_or(e)).collect();
    eff.extend(s.iter().filter(|x| !p.iter().any(|e| key(e) == key(x))));
    for e in eff {
        b = match e {
            E::Lit(k, v) => lrep(&b, &cs(k), &cs(v), hit),
            E::Rx(i) => {
                let t: String = b.iter().collect();
                let n = regex::Regex::new(RX[*i].0).unwrap().replace_all(&t, RX[*i].1).into_owned();
                *hit |= n != t;
                cs(&n)
            }
        };
        b = esc(&b);
    }
    lrep(&b, &[MARK], &['%'], &mut no).into_iter().collect()
}
/// The default substitutions of a suite put the commands in place of the words, and leave the text around them alone.
fn defaults(text: &str) -> Outcome {
    if text != "run | FileCheck a.txt" {
        return Outcome::Skip;
    }
    let t = Scratch::new();
    std::fs::write(t.path("lit.suite.toml"), "name = \"s\"\n[format.shtest]\n").unwrap();
    let config = lit::config::Config::new(vec![]);
    let suite = match lit::suite::TestSuite::parse(t.path("lit.suite.toml"), &config) {
        Ok(s) => s,
        Err(e) => return Outcome::Fail(format!("suite was rejected: {e:?}")),
    };
    let want = text.split(' ').map(|w| if w == "FileCheck" { "filecheck" } else { w }).collect::<Vec<_>>().join(" ");
    let scope = ScopedSubstitutionSet::new(&suite.config.substitutions);
    match scope.apply(Span::unknown(text)) {
        Ok(got) if got == want => Outcome::Ok(true),
        Ok(got) => Outcome::Fail(format!("with the default substitutions `{text}` became `{got}`, should be `{want}`")),
        Err(e) => Outcome::Fail(format!("`{text}` was rejected: {e}")),
    }
}
fn check(c: &Case) -> Outcome {
    if c.iter().any(|s| s.contains(['\0', MARK, '\n', '\r'])) {
        return Outcome::Skip;
    }
    let mut p: Vec<E> = vec![];
    let mut s: Vec<E> = vec![];
    let mut parent = SubstitutionSet::default();
    let mut own: Vec<(String, String)> = vec![];
    let mut text = None;
    let mut script = String::new();
    let mut cmds: Vec<(char, String, String)> = vec![];
    for f in c {
        let Some(tag) = f.chars().next() else { return Outcome::Skip };
        let rest = f[tag.len_utf8()..].to_string();
        let kv = || rest.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()));
        match tag {
            'P' | 'S' => {
                let Some((k, v)) = kv() else { return Outcome::Skip };
                if k.is_empty() {
                    return Outcome::Skip;
                }
                let (rk, rv) = (regex::escape(&k), v.replace('$', "$$"));
                if tag == 'P' {
                    parent.insert(rk, rv);
                    put(&mut p, E::Lit(k, v));
                } else {
                    own.push((rk, rv));
                    put(&mut s, E::Lit(k, v));
                }
            }
            'X' => {
                let Ok(i) = rest.parse::<usize>() else { return Outcome::Skip };
                if i >= RX.len() {
                    return Outcome::Skip;
                }
                parent.insert(RX[i].0.to_string(), RX[i].1.to_string());
                put(&mut p, E::Rx(i));
            }
            'I' => text = Some(rest),
            'F' => return defaults(&rest),
            'R' => {
                if rest.trim() != rest || rest.is_empty() || rest.ends_with('\\') || rest.contains("%(") || has_kw(&rest) {
                    return Outcome::Skip;
                }
                script += &format!("# RUN: {rest}\n");
                cmds.push(('R', rest, String::new()));
            }
            'D' | 'E' => {
                let Some((k, v)) = kv() else { return Outcome::Skip };
                let (k, v) = (k.trim().to_string(), v.trim().to_string());
                if v.ends_with('\\') || v.contains("%(") || has_kw(&v) || !regex::Regex::new(r"^%\{[_a-zA-Z][-_:0-9a-zA-Z]*\}$").unwrap().is_match(&k) {
                    return Outcome::Skip;
                }
                script += &format!("# {}: {k} = {v}\n", if tag == 'D' { "DEFINE" } else { "REDEFINE" });
                cmds.push((tag, k, v));
            }
            _ => return Outcome::Skip,
        }
    }
    let mut scope = ScopedSubstitutionSet::new(&parent);
    let n = own.len();
    let tail: Vec<_> = own.split_off(n / 2);
    scope.extend(own);
    for (k, v) in tail {
        scope.insert(k, v);
    }
    let mut hit = false;
    if let Some(t) = text {
        let want = expand(&t, &p, &s, &mut hit);
        match scope.apply(Span::unknown(t.as_str())) {
            Ok(got) if got == want => {}
            Ok(got) => return Outcome::Fail(format!("`{t}` became `{got}`, should be `{want}`")),
            Err(e) => return Outcome::Fail(format!("`{t}` was rejected: {e}")),
        }
    } else {
        if !cmds.iter().any(|c| c.0 == 'R') {
            return Outcome::Skip;
        }
        let sm = DefaultSourceManager::default();
        let src = sm.load(Default::default(), FileName::Stdin, script.clone());
        let Ok(mut ts) = TestScript::parse(src) else { return Outcome::Fail(format!("script was rejected: {script}")) };
        let mut want = vec![];
        let mut bad = false;
        for (tag, k, v) in &cmds {
            if *tag == 'R' {
                want.push(expand(k, &p, &s, &mut hit));
                continue;
            }
            let names: Vec<String> = p.iter().chain(s.iter()).map(key).collect();
            let exists = names.iter().any(|n| n == k);
            let fuzzy = names.iter().any(|n| n != k && n.contains(k.as_str()));
            if exists != (*tag == 'E') || (exists && fuzzy) {
                bad = true;
                break;
            }
            put(&mut s, E::Lit(k.clone(), v.clone()));
        }
        let got = ts.apply_substitutions(&mut scope);
        if got.is_err() != bad {
            return Outcome::Fail(format!("definitions were {}: {script}", if bad { "accepted" } else { "rejected" }));
        }
        if !bad {
            let got: Vec<String> = ts.commands.iter().filter_map(|c| if let ScriptCommand::Run(r) = c { Some(r.command.clone()) } else { None }).collect();
            if got != want {
                return Outcome::Fail(format!("commands became {got:?}, should be {want:?}"));
            }
        }
    }
    Outcome::Ok(hit)
}
fn has_kw(s: &str) -> bool {
    ["DEFINE:", "END.", "REQUIRES:", "RUN:", "UNSUPPORTED:", "XFAIL:", "ALLOWED_RETRIES:"].iter().any(|k| s.contains(k))
}
