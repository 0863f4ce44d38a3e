//! Reference semantics of check files, written from the FileCheck documentation and the
//! property statements: directives are applied to the input as a mathematical relation between
//! positions, with `regex` as the only shared notion (what a single pattern matches).
use crate::util::*;
use filecheck::{Config, Test};
use litcheck::diagnostics::{FileName, SourceLanguage, SourceManager};
use regex_automata::{meta::Regex, util::syntax, Input};

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Plain,
    Count(usize),
    Next,
    Same,
    Empty,
    Not,
    Dag,
    Label,
}
#[derive(Clone, Debug)]
pub enum Part {
    Lit(String),
    Re(String),
}
#[derive(Clone, Debug)]
pub struct Dir {
    pub kind: Kind,
    pub parts: Vec<Part>,
    pub line: usize,
}

pub fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'-'
}

/// strict subset of the check file syntax; None = outside the model
pub fn parse(text: &str) -> Option<Vec<Dir>> {
    let mut out = vec![];
    for (ln, line) in text.lines().enumerate() {
        if line.is_empty() {
            continue;
        }
        let rest = line.strip_prefix("CHECK")?;
        let (suffix, pat) = rest.split_once(':')?;
        let kind = match suffix {
            "" => Kind::Plain,
            "-NEXT" => Kind::Next,
            "-SAME" => Kind::Same,
            "-EMPTY" => Kind::Empty,
            "-NOT" => Kind::Not,
            "-DAG" => Kind::Dag,
            "-LABEL" => Kind::Label,
            s => Kind::Count(s.strip_prefix("-COUNT-")?.parse().ok().filter(|n| *n >= 1 && *n <= 50)?),
        };
        let pat = pat.trim_matches(|c| c == ' ' || c == '\t');
        if kind == Kind::Empty {
            if !pat.is_empty() {
                return None;
            }
            out.push(Dir { kind, parts: vec![], line: ln });
            continue;
        }
        let mut parts = vec![];
        let mut p = pat;
        while !p.is_empty() {
            if let Some(r) = p.strip_prefix("{{") {
                let e = r.find("}}")?;
                if e == 0 || r[..e].contains(['{', '}', '[', ']']) && Regex::new(&r[..e]).is_err() {
                    return None;
                }
                Regex::new(&r[..e]).ok()?;
                parts.push(Part::Re(r[..e].to_string()));
                p = &r[e + 2..];
            } else {
                let e = p.find("{{").unwrap_or(p.len());
                if p[..e].contains(['{', '}', '[', ']', '#', '\\']) {
                    return None;
                }
                parts.push(Part::Lit(p[..e].to_string()));
                p = &p[e..];
            }
        }
        if parts.is_empty() {
            return None;
        }
        out.push(Dir { kind, parts, line: ln });
    }
    Some(out)
}

pub fn regex_of(parts: &[Part], may_be_empty: bool) -> Option<Regex> {
    let mut s = String::new();
    for p in parts {
        match p {
            Part::Lit(l) => s.push_str(&regex::escape(l)),
            Part::Re(r) => {
                s.push_str("(?:");
                s.push_str(r);
                s.push(')');
            }
        }
    }
    let r = Regex::builder().syntax(syntax::Config::new().multi_line(true).utf8(false)).build(&s).ok()?;
    if !may_be_empty && r.is_match("") {
        return None; // patterns that match the empty string are outside the model
    }
    Some(r)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Span(pub usize, pub usize);

/// leftmost match of `r` within text[lo..hi); look-around sees the whole text
pub fn find(r: &Regex, t: &[u8], lo: usize, hi: usize) -> Option<Span> {
    if lo > hi {
        return None;
    }
    r.find(Input::new(t).range(lo..hi)).map(|m| Span(m.start(), m.end()))
}
pub fn next_nl(t: &[u8], from: usize, hi: usize) -> usize {
    (from..hi).find(|&i| t[i] == b'\n').unwrap_or(hi)
}

/// Some(matches in directive order) iff the input satisfies the directives.
/// Err: outside the model.
pub fn model(dirs: &[Dir], t: &[u8], hint: Option<&[Vec<Span>]>) -> Result<Option<Vec<Vec<Span>>>, ()> {
    if dirs.is_empty() || t.is_empty() {
        return Err(());
    }
    let mut res = vec![];
    for d in dirs {
        res.push(if d.kind == Kind::Empty { None } else { Some(regex_of(&d.parts, matches!(d.kind, Kind::Next | Kind::Same | Kind::Not)).ok_or(())?) });
    }
    // label lines split the input into regions
    let mut regions: Vec<(usize, usize, usize)> = vec![]; // (first directive, lo, hi)
    let mut spans: Vec<Vec<Span>> = vec![vec![]; dirs.len()];
    let (mut lo, mut first) = (0, 0);
    for (i, d) in dirs.iter().enumerate() {
        if d.kind == Kind::Label {
            let Some(m) = find(res[i].as_ref().unwrap(), t, lo, t.len()) else { return Ok(None) };
            spans[i].push(m);
            let sol = (0..m.0).rev().find(|&k| t[k] == b'\n').unwrap_or(0);
            regions.push((first, lo, sol.max(lo)));
            lo = next_nl(t, m.0, t.len());
            if m.1 > lo {
                return Err(()); // a label pattern spanning lines
            }
            first = i + 1;
        }
    }
    regions.push((first, lo, t.len()));
    let mut ok = true;
    for (ri, (first, lo, hi)) in regions.iter().enumerate() {
        let last = regions.get(ri + 1).map(|r| r.0 - 1).unwrap_or(dirs.len());
        ok &= region(&dirs[*first..last], &res[*first..last], t, *lo, *hi, &mut spans[*first..last], ri > 0, hint.map(|h| &h[*first..last]))?;
    }
    Ok(ok.then_some(spans))
}

fn region(dirs: &[Dir], res: &[Option<Regex>], t: &[u8], lo: usize, hi: usize, spans: &mut [Vec<Span>], after_label: bool, hint: Option<&[Vec<Span>]>) -> Result<bool, ()> {
    let mut pos = lo;
    let mut nots: Vec<usize> = vec![];
    let mut i = 0;
    // a dependent directive needs something to depend on
    let mut anchored = after_label;
    while i < dirs.len() {
        let d = &dirs[i];
        let prev = pos;
        let m: Span = match d.kind {
            Kind::Label => return Err(()),
            Kind::Not => {
                nots.push(i);
                i += 1;
                continue;
            }
            Kind::Plain => match find(res[i].as_ref().unwrap(), t, pos, hi) {
                Some(m) => m,
                None => return Ok(false),
            },
            Kind::Count(n) => {
                let mut p = pos;
                let mut firstm = None;
                for _ in 0..n {
                    match find(res[i].as_ref().unwrap(), t, p, hi) {
                        Some(m) => {
                            firstm.get_or_insert(m.0);
                            spans[i].push(m);
                            p = m.1;
                        }
                        None => return Ok(false),
                    }
                }
                spans[i].pop();
                Span(firstm.unwrap(), p)
            }
            Kind::Next | Kind::Empty | Kind::Same if !anchored => return Err(()),
            Kind::Next => {
                let nl = next_nl(t, pos, hi);
                if nl == hi {
                    return Ok(false);
                }
                let (a, b) = (nl + 1, next_nl(t, nl + 1, hi));
                match find(res[i].as_ref().unwrap(), t, a, b) {
                    Some(m) => m,
                    None => return Ok(false),
                }
            }
            Kind::Same => match find(res[i].as_ref().unwrap(), t, pos, next_nl(t, pos, hi)) {
                Some(m) => m,
                None => return Ok(false),
            },
            Kind::Empty => {
                // the previous match ends its line and the line after that is empty
                if pos < hi && t[pos] == b'\n' && (pos + 1 == hi || t[pos + 1] == b'\n') {
                    Span(pos + 1, pos + 1)
                } else {
                    return Ok(false);
                }
            }
            Kind::Dag => {
                let mut j = i;
                while j < dirs.len() && dirs[j].kind == Kind::Dag {
                    j += 1;
                }
                // in order, each at the first place clear of the earlier ones
                let mut taken: Vec<Span> = vec![];
                for k in i..j {
                    match first_free(res[k].as_ref().unwrap(), t, pos, hi, &taken) {
                        Some(m) => taken.push(m),
                        None => break,
                    }
                }
                if taken.len() < j - i {
                    // the order need not be the one of the directives: accept any way to do it
                    let Some(h) = hint else { return Ok(false) };
                    taken.clear();
                    for k in i..j {
                        let &[m] = &h[k][..] else { return Ok(false) };
                        if m.0 < pos || m.1 > hi || find(res[k].as_ref().unwrap(), t, m.0, m.1) != Some(m) {
                            return Ok(false);
                        }
                        if taken.iter().any(|s| m.0 < s.1 && s.0 < m.1) {
                            return Ok(false);
                        }
                        taken.push(m);
                    }
                }
                for k in i..j {
                    spans[k].push(taken[k - i]);
                }
                let a = taken.iter().map(|s| s.0).min().unwrap();
                let b = taken.iter().map(|s| s.1).max().unwrap();
                // NOTs before the group end where the group begins
                for n in nots.drain(..) {
                    if find(res[n].as_ref().unwrap(), t, prev, a).is_some() {
                        return Ok(false);
                    }
                }
                pos = b;
                anchored = true;
                i = j;
                continue;
            }
        };
        for n in nots.drain(..) {
            if find(res[n].as_ref().unwrap(), t, prev, m.0).is_some() {
                return Ok(false);
            }
        }
        if let Kind::Count(_) = d.kind {
            // the last match of the run
            let st = find(res[i].as_ref().unwrap(), t, spans[i].last().map(|s| s.1).unwrap_or(prev), hi).unwrap();
            spans[i].push(st);
        } else {
            spans[i].push(m);
        }
        pos = m.1;
        anchored = true;
        i += 1;
    }
    for n in nots {
        if find(res[n].as_ref().unwrap(), t, pos, hi).is_some() {
            return Ok(false);
        }
    }
    Ok(true)
}

/// the first match of `r` in t[lo..hi) that lies between the taken spans
fn first_free(r: &Regex, t: &[u8], lo: usize, hi: usize, taken: &[Span]) -> Option<Span> {
    let mut ts = taken.to_vec();
    ts.sort_by_key(|s| (s.0, s.1));
    let mut p = lo;
    for s in ts {
        if let Some(m) = find(r, t, p, s.0) {
            return Some(m);
        }
        p = s.1;
    }
    find(r, t, p, hi)
}

/// run the real thing: the matches as (line of the directive, span)
pub fn real(checks: &str, input: &str, setup: impl FnOnce(&mut Config)) -> Result<Vec<(usize, Span)>, String> {
    let mut config = Config::default();
    setup(&mut config);
    let m = config.source_manager.load(SourceLanguage::Unknown, FileName::from("checks"), checks.to_string());
    let i = config.source_manager.load(SourceLanguage::Unknown, FileName::from("input"), input.to_string());
    let mut t = Test::new(m, &config);
    match t.verify(i) {
        Ok(ms) => Ok(ms
            .iter()
            .map(|m| {
                let line = checks.as_bytes()[..m.pattern_span.start().to_usize().min(checks.len())].iter().filter(|b| **b == b'\n').count();
                (line, Span(m.span.start().to_usize(), m.span.end().to_usize()))
            })
            .collect()),
        Err(e) => Err(format!("{e}")),
    }
}

pub fn compare(c: &Case) -> Outcome {
    let (checks, input) = (&c[0], &c[1]);
    let got = real(checks, input, |_| {}); // must not panic, in or outside of the model
    let Some(dirs) = parse(checks) else { return Outcome::Skip };
    let hint = got.as_ref().ok().map(|g| {
        let mut h = vec![vec![]; dirs.len()];
        for (line, s) in g {
            if let Some(d) = dirs.iter().position(|d| d.line == *line) {
                h[d].push(*s);
            }
        }
        h
    });
    let Ok(want) = model(&dirs, input.as_bytes(), hint.as_deref()) else { return Outcome::Skip };
    let sorted = |v: Vec<Span>| {
        let mut v = v;
        v.sort_by_key(|s| (s.0, s.1));
        v
    };
    match (want, got) {
        (None, Err(_)) => Outcome::Ok(dirs.len() > 1),
        (Some(w), Ok(g)) => {
            // one match per directive, n for a CHECK-COUNT-n, none for a CHECK-NOT
            let n = w.iter().map(|s| s.len()).sum::<usize>();
            let h: Vec<Vec<Span>> = hint.unwrap().into_iter().map(sorted).collect();
            let w: Vec<Vec<Span>> = w.into_iter().map(sorted).collect();
            let lines_ok = dirs.iter().zip(&w).zip(&h).all(|((d, w), h)| d.kind == Kind::Empty || w == h);
            let all_ok = sorted(g.iter().map(|x| x.1).collect()) == sorted(w.concat());
            if g.len() == n && lines_ok && all_ok {
                Outcome::Ok(true)
            } else {
                Outcome::Fail(format!("passes, matching {g:?}; the directives match {w:?}"))
            }
        }
        (None, Ok(g)) => Outcome::Fail(format!("passes (matching {g:?}) although the input does not satisfy the directives")),
        (Some(w), Err(e)) => Outcome::Fail(format!("fails ({e}) although the input satisfies the directives, at {w:?}")),
    }
}

// ------------------------------------------------------------------ generators
pub fn gen_line(r: &mut Rng) -> String {
    let words = ["a", "b", "ab", "foo", "bar", "x1", "x2", "foobar", "ba", "é"];
    let n = r.below(4);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(r.pick(&words));
    }
    s
}
pub fn gen_input(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    let mut s = String::new();
    for i in 0..n {
        s.push_str(&gen_line(r));
        if i + 1 < n || r.chance(4, 5) {
            s.push('\n');
        }
    }
    if s.is_empty() {
        s.push('\n');
    }
    s
}
pub fn gen_pat(r: &mut Rng, input: &str) -> String {
    if r.chance(2, 3) {
        // a piece of the input, so that checks are likely to match
        let ls: Vec<&str> = input.lines().filter(|l| !l.is_empty()).collect();
        if !ls.is_empty() {
            let l = r.pick(&ls);
            let ws: Vec<&str> = l.split(' ').collect();
            let a = r.below(ws.len());
            let b = r.range(a, (a + 1).min(ws.len() - 1));
            let mut s = ws[a..=b].join(" ");
            if r.chance(1, 4) && s.len() > 1 && s.is_ascii() {
                s = s[..r.range(1, s.len())].trim().to_string();
            }
            if !s.is_empty() {
                if r.chance(1, 5) {
                    return format!("{{{{{}}}}}", s.replace('1', "[0-9]").replace('2', "[0-9]+"));
                }
                return s;
            }
        }
    }
    r.pick(&["a", "b", "foo", "bar", "x{{[0-9]}}", "{{fo+}}", "{{a|b}}", "{{[a-b]+}}", "{{x[0-9]}} ", "zz", "ba{{r?}}", "{{.}}o", "x2", "foo bar", "{{^}}a", "r{{$}}", "{{^$}}", "{{o*$}}", "{{[^a]}}x", "{{[^b]+}}", "f{{o|a}}o", "b{{a|x}}", "é", "{{ +}}b", "o{{ }}"]).to_string()
}
pub fn gen_checks(r: &mut Rng, input: &str, first: &[&str], kinds: &[&str], max: usize) -> String {
    let n = r.range(1, max);
    let mut s = String::new();
    for i in 0..n {
        let k = if i == 0 { *r.pick(first) } else { *r.pick(kinds) };
        if k == "-EMPTY" {
            s.push_str("CHECK-EMPTY:\n");
            continue;
        }
        let k = if k == "-COUNT" { format!("-COUNT-{}", r.range(1, 3)) } else { k.to_string() };
        s.push_str(&format!("CHECK{k}: {}\n", gen_pat(r, input)));
    }
    s
}

macro_rules! fc_prop {
    ($name:ident, $gen:ident, $id:literal, $first:expr, $kinds:expr, $rule:literal) => {
        pub static $name: Prop = Prop { id: $id, rule: $rule, fixed: || vec![], gen: $gen, check: compare };
        fn $gen(r: &mut Rng) -> Case {
            let input = gen_input(r, 8);
            let checks = gen_checks(r, &input, $first, $kinds, 6);
            vec![checks, input]
        }
    };
}
fc_prop!(P01, gen01, "P01", &["", "-COUNT"], &["", "", "", "-COUNT"], "ordered");
fc_prop!(P02, gen02, "P02", &["", "", "-COUNT"], &["", "-NEXT", "-SAME", "-EMPTY", "-NEXT"], "lines");
fc_prop!(P03, gen03, "P03", &["", "-LABEL"], &["", "-LABEL", "-LABEL", "-NEXT", "-SAME", "-COUNT", "-EMPTY", "-NOT", "-DAG"], "labels");
fc_prop!(P04, gen04, "P04", &["-DAG", "-DAG", ""], &["-DAG", "-DAG", "-DAG", "", "-COUNT", "-NEXT", "-NOT"], "dag");
fc_prop!(P05, gen05, "P05", &["", "-NOT", "-DAG"], &["-NOT", "-NOT", "", "-NEXT", "-LABEL", "-DAG"], "not");
