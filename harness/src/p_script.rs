//! Test scripts against a line-by-line reading of their directives.
use crate::util::*;
use lit::config::BooleanExpr;
use lit::formats::{directives::ScriptCommand, TestScript};
use litcheck::diagnostics::{DefaultSourceManager, FileName, SourceManager};

pub static PROP: Prop = Prop {
    id: "P22",
    rule: "files of 1-8 lines: directives of every kind (well-formed, malformed, conflicting, continued over several lines, with line substitutions), near-keywords, text in front and behind, END, CRLF, no final newline, very long and non-ASCII lines; non-trivial when there are two directives or more",
    fixed,
    gen,
    check,
};
const KW: &[&str] = &["DEFINE:", "END.", "REDEFINE:", "REQUIRES:", "RUN:", "UNSUPPORTED:", "XFAIL:", "ALLOWED_RETRIES:"];

fn fixed() -> Vec<Case> {
    [
        "# RUN: a", "# RUN: a\n", "RUN: a\r\nRUN: b\r\n", "", "\n", "x", "RUN:", "RUN: a \\\nRUN: b", "RUN: a \\\nRUN: b \\\n RUN:  c\nRUN: d", "RUN: a\\", "RUN: a\\\n", "RUN: a\\\nx", "RUN: a\\\nXFAIL: *\n",
        "RUN: %(line) %(line+2) %(line - 1)\nRUN: %(line)", "\n\nRUN: x \\\nRUN: %(line)", "RUN: %(line+99999999999999999999999)", "RUN: a\nDEFINE: foo", "RUN: a\nDEFINE: %{a} = b", "RUN: a\nDEFINE: %{a}=", "RUN: a\nREDEFINE: %{a}= x = y",
        "RUN: a\nDEFINE: %{a} = b \\\nDEFINE: c \\\nDEFINE:   d", "RUN: a\nDEFINE: %a = 1", "RUN: a\nEND.\nRUN: b", "RUN: a\nEND. x\nRUN: b", "RUN: a\n// END.  \nRUN: b\nREQUIRES: )", "END.\nRUN: a",
        "RUN: a\nREQUIRES: x, y\nREQUIRES: !z\nUNSUPPORTED: a && b, c\nXFAIL: *, q", "RUN: a\nREQUIRES:", "RUN: a\nREQUIRES: a,", "RUN: a\nXFAIL: (", "RUN: a\nALLOWED_RETRIES: 3", "RUN: a\nALLOWED_RETRIES: 3\nALLOWED_RETRIES: 3", "RUN: a\nALLOWED_RETRIES: -1",
        "RUN: a\nALLOWED_RETRIES: x\nALLOWED_RETRIES: 2", "XFAIL: a RUN: b", "RUN: echo XFAIL: a", "REREDEFINE: RUN: x", "RUN: é \u{a0}\u{2003}", "aRUN: b", "RUN : b\nRUN: c", "run: b\nRUN: c",
    ]
    .iter()
    .map(|s| vec![s.to_string()])
    .collect()
}
fn gen(r: &mut Rng) -> Case {
    let mut t = String::new();
    let n = r.range(1, 8);
    let eol = if r.chance(1, 5) { "\r\n" } else { "\n" };
    let mut cont: Option<&str> = None;
    for i in 0..n {
        let mut l = String::new();
        l += r.pick::<&str>(&["", "", "# ", "; ", "// ", "foo ", "é", "%", "END", "a,b "]);
        let k: &str = match cont {
            Some(k) if r.chance(9, 10) => k,
            _ => *r.pick(&["RUN:", "RUN:", "RUN:", "DEFINE:", "REDEFINE:", "REQUIRES:", "UNSUPPORTED:", "XFAIL:", "ALLOWED_RETRIES:", "END.", "", "RUN", "XRUN:", "CHECK:", "END", "END. "]),
        };
        l += k;
        l += r.pick::<&str>(&[" ", " ", "", "  ", "\t", "\u{a0}"]);
        let frag = |r: &mut Rng| -> String {
            let xs: &[&str] = &["a", "b c", "%s", "é", "%(line)", "%(line+1)", "%(line + 12)", "%(line-1)", "%(line", "%(linex)", "&&", "x|y", "$v", "'q'", "\\", "\\ d", "=", "%{a}", ",", ":", "RUN:", "XFAIL:", " ", "\t"];
            (0..r.range(0, 4)).map(|_| *r.pick(xs)).collect()
        };
        match k {
            "DEFINE:" | "REDEFINE:" if cont.is_none() => {
                if r.chance(8, 10) {
                    l += r.pick::<&str>(&["%{a}", "%{b:1}", "%{_}", "%{1}", "%a", "x", ""]);
                    l += r.pick::<&str>(&["=", " = ", " =", " "]);
                }
                l += &frag(r);
            }
            "REQUIRES:" | "UNSUPPORTED:" | "XFAIL:" => {
                for j in 0..r.range(1, 3) {
                    if j > 0 {
                        l += r.pick::<&str>(&[",", ", ", " , "]);
                    }
                    l += r.pick::<&str>(&["a", "b", "!a", "a && b", "a||b", "(a)", "*", "{{x.*}}-y", "true", "", "(", "a b", "é", "**", "a,"]);
                }
            }
            "ALLOWED_RETRIES:" => l += r.pick::<&str>(&["0", "1", " 7 ", "x", "", "-1", "1 2", "18446744073709551616"]),
            "END." => l += r.pick::<&str>(&["", "", " ", "x", "\t"]),
            _ => l += &frag(r),
        }
        if r.chance(1, 12) {
            r.salt(&mut l);
        }
        l += r.pick::<&str>(&["", "", "", " ", "  \t"]);
        if r.chance(1, 4) && !k.is_empty() {
            l += "\\";
            cont = KW.iter().copied().find(|w| *w == k);
        } else {
            cont = None;
        }
        t += &l.replace(['\n', '\r'], "");
        if i + 1 < n || r.chance(3, 4) {
            t += eol;
        }
    }
    vec![t]
}

#[derive(Debug, PartialEq, Clone)]
enum Cmd {
    Run(usize, String),
    Sub(usize, String, String, bool),
}
#[derive(Debug, PartialEq, Default)]
struct Out {
    cmds: Vec<Cmd>,
    req: Vec<String>,
    uns: Vec<String>,
    xf: Vec<String>,
    retries: Option<usize>,
}
enum Stop {
    Err,
    Skip,
}
fn dir(l: &str) -> Option<(&'static str, String)> {
    let cs: Vec<char> = l.chars().collect();
    for i in 0..cs.len() {
        for k in KW {
            let kc: Vec<char> = k.chars().collect();
            if cs[i..].starts_with(&kc) {
                return Some((k, cs[i + kc.len()..].iter().collect()));
            }
        }
    }
    None
}
fn trim_start(s: &str) -> String {
    s.chars().skip_while(|c| c.is_whitespace()).collect()
}
fn trim_end(s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    while v.last().is_some_and(|c| c.is_whitespace()) {
        v.pop();
    }
    v.into_iter().collect()
}
fn lines_of(t: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in t.chars() {
        if c == '\n' {
            v.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v.into_iter().map(|l| l.strip_suffix('\r').map(|x| x.to_string()).unwrap_or(l)).collect()
}
/// `%(line)`, `%(line+n)`, `%(line-n)`
fn lnum(s: &str, line: usize, err: &mut bool) -> Result<String, Stop> {
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        let p: Vec<char> = "%(line".chars().collect();
        if cs[i..].starts_with(&p) {
            let mut j = i + p.len();
            if cs.get(j) == Some(&')') {
                o += &line.to_string();
                i = j + 1;
                continue;
            }
            while cs.get(j) == Some(&' ') {
                j += 1;
            }
            if let Some(sg @ ('+' | '-')) = cs.get(j).copied() {
                j += 1;
                while cs.get(j) == Some(&' ') {
                    j += 1;
                }
                let mut d = String::new();
                while cs.get(j).is_some_and(|c| c.is_numeric()) {
                    if !cs[j].is_ascii_digit() {
                        return Err(Stop::Skip);
                    }
                    d.push(cs[j]);
                    j += 1;
                }
                if !d.is_empty() && cs.get(j) == Some(&')') {
                    match d.parse::<usize>() {
                        Ok(n) if sg == '+' && n <= 1 << 40 => o += &(line + n).to_string(),
                        Ok(n) if sg == '-' && n <= line => o += &(line - n).to_string(),
                        Ok(_) => return Err(Stop::Skip),
                        Err(_) => *err = true,
                    }
                    i = j + 1;
                    continue;
                }
            }
        }
        o.push(cs[i]);
        i += 1;
    }
    Ok(o)
}
fn model(t: &str) -> Result<Out, Stop> {
    let ls = lines_of(t);
    let mut out = Out::default();
    let mut err = false;
    let mut had_retries = false;
    let mut i = 0;
    while i < ls.len() {
        let start = i + 1;
        let Some((k, c)) = dir(&ls[i]) else {
            i += 1;
            continue;
        };
        i += 1;
        match k {
            "END." => {
                if trim_end(&c).is_empty() {
                    break;
                }
                if dir(&c).is_some() {
                    return Err(Stop::Skip);
                }
            }
            "RUN:" | "DEFINE:" | "REDEFINE:" => {
                let run = k == "RUN:";
                let mut parts = vec![];
                let mut c = c;
                let mut first = true;
                loop {
                    let more = c.ends_with('\\');
                    if !more && trim_end(&c).ends_with('\\') {
                        return Err(Stop::Skip); // white space behind the backslash
                    }
                    let mut b = if more { c[..c.len() - 1].to_string() } else { trim_end(&c) };
                    if first || !run {
                        b = trim_start(&b);
                    }
                    first = false;
                    parts.push(lnum(&b, i, &mut err)?);
                    if !more {
                        break;
                    }
                    if i == ls.len() {
                        err = true;
                        break;
                    }
                    c = match dir(&ls[i]) {
                        Some((k2, c2)) => {
                            err |= k2 != k;
                            c2
                        }
                        None => {
                            err = true;
                            ls[i].clone()
                        }
                    };
                    i += 1;
                }
                if run {
                    out.cmds.push(Cmd::Run(start, parts.concat()));
                } else {
                    let v = parts.join(" ");
                    let kv = v.split_once('=').map(|(a, b)| (a.trim().to_string(), b.split_whitespace().collect::<Vec<_>>().join(" ")));
                    match kv {
                        Some((a, b)) if key_ok(&a) => out.cmds.push(Cmd::Sub(start, a, b, k == "REDEFINE:")),
                        _ => err = true,
                    }
                }
            }
            "ALLOWED_RETRIES:" => {
                if had_retries {
                    err = true;
                } else {
                    match c.trim().parse::<usize>() {
                        Ok(n) => {
                            out.retries = Some(n);
                            had_retries = true;
                        }
                        Err(_) => err = true,
                    }
                }
            }
            _ => {
                for e in c.split(',') {
                    let e = e.trim();
                    let s = if e == "*" {
                        Ok(BooleanExpr::Lit(true))
                    } else {
                        e.parse::<BooleanExpr>()
                    };
                    match s {
                        Ok(x) => match k {
                            "REQUIRES:" => out.req.push(format!("{x:?}")),
                            "UNSUPPORTED:" => out.uns.push(format!("{x:?}")),
                            _ => out.xf.push(format!("{x:?}")),
                        },
                        Err(_) => err = true,
                    }
                }
            }
        }
    }
    if err || !out.cmds.iter().any(|c| matches!(c, Cmd::Run(..))) {
        return Err(Stop::Err);
    }
    Ok(out)
}
fn key_ok(k: &str) -> bool {
    let Some(n) = k.strip_prefix("%{").and_then(|k| k.strip_suffix('}')) else { return false };
    let mut cs = n.chars();
    cs.next().is_some_and(|c| c == '_' || c.is_ascii_alphabetic()) && cs.all(|c| c.is_ascii_alphanumeric() || "-_:".contains(c))
}
fn check(c: &Case) -> Outcome {
    let t = &c[0];
    if c.len() != 1 || t.replace("\r\n", "").contains('\r') {
        return Outcome::Skip;
    }
    let want = match model(t) {
        Err(Stop::Skip) => return Outcome::Skip,
        Err(Stop::Err) => None,
        Ok(o) => Some(o),
    };
    let sm = DefaultSourceManager::default();
    let src = sm.load(Default::default(), FileName::Stdin, t.clone());
    let got = TestScript::parse(src).ok().map(|s| Out {
        cmds: s
            .commands
            .iter()
            .map(|c| match c {
                ScriptCommand::Run(r) => Cmd::Run(r.line, r.command.replace("\\\n", "")),
                ScriptCommand::Substitution(d) => Cmd::Sub(d.line, d.key.clone(), d.value.split_whitespace().collect::<Vec<_>>().join(" "), d.replace),
            })
            .collect(),
        req: s.requires.iter().map(|e| format!("{:?}", &**e)).collect(),
        uns: s.unsupported.iter().map(|e| format!("{:?}", &**e)).collect(),
        xf: s.xfails.iter().map(|e| format!("{:?}", &**e)).collect(),
        retries: s.allowed_retries.map(|r| r.into_inner()),
    });
    if got != want {
        return Outcome::Fail(format!("read as {got:?}, should be {want:?} (None: rejected)"));
    }
    Outcome::Ok(lines_of(t).iter().filter(|l| dir(l).is_some()).count() > 1)
}
