//! Feature expressions: the documented grammar and its boolean semantics, written independently.
use crate::util::*;
use lit::config::BooleanExpr;
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "P16",
    rule: "expression text over feature names, literals, regexes, operators, parentheses, spaces and stray characters (all token strings of length <= 5 over a 9-token alphabet, then random ones), evaluated under every subset of the mentioned names; non-trivial when the oracle accepts the text",
    fixed,
    gen,
    check,
};

#[derive(Clone, Debug)]
enum E {
    Lit(bool),
    Var(String),
    Pat(regex::Regex),
    Not(Box<E>),
    And(Box<E>, Box<E>),
    Or(Box<E>, Box<E>),
}
#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Re(String),
    And,
    Or,
    Not,
    L,
    R,
}

fn lex(s: &str) -> Option<Vec<T>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let word = |c: char| c.is_ascii_alphanumeric() || "-+=._".contains(c);
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if word(c[i]) {
            let s = i;
            while i < c.len() && word(c[i]) {
                i += 1;
            }
            out.push(T::Id(c[s..i].iter().collect()));
        } else if c[i..].starts_with(&['&', '&']) {
            out.push(T::And);
            i += 2;
        } else if c[i..].starts_with(&['|', '|']) {
            out.push(T::Or);
            i += 2;
        } else if c[i..].starts_with(&['{', '{']) {
            let s = i + 2;
            let mut e = s;
            while e < c.len() && c[e] != '}' {
                e += 1;
            }
            if e + 1 >= c.len() || c[e + 1] != '}' || e == s {
                return None;
            }
            out.push(T::Re(c[s..e].iter().collect()));
            i = e + 2;
        } else {
            out.push(match c[i] {
                '!' => T::Not,
                '(' => T::L,
                ')' => T::R,
                _ => return None,
            });
            i += 1;
        }
    }
    Some(out)
}
struct P {
    t: Vec<T>,
    i: usize,
}
impl P {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn or(&mut self) -> Option<E> {
        let mut l = self.and()?;
        while self.peek() == Some(&T::Or) {
            self.i += 1;
            l = E::Or(Box::new(l), Box::new(self.and()?));
        }
        Some(l)
    }
    fn and(&mut self) -> Option<E> {
        let mut l = self.not()?;
        while self.peek() == Some(&T::And) {
            self.i += 1;
            l = E::And(Box::new(l), Box::new(self.not()?));
        }
        Some(l)
    }
    fn not(&mut self) -> Option<E> {
        match self.peek()? {
            T::Not => {
                self.i += 1;
                Some(E::Not(Box::new(self.not()?)))
            }
            T::L => {
                self.i += 1;
                let e = self.or()?;
                if self.peek() != Some(&T::R) {
                    return None;
                }
                self.i += 1;
                Some(e)
            }
            T::Id(_) | T::Re(_) => {
                let mut parts = vec![];
                while let Some(T::Id(_) | T::Re(_)) = self.peek() {
                    parts.push(self.t[self.i].clone());
                    self.i += 1;
                }
                if parts.iter().all(|p| matches!(p, T::Id(_))) {
                    if parts.len() != 1 {
                        return None;
                    }
                    let T::Id(n) = &parts[0] else { unreachable!() };
                    return Some(match n.as_str() {
                        "true" => E::Lit(true),
                        "false" => E::Lit(false),
                        _ => E::Var(n.clone()),
                    });
                }
                let mut r = String::new();
                for p in &parts {
                    match p {
                        T::Id(s) => r.push_str(&regex::escape(s)),
                        T::Re(s) => {
                            r.push_str("(?:");
                            r.push_str(s);
                            r.push(')');
                        }
                        _ => unreachable!(),
                    }
                }
                // each regex must be valid on its own inside its group
                regex::Regex::new(&r).ok()?;
                // a term stands for the features it matches from end to end
                regex::Regex::new(&format!("^(?:{r})$")).ok().map(E::Pat)
            }
            _ => None,
        }
    }
}
fn oracle(s: &str) -> Option<E> {
    let mut p = P { t: lex(s)?, i: 0 };
    let e = p.or()?;
    (p.i == p.t.len()).then_some(e)
}
fn eval(e: &E, env: &BTreeSet<String>) -> bool {
    match e {
        E::Lit(b) => *b,
        E::Var(v) => env.contains(v),
        E::Pat(r) => env.iter().any(|v| r.is_match(v)),
        E::Not(a) => !eval(a, env),
        E::And(a, b) => {
            let (x, y) = (eval(a, env), eval(b, env));
            x & y
        }
        E::Or(a, b) => {
            let (x, y) = (eval(a, env), eval(b, env));
            x | y
        }
    }
}

fn check(c: &Case) -> Outcome {
    let s = &c[0];
    if s.contains('\0') || c.len() < 2 {
        return Outcome::Skip;
    }
    let want = oracle(s);
    let got = s.parse::<BooleanExpr>();
    match (&want, &got) {
        (None, Err(_)) => return Outcome::Ok(false),
        (None, Ok(e)) => return Outcome::Fail(format!("accepted although the grammar does not derive it, as {e}")),
        (Some(e), Err(x)) => return Outcome::Fail(format!("rejected ({x}) although it denotes {e:?}")),
        _ => {}
    }
    let (want, got) = (want.unwrap(), got.unwrap());
    let names: Vec<&str> = c[1].split(',').filter(|x| !x.is_empty()).take(5).collect();
    for m in 0..(1usize << names.len()) {
        let env: BTreeSet<String> = names.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, n)| n.to_string()).collect();
        let w = eval(&want, &env);
        let g = got.evaluate(&env);
        let v: Vec<String> = env.iter().cloned().collect();
        let g2 = got.evaluate(&v);
        let mut fs = lit::config::FeatureSet::default();
        for f in &v {
            fs.insert(std::borrow::Cow::Owned(f.clone()));
        }
        let g3 = got.evaluate(&fs);
        if g != w || g2 != w || g3 != w {
            return Outcome::Fail(format!("under {env:?} evaluates to {g}/{g2}/{g3}, but denotes {w}"));
        }
    }
    Outcome::Ok(true)
}

fn fixed() -> Vec<Case> {
    let al = ["a", "b", "true", "{{a|c}}", "&&", "||", "!", "(", ")"];
    let mut out = vec![];
    let mut idx: Vec<Vec<usize>> = vec![vec![]];
    for len in 0..=5 {
        for v in &idx {
            let s: Vec<&str> = v.iter().map(|&i| al[i]).collect();
            out.push(vec![s.join(" "), "a,b,c".to_string()]);
        }
        if len < 5 {
            idx = idx.iter().flat_map(|v| (0..al.len()).map(move |i| { let mut w = v.clone(); w.push(i); w })).collect();
        }
    }
    // terms match features from end to end, whichever alternative a search would prefer; literals are exact
    for s in ["{{b}}", "{{a|ab}}", "{{ab|a}}c", "{{b}}c", "a{{b?}}", "{{a|ab}}{{c?}}", "!{{b}}", "{{b|}}", "{{^a}}", "{{a$}}", "{{(?i)A}}", "{{B}}"] {
        out.push(vec![s.into(), "abc,ab,a,xa,ax".into()]);
        out.push(vec![s.into(), "abc,xab".into()]);
    }
    for s in ["True", "TRUE", "tRue", "False", "FALSE", "fALSE", "true1", "true.", "-true", "{{true}}", "{{false}}", "true{{}}", "tru{{e}}", "yes", "no", "on", "off", "1", "0", "all", "none", "A", "!True", "!FALSE"] {
        out.push(vec![s.into(), "True,TRUE,true1,a".into()]);
        out.push(vec![s.into(), "FALSE,false,true,1,0".into()]);
        out.push(vec![s.into(), "yes,no,on,off,all".into()]);
    }
    for s in ["{a}}", "{{a}", "{{a}}}", "{{}}", "{}", "a{{b}}c", "{{[}}", "é", "a é", "{{é}}", "a&b", "a&", "|", "a{{.}}", "{{a}}{{b}}", "a b{{c}}", "!!!a", "\ta\n&&\u{3000}b", "{{a(}}", "{{a)}}(b", "{{a}}.b"] {
        out.push(vec![s.into(), "a,b,c,ab,abc".into()]);
    }
    out
}

fn gen(r: &mut Rng) -> Case {
    let names = ["a", "b", "ab", "x86_64-linux", "no-a", "a=b.c", "+v", "true1", "false", "true", "arm", "True", "FALSE", "A", "abc"];
    let mut s = String::new();
    if r.chance(3, 4) {
        // mostly well formed
        fn expr(r: &mut Rng, d: usize, names: &[&str], s: &mut String) {
            let sp = |r: &mut Rng, s: &mut String| {
                for _ in 0..r.below(3) {
                    s.push(*r.pick(&[' ', ' ', '\t']));
                }
            };
            sp(r, s);
            match if d == 0 { r.below(3) } else { r.below(9) } {
                0 | 1 => s.push_str(r.pick(names)),
                2 => {
                    if r.chance(1, 2) {
                        s.push_str(r.pick(names));
                    }
                    s.push_str(r.pick(&["{{a.*}}", "{{.}}", "{{^a}}", "{{a|b}}", "{{linux$}}", "{{[ab]+}}", "{{a|b}}{{c?}}", "{{x(86|64)}}"]));
                    if r.chance(1, 3) {
                        s.push_str(r.pick(names));
                    }
                }
                3 => {
                    s.push('!');
                    expr(r, d - 1, names, s);
                }
                4 => {
                    s.push('(');
                    expr(r, d - 1, names, s);
                    s.push(')');
                }
                5 | 6 => {
                    expr(r, d - 1, names, s);
                    s.push_str("&&");
                    expr(r, d - 1, names, s);
                }
                _ => {
                    expr(r, d - 1, names, s);
                    s.push_str("||");
                    expr(r, d - 1, names, s);
                }
            }
            sp(r, s);
        }
        let d = r.range(1, 5);
        expr(r, d, &names, &mut s);
        if r.chance(1, 6) && !s.is_empty() {
            let cs: Vec<char> = s.chars().collect();
            let k = r.below(cs.len());
            s = cs.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, c)| *c).collect();
        }
    } else {
        for _ in 0..r.range(1, 12) {
            s.push_str(r.pick(&["a", "b", " ", "&&", "||", "!", "(", ")", "{{", "}}", "&", "|", "{", "}", "#", "é", "true", "-", ".", "{{a}}"]));
        }
    }
    r.salt(&mut s);
    let mut ns = vec![];
    for _ in 0..5 {
        ns.push(*r.pick(&names));
    }
    vec![s, ns.join(",")]
}
