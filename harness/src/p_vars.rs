//! Reference semantics of variables and numeric blocks (P06, P07, P08), written from the
//! FileCheck documentation and the property statements. A pattern is matched part by part at
//! every start position in turn; the model covers patterns whose variable-length blocks are
//! followed by a literal they cannot extend into, so that there is one way to match.
use crate::fc::{find, is_word, next_nl, real, Span};
use crate::util::*;
use filecheck::expr::{CasingStyle, Number, NumberFormat};
use litcheck::diagnostics::SourceSpan;
use regex_automata::meta::Regex;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    U,
    D,
    X { prefix: bool, upper: bool },
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct F {
    k: K,
    prec: usize,
}
const DEF: F = F { k: K::U, prec: 0 };
#[derive(Clone, Debug)]
enum E {
    N(i128),
    V(String),
    Line,
    B(char, Box<E>, Box<E>),
}
#[derive(Clone, Debug)]
enum P {
    Lit(String),
    /// a character class repeated at least once, and the variable it defines
    Run(String, Option<String>),
    Use(String),
    /// format, variable defined, constraint
    Num(Option<F>, Option<String>, Option<E>),
    Val(Option<F>, E),
}
#[derive(Clone, Debug)]
enum Val {
    S(String),
    /// value, format, whether the format was left to default
    N(i128, Option<F>, bool),
    Def(E),
}
type Env = HashMap<String, Val>;

// ------------------------------------------------------------------ syntax
struct Lx<'a> {
    s: &'a [u8],
    i: usize,
}
impl Lx<'_> {
    fn ws(&mut self) {
        while self.s.get(self.i) == Some(&b' ') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(c.as_bytes()) {
            self.i += c.len();
            true
        } else {
            false
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn word(&mut self) -> Option<String> {
        self.ws();
        let st = self.i;
        if self.s.get(self.i) == Some(&b'$') {
            self.i += 1;
        }
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        let w = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
        let first = w.trim_start_matches('$').chars().next()?;
        (!first.is_ascii_digit()).then_some(w)
    }
    fn num(&mut self) -> Option<i128> {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().ok().filter(|n: &i128| *n <= u64::MAX as i128)
    }
    fn term(&mut self, first: bool) -> Option<E> {
        let c = self.peek();
        if c == b'(' {
            self.i += 1;
            let e = self.expr(false)?;
            return self.eat(")").then_some(e);
        }
        if c.is_ascii_digit() {
            return if first { None } else { self.num().map(E::N) };
        }
        if c == b'@' {
            return self.eat("@LINE").then_some(E::Line);
        }
        let w = self.word()?;
        let f = match w.as_str() {
            "add" => '+',
            "sub" => '-',
            "mul" => '*',
            "div" => '/',
            "min" => 'm',
            "max" => 'M',
            _ => return Some(E::V(w)),
        };
        if !self.eat("(") {
            return None;
        }
        let a = self.expr(false)?;
        if !self.eat(",") {
            return None;
        }
        let b = self.expr(false)?;
        self.eat(")").then_some(E::B(f, Box::new(a), Box::new(b)))
    }
    fn expr(&mut self, first: bool) -> Option<E> {
        let builtin = matches!(self.peek(), b'a' | b's' | b'm' | b'd');
        let mut e = self.term(first)?;
        loop {
            let op = match self.peek() {
                c @ (b'+' | b'-') => c as char,
                _ => return Some(e),
            };
            if first && builtin {
                return None; // not in the grammar
            }
            self.i += 1;
            e = E::B(op, Box::new(e), Box::new(self.term(false)?));
        }
    }
}
fn lx(s: &str) -> Lx<'_> {
    Lx { s: s.as_bytes(), i: 0 }
}
fn class_of(re: &str) -> Option<String> {
    let c = re.strip_suffix('+')?;
    let ok = c.starts_with('[') && c.ends_with(']') && c.len() > 2 && !c[1..c.len() - 1].contains(['[', ']', '\\', '^', '&', '~', '\n']);
    (ok && Regex::new(c).is_ok()).then(|| c.to_string())
}
fn block(s: &str) -> Option<P> {
    if let Some(b) = s.strip_prefix('#') {
        let mut l = lx(b);
        let mut fmt = None;
        if l.eat("%") {
            let alt = l.eat("#");
            let prec = if l.eat(".") { l.num()? as usize } else { 0 };
            let k = match l.peek() {
                b'u' if !alt => K::U,
                b'd' if !alt => K::D,
                b'x' => K::X { prefix: alt, upper: false },
                b'X' => K::X { prefix: alt, upper: true },
                _ => return None,
            };
            l.i += 1;
            if prec > 20 || !l.eat(",") {
                return None;
            }
            fmt = Some(F { k, prec });
        }
        if l.peek() == 0 {
            return Some(P::Num(fmt, None, None));
        }
        let at = l.i;
        if let Some(w) = l.word() {
            if l.eat(":") {
                let c = if l.peek() == 0 {
                    None
                } else {
                    l.eat("==");
                    Some(l.expr(false)?)
                };
                return (l.peek() == 0).then_some(P::Num(fmt, Some(w), c));
            }
        }
        l.i = at;
        let e = l.expr(true)?;
        return (l.peek() == 0).then_some(P::Val(fmt, e));
    }
    if s.starts_with('@') {
        let mut l = lx(s);
        let e = l.expr(true)?;
        return (l.peek() == 0).then_some(P::Val(None, e));
    }
    let mut l = lx(s);
    let w = l.word()?;
    if l.i == s.len() {
        return Some(P::Use(w));
    }
    let re = s[l.i..].strip_prefix(':')?;
    Some(P::Run(class_of(re)?, Some(w)))
}
fn parts(mut p: &str) -> Option<Vec<P>> {
    let mut out = vec![];
    while !p.is_empty() {
        if let Some(r) = p.strip_prefix("{{") {
            let e = r.find("}}")?;
            out.push(P::Run(class_of(&r[..e])?, None));
            p = &r[e + 2..];
        } else if let Some(r) = p.strip_prefix("[[") {
            // a class may end right before the end of the block
            let e = r.find("+]]").map(|e| e + 1).filter(|e| !r[..*e].contains("]]")).or_else(|| r.find("]]"))?;
            out.push(block(&r[..e])?);
            p = &r[e + 2..];
        } else {
            let e = p.find("{{").unwrap_or(p.len()).min(p.find("[[").unwrap_or(p.len()));
            if p[..e].contains(['{', '}', '[', ']', '#', '\\']) {
                return None;
            }
            out.push(P::Lit(p[..e].to_string()));
            p = &p[e..];
        }
    }
    Some(out)
}
fn cls(c: &str) -> Regex {
    Regex::new(&format!("^(?:{c})$")).unwrap()
}
fn digit_class(k: K) -> &'static str {
    match k {
        K::U | K::D => "[0-9]",
        K::X { upper: false, .. } => "[A-Fa-f0-9]",
        K::X { upper: true, .. } => "[A-F0-9]",
    }
}

// ------------------------------------------------------------------ values
enum X {
    /// not a value: the use is an error, which fails the check
    Error,
    /// outside the model
    Skip,
}
fn join(l: Option<F>, r: Option<F>) -> Result<Option<F>, ()> {
    match (l, r) {
        (None, x) | (x, None) => Ok(x),
        (Some(a), Some(b)) => {
            if a.prec != b.prec && a.prec != 0 && b.prec != 0 {
                return Err(());
            }
            let prec = a.prec.max(b.prec);
            let k = match (a.k, b.k) {
                (K::X { prefix: p, upper: u }, K::X { prefix: q, upper: v }) if p == q => K::X { prefix: p, upper: u || v },
                (x, y) if x == y => x,
                _ => return Err(()),
            };
            Ok(Some(F { k, prec }))
        }
    }
}
/// (value, format, whether some operand's format was defaulted)
fn ev(e: &E, env: &Env, line: usize, explicit: Option<F>, busy: &mut Vec<String>) -> Result<(i128, Option<F>, bool), X> {
    Ok(match e {
        E::N(n) => (*n, None, false),
        E::Line => (line as i128, None, false),
        E::V(v) => match env.get(v) {
            None => return Err(X::Error),
            Some(Val::S(_)) => return Err(X::Skip),
            Some(Val::N(n, f, d)) => (*n, *f, *d),
            Some(Val::Def(e)) => {
                if busy.contains(v) {
                    return Err(X::Error);
                }
                busy.push(v.clone());
                let r = ev(e, env, line, explicit, busy)?;
                busy.pop();
                r
            }
        },
        E::B(op, a, b) => {
            let (x, f, d) = ev(a, env, line, explicit, busy)?;
            let (y, g, h) = ev(b, env, line, explicit, busy)?;
            let fmt = match join(f, g) {
                Ok(j) => j,
                Err(()) if d || h => return Err(X::Skip),
                Err(()) => Some(explicit.ok_or(X::Error)?),
            };
            let v = match op {
                '+' => x.checked_add(y),
                '-' => x.checked_sub(y),
                '*' => x.checked_mul(y),
                '/' => x.checked_div(y),
                'm' => Some(x.min(y)),
                _ => Some(x.max(y)),
            };
            if (d || h) && !matches!(fmt, Some(F { k: K::U, .. }) | None) {
                return Err(X::Skip);
            }
            (v.ok_or(X::Error)?, fmt, d || h)
        }
    })
}
fn text(v: i128, f: F) -> Option<String> {
    let mut digits = vec![];
    let base = if matches!(f.k, K::X { .. }) { 16 } else { 10 };
    let mut m = v.unsigned_abs();
    while m > 0 || digits.len() < f.prec.max(1) {
        let d = (m % base) as u8;
        m /= base;
        digits.push(if d < 10 { b'0' + d } else if matches!(f.k, K::X { upper: true, .. }) { b'A' + d - 10 } else { b'a' + d - 10 });
    }
    digits.reverse();
    let mut s = String::new();
    if v < 0 {
        if f.k != K::D {
            return None;
        }
        s.push('-');
    }
    if matches!(f.k, K::X { prefix: true, .. }) {
        s.push_str("0x");
    }
    Some(s + std::str::from_utf8(&digits).unwrap())
}
/// the value a text denotes
fn value(s: &str, f: F) -> Option<i128> {
    let (mut neg, mut t) = (false, s);
    if f.k == K::D {
        if let Some(r) = t.strip_prefix(['-', '+']) {
            neg = t.starts_with('-');
            t = r;
        }
    }
    if let K::X { prefix, .. } = f.k {
        match t.strip_prefix("0x") {
            Some(r) => t = r,
            None if prefix => return None,
            None => (),
        }
    }
    let base = if matches!(f.k, K::X { .. }) { 16 } else { 10 };
    if t.is_empty() || t.len() < f.prec {
        return None;
    }
    let mut v = 0i128;
    for c in t.chars() {
        if f.k == (K::X { prefix: matches!(f.k, K::X { prefix: true, .. }), upper: true }) && c.is_ascii_lowercase() {
            return None;
        }
        let d = c.to_digit(base)? as i128;
        v = v.checked_mul(base as i128)?;
        v = if neg { v.checked_sub(d)? } else { v.checked_add(d)? };
    }
    Some(v)
}

// ------------------------------------------------------------------ matching
/// the end of the match that starts at `s`
fn match_at(ps: &[P], t: &[u8], s: usize, hi: usize, env: &mut Env, line: usize) -> Result<Option<usize>, X> {
    let mut p = s;
    let run = |p: usize, c: &Regex| (p..hi).find(|&i| !c.is_match(&t[i..i + 1])).unwrap_or(hi);
    for part in ps {
        match part {
            P::Lit(l) => {
                if !t[p..hi].starts_with(l.as_bytes()) {
                    return Ok(None);
                }
                p += l.len();
            }
            P::Run(c, name) => {
                let e = run(p, &cls(c));
                if e == p {
                    return Ok(None);
                }
                if let Some(n) = name {
                    env.insert(n.clone(), Val::S(String::from_utf8(t[p..e].to_vec()).unwrap()));
                }
                p = e;
            }
            P::Use(v) => {
                let w = match env.get(v) {
                    None => return Err(X::Error),
                    Some(Val::S(w)) => w.clone(),
                    Some(_) => return Err(X::Skip),
                };
                if !t[p..hi].starts_with(w.as_bytes()) {
                    return Ok(None);
                }
                p += w.len();
            }
            P::Num(f, name, cons) => {
                let g = f.unwrap_or(DEF);
                let mut e = p;
                if g.k == K::D && e < hi && matches!(t[e], b'-' | b'+') {
                    e += 1;
                }
                if matches!(g.k, K::X { prefix: true, .. }) {
                    if !t[e..hi].starts_with(b"0x") {
                        return Ok(None);
                    }
                    e += 2;
                }
                let d = e;
                e = run(d, &cls(digit_class(g.k)));
                if e - d < g.prec.max(1) {
                    return Ok(None);
                }
                if e - d > 31 {
                    return Err(X::Skip);
                }
                let v = value(std::str::from_utf8(&t[p..e]).unwrap(), g).ok_or(X::Skip)?;
                if let Some(c) = cons {
                    let (w, f2, _) = ev(c, env, line, None, &mut vec![]).map_err(|x| if f.is_some() { X::Skip } else { x })?;
                    if f.is_none() && f2.is_some_and(|f2| f2.k != K::U) {
                        return Err(X::Skip);
                    }
                    if v != w {
                        return Ok(None);
                    }
                }
                if let Some(n) = name {
                    env.insert(n.clone(), Val::N(v, Some(g), f.is_none()));
                }
                p = e;
            }
            P::Val(f, e) => {
                let (v, g, _) = ev(e, env, line, *f, &mut vec![])?;
                let w = text(v, f.or(g).unwrap_or(DEF)).ok_or(X::Error)?;
                if !t[p..hi].starts_with(w.as_bytes()) {
                    return Ok(None);
                }
                p += w.len();
            }
        }
    }
    Ok(Some(p))
}
/// variable-length blocks end where the literal after them begins, no name is bound twice
fn in_model(ps: &[P]) -> bool {
    let mut names = vec![];
    ps.iter().enumerate().all(|(i, p)| {
        let (c, n) = match p {
            P::Run(c, n) => (c.as_str(), n),
            P::Num(f, n, _) => (digit_class(f.unwrap_or(DEF).k), n),
            _ => return true,
        };
        if let Some(n) = n {
            let n = n.trim_start_matches('$').to_string();
            if names.contains(&n) {
                return false;
            }
            names.push(n);
        }
        match ps.get(i + 1) {
            None => true,
            Some(P::Lit(l)) => !cls(c).is_match(&l.as_bytes()[..1]),
            _ => false,
        }
    }) && !ps.is_empty()
}
fn compare(c: &Case) -> Outcome {
    let (checks, input, defs, scope) = (&c[0], &c[1], &c[2], c[3] == "scope");
    let mut vars = vec![];
    for d in defs.lines() {
        match filecheck::expr::CliVariable::from_str(d) {
            Ok(v) => vars.push(v),
            Err(_) => return Outcome::Skip,
        }
    }
    let got = real(checks, input, |cfg| {
        cfg.options.variables = vars;
        cfg.options.enable_var_scope = scope;
    });
    let Some(want) = model(checks, input, defs, scope) else { return Outcome::Skip };
    let sorted = |v: Vec<Span>| {
        let mut v = v;
        v.sort_by_key(|s| (s.0, s.1));
        v
    };
    match (want, got) {
        (Err(_), Err(_)) => Outcome::Ok(checks.contains("[[")),
        (Ok(w), Ok(g)) => {
            if sorted(g.iter().map(|x| x.1).collect()) == sorted(w.clone()) {
                Outcome::Ok(checks.contains("[["))
            } else {
                Outcome::Fail(format!("passes, matching {g:?}; the directives match {w:?}"))
            }
        }
        (Err(w), Ok(g)) => Outcome::Fail(format!("passes (matching {g:?}) although {w}")),
        (Ok(w), Err(e)) => Outcome::Fail(format!("fails ({e}) although the input satisfies the directives, at {w:?}")),
    }
}
fn model(checks: &str, input: &str, defs: &str, scope: bool) -> Option<Result<Vec<Span>, String>> {
    let t = input.as_bytes();
    if t.is_empty() || !input.is_ascii() {
        return None;
    }
    let mut system = Env::new();
    for d in defs.lines() {
        let (n, v) = d.trim_start_matches('#').split_once('=')?;
        let v = if d.starts_with('#') {
            let mut l = lx(v);
            let e = if l.peek() == b'-' {
                l.i += 1;
                E::N(-l.num()?)
            } else {
                l.expr(false)?
            };
            if l.peek() != 0 {
                return None;
            }
            Val::Def(e)
        } else {
            if v.is_empty() {
                return None;
            }
            Val::S(v.to_string())
        };
        if n.is_empty() || !n.bytes().all(|c| is_word(c) && c != b'-') || n.starts_with(|c: char| c.is_ascii_digit()) || system.insert(n.to_string(), v).is_some() {
            return None;
        }
    }
    let mut dirs = vec![];
    for (ln, line) in checks.lines().enumerate() {
        if line.is_empty() {
            continue;
        }
        let (suffix, pat) = line.strip_prefix("CHECK")?.split_once(':')?;
        let pat = pat.trim_matches(|c| c == ' ' || c == '\t');
        let ps = parts(pat)?;
        if !in_model(&ps) || !matches!(suffix, "" | "-NEXT" | "-SAME" | "-LABEL") {
            return None;
        }
        if suffix == "-LABEL" && !matches!(&ps[..], [P::Lit(_)]) {
            return None;
        }
        if dirs.is_empty() && matches!(suffix, "-NEXT" | "-SAME") {
            return None;
        }
        // definitions given on the command line are kept apart from captured variables
        for p in &ps {
            let n = match p {
                P::Run(_, n) | P::Num(_, n, _) => n.as_deref(),
                P::Use(n) => Some(n.as_str()),
                _ => None,
            };
            if n.is_some_and(|n| n.starts_with('$') && system.contains_key(&n[1..])) || matches!(p, P::Run(_, Some(n)) | P::Num(_, Some(n), _) if system.contains_key(n)) {
                return None;
            }
        }
        dirs.push((suffix, ps, ln + 1));
    }
    if dirs.is_empty() {
        return None;
    }
    let mut out = vec![];
    // regions between labels
    let mut regions = vec![];
    let (mut lo, mut first) = (0, 0);
    for (i, d) in dirs.iter().enumerate() {
        if d.0 == "-LABEL" {
            let P::Lit(l) = &d.1[0] else { return None };
            let Some(m) = find(&Regex::new(&regex::escape(l)).unwrap(), t, lo, t.len()) else { return Some(Err("a label is missing".into())) };
            out.push(m);
            let sol = (0..m.0).rev().find(|&k| t[k] == b'\n').unwrap_or(0);
            regions.push((first, i, lo, sol.max(lo)));
            lo = next_nl(t, m.0, t.len());
            first = i + 1;
        }
    }
    regions.push((first, dirs.len(), lo, t.len()));
    let mut env = system.clone();
    let mut verdict = None;
    for (ri, (a, b, lo, hi)) in regions.into_iter().enumerate() {
        if ri > 0 && scope {
            env.retain(|k, _| k.starts_with('$') || system.contains_key(k));
        }
        let mut pos = lo;
        for (kind, ps, line) in &dirs[a..b] {
            let (s, e) = match *kind {
                "-NEXT" => {
                    let nl = next_nl(t, pos, hi);
                    if nl == hi {
                        verdict.get_or_insert(format!("line {line} has no next line"));
                        break;
                    }
                    (nl + 1, next_nl(t, nl + 1, hi))
                }
                "-SAME" => (pos, next_nl(t, pos, hi)),
                _ => (pos, hi),
            };
            let mut m = None;
            for st in s..=e {
                let mut env2 = env.clone();
                match match_at(ps, t, st, e, &mut env2, *line) {
                    Err(X::Skip) => return None,
                    // what is reported for the directives after an error is outside the model
                    Err(X::Error) => return if verdict.is_some() || ri > 0 || true { Some(Err(format!("the expression in line {line} has no value"))) } else { None },
                    Ok(Some(en)) if en == st => return None,
                    Ok(Some(en)) => {
                        m = Some((Span(st, en), env2));
                        break;
                    }
                    Ok(None) => (),
                }
            }
            let Some((m, env2)) = m else {
                verdict.get_or_insert(format!("line {line} matches nothing"));
                // variables it would define are undefined, or keep an earlier value
                break;
            };
            env = env2;
            out.push(m);
            pos = m.1;
        }
        if verdict.is_some() {
            break;
        }
    }
    Some(match verdict {
        None => Ok(out),
        Some(v) => Err(v),
    })
}

// ------------------------------------------------------------------ generators
struct G<'a> {
    r: &'a mut Rng,
    env: BTreeMap<String, Val>,
    system: Vec<String>,
    /// the kind most formats of the program have
    theme: Option<K>,
}
const STR: &[&str] = &["V", "W", "$S"];
const NUM: &[&str] = &["N", "M", "K", "$G"];
impl G<'_> {
    fn fmt(&mut self) -> Option<F> {
        let k = *self.r.pick(&[K::U, K::U, K::D, K::X { prefix: false, upper: false }, K::X { prefix: false, upper: true }, K::X { prefix: true, upper: false }, K::X { prefix: true, upper: true }]);
        if self.theme.is_none() && self.r.chance(1, 2) || self.r.chance(1, 8) {
            return None;
        }
        let k = self.theme.filter(|_| self.r.chance(7, 8)).unwrap_or(k);
        Some(F { k, prec: if self.r.chance(1, 3) { self.r.range(1, 6) } else { 0 } })
    }
    fn num(&mut self) -> i128 {
        match self.r.below(12) {
            0 => 0,
            1 => u64::MAX as i128,
            2 => u64::MAX as i128 - self.r.below(3) as i128,
            3 => i64::MAX as i128,
            4 => self.r.next() as i128,
            5 => 1 << self.r.below(64),
            _ => self.r.below(300) as i128,
        }
    }
    fn vars(&mut self, numeric: bool) -> Vec<String> {
        self.env.iter().filter(|(_, v)| matches!(v, Val::S(_)) != numeric).map(|(k, _)| k.clone()).collect()
    }
    fn expr(&mut self, depth: usize, first: bool) -> (String, E) {
        let vs = self.vars(true);
        if depth > 0 && self.r.chance(1, 2) {
            let f = *self.r.pick(&[("add", '+'), ("sub", '-'), ("mul", '*'), ("div", '/'), ("min", 'm'), ("max", 'M')]);
            if self.r.chance(1, 2) {
                let (a, x) = self.expr(depth - 1, false);
                let (b, y) = self.expr(depth - 1, false);
                return (format!("{}({a}, {b})", f.0), E::B(f.1, Box::new(x), Box::new(y)));
            }
            let (mut s, mut e) = if vs.is_empty() { ("@LINE".into(), E::Line) } else { let v = self.r.pick(&vs).clone(); (v.clone(), E::V(v)) };
            for _ in 0..self.r.range(1, 3) {
                let op = *self.r.pick(&['+', '-']);
                let (b, y) = if self.r.chance(1, 4) { let (b, y) = self.expr(depth - 1, false); (format!("({b})"), y) } else { self.expr(0, false) };
                let sp = *self.r.pick(&["", " "]);
                s = format!("{s}{sp}{op}{sp}{b}");
                e = E::B(op, Box::new(e), Box::new(y));
            }
            return (s, e);
        }
        if !first && (vs.is_empty() || self.r.chance(1, 2)) {
            let n = if self.r.chance(1, 5) { self.num() } else { self.r.below(20) as i128 };
            return (n.to_string(), E::N(n));
        }
        if vs.is_empty() || self.r.chance(1, 10) {
            return ("@LINE".into(), E::Line);
        }
        if self.r.chance(1, 40) {
            return ("ZZ".into(), E::V("ZZ".into()));
        }
        let v = self.r.pick(&vs).clone();
        (v.clone(), E::V(v))
    }
}
fn fmt_src(f: F) -> String {
    let (alt, c) = match f.k {
        K::U => ("", "u"),
        K::D => ("", "d"),
        K::X { prefix, upper } => (if prefix { "#" } else { "" }, if upper { "X" } else { "x" }),
    };
    let prec = if f.prec > 0 { format!(".{}", f.prec) } else { String::new() };
    format!("%{alt}{prec}{c}, ")
}
fn gen_program(r: &mut Rng, mode: u8) -> Case {
    let theme = r.chance(1, 3).then(|| *r.pick(&[K::U, K::D, K::D, K::X { prefix: false, upper: false }, K::X { prefix: true, upper: true }, K::X { prefix: true, upper: false }]));
    let mut g = G { r, env: BTreeMap::new(), system: vec![], theme };
    let mut defs = String::new();
    if g.r.chance(1, 3) {
        for _ in 0..g.r.range(1, 2) {
            let n = format!("D{}", g.r.below(3));
            if g.system.contains(&n) {
                continue;
            }
            g.system.push(n.clone());
            if mode != 7 || g.r.chance(1, 2) {
                let (s, e) = if g.r.chance(1, 4) { ("D0 + 1".to_string(), E::B('+', Box::new(E::V("D0".into())), Box::new(E::N(1)))) } else { let v = g.num(); (v.to_string(), E::N(v)) };
                defs.push_str(&format!("#{n}={s}\n"));
                g.env.insert(n, Val::Def(e));
            } else {
                let s = g.r.pick(&["x.y", "a", "b+", "(", "[z]", "a b", "$"]).to_string();
                defs.push_str(&format!("{n}={s}\n"));
                g.env.insert(n, Val::S(s));
            }
        }
    }
    let (mut checks, mut input) = (String::new(), String::new());
    let n = g.r.range(1, 6);
    for i in 0..n {
        while g.r.chance(1, 4) {
            input.push_str(g.r.pick(&["noise\n", "x=1\n", "f: 0x1\n", "\n", "a.b\n", "k 7\n"]));
        }
        let line = i + 1;
        if i > 0 && g.r.chance(1, 6) {
            checks.push_str(&format!("CHECK-LABEL: L{i}:\n"));
            input.push_str(&format!("L{i}:\n"));
            continue;
        }
        let mut kind = if i > 0 && g.r.chance(1, 5) { "-NEXT" } else if i > 0 && g.r.chance(1, 6) { "-SAME" } else { "" };
        let mut pat = String::new();
        let mut txt = String::new();
        let mut bound: Vec<String> = vec![];
        for b in 0..g.r.range(1, 3) {
            let sep = g.r.pick(&["k=", " ", ": ", "= ", ", ", "(", "; "]).to_string();
            if b > 0 || g.r.chance(2, 3) {
                let sep = if b > 0 && !sep.starts_with(|c: char| " :=,;".contains(c)) { format!(" {sep}") } else { sep };
                pat.push_str(&sep);
                txt.push_str(&sep);
            }
            let strs = g.vars(false);
            let is_str = match mode {
                7 => g.r.chance(4, 5),
                _ => g.r.chance(1, 8),
            };
            if is_str && !strs.is_empty() && g.r.chance(1, 2) {
                let v = if g.r.chance(1, 20) { "QQ".to_string() } else { g.r.pick(&strs).clone() };
                // a global is not the local of the same name
                let v0 = v.clone();
                let v = if g.r.chance(1, 25) { v.strip_prefix('$').map(|b| b.to_string()).unwrap_or(format!("${v}")) } else { v };
                pat.push_str(&format!("[[{v}]]"));
                match g.env.get(&v0) {
                    Some(Val::S(s)) if !g.r.chance(1, 10) => txt.push_str(&s.clone()),
                    _ => txt.push_str("a.b"),
                }
            } else if is_str {
                let (c, vals): (&str, &[&str]) = *g.r.pick(&[("[a-z]+", &["a", "ab", "foo", "aab"][..]), ("[a-z.]+", &["x.y", "a..b", "xzy", "."]), ("[a-z0-9_.*()|]+", &["a(b)", "a|b", "x*", "n_1", "(", "a.b", "axb"]), ("[A-Z$]+", &["A$B", "Q"]), ("[a-z ]+", &["a ", " b ", "a  b", "  "])]);
                let s = g.r.pick(vals).to_string();
                let v = g.r.pick(STR).to_string();
                let bare = v.trim_start_matches('$').to_string();
                if g.r.chance(1, 6) || bound.contains(&bare) {
                    pat.push_str(&format!("{{{{{c}}}}}"));
                } else {
                    pat.push_str(&format!("[[{v}:{c}]]"));
                    bound.push(bare);
                    g.env.insert(v, Val::S(s.clone()));
                }
                txt.push_str(&s);
            } else {
                let f = g.fmt();
                let ff = f.map(fmt_src).unwrap_or_default();
                match g.r.below(5) {
                    0 | 1 => {
                        let v = g.r.pick(NUM).to_string();
                        let bare = v.trim_start_matches('$').to_string();
                        let mut n = g.num();
                        if matches!(f, Some(F { k: K::D, .. })) && g.r.chance(1, 2) {
                            n = -n;
                        }
                        if bound.contains(&bare) || g.r.chance(1, 8) {
                            pat.push_str(&format!("[[#{}]]", if ff.is_empty() { "" } else { &ff }));
                        } else {
                            pat.push_str(&format!("[[#{ff}{v}:]]"));
                            bound.push(bare);
                            g.env.insert(v, Val::N(n, Some(f.unwrap_or(DEF)), f.is_none()));
                        }
                        txt.push_str(&text(n, f.unwrap_or(DEF)).unwrap());
                    }
                    2 => {
                        let (s, e) = g.expr(1, false);
                        let env: Env = g.env.clone().into_iter().collect();
                        let n = ev(&e, &env, line, None, &mut vec![]).map(|x| x.0).unwrap_or(1);
                        let n = if g.r.chance(1, 5) { n ^ 1 } else { n };
                        let v = g.r.pick(NUM).to_string();
                        let bare = v.trim_start_matches('$').to_string();
                        if bound.contains(&bare) {
                            pat.push_str("[[#]]");
                            txt.push_str("12");
                        } else {
                            let eq = *g.r.pick(&["", " ", "==", " == "]);
                            pat.push_str(&format!("[[#{ff}{v}:{eq}{s}]]"));
                            bound.push(bare);
                            g.env.insert(v, Val::N(n, Some(f.unwrap_or(DEF)), f.is_none()));
                            txt.push_str(&text(n, f.unwrap_or(DEF)).unwrap_or("7".into()));
                        }
                    }
                    _ => {
                        let (s, e) = g.expr(2, true);
                        let env: Env = g.env.clone().into_iter().collect();
                        let w = ev(&e, &env, line, f, &mut vec![]).ok().and_then(|(n, h, _)| text(if g.r.chance(1, 8) { n ^ 1 } else { n }, f.or(h).unwrap_or(DEF)));
                        let w = if g.r.chance(1, 15) { "18446744073709551614".into() } else { w.unwrap_or("3".into()) };
                        pat.push_str(&format!("[[#{ff}{s}]]"));
                        txt.push_str(&w);
                    }
                }
            }
        }
        if g.r.chance(1, 3) {
            pat.push_str(";");
            txt.push_str(";");
        }
        if kind == "-SAME" {
            input.truncate(input.trim_end_matches('\n').len());
            input.push(' ');
        } else if kind == "-NEXT" && !input.ends_with('\n') {
            kind = "";
        }
        if g.r.chance(1, 3) && kind != "-SAME" {
            input.push_str(g.r.pick(&["a", "x ", "1", "ab", "-", "f", "k=1 "]));
        }
        checks.push_str(&format!("CHECK{kind}: {pat}\n"));
        input.push_str(&txt);
        if i + 1 < n || g.r.chance(3, 4) {
            input.push('\n');
        }
    }
    let scope = if g.r.chance(1, 2) { "scope" } else { "" };
    vec![checks, input, defs, scope.into()]
}

fn cs(a: &str, b: &str, c: &str, d: &str) -> Case {
    vec![a.into(), b.into(), c.into(), d.into()]
}
pub static P06: Prop = Prop {
    id: "P06",
    rule: "a check file whose numeric blocks the reference evaluates",
    fixed: || {
        let m = |e: &str, a: &str, b: &str| cs(&format!("CHECK: n=[[#N:]] m=[[#M:]]\nCHECK: v=[[#{e}]];\n"), &format!("n={a} m={b}\nv="), "", "");
        let mut out = vec![];
        for (a, b) in [("7", "2"), ("2", "7"), ("0", "0"), ("18446744073709551615", "1"), ("18446744073709551615", "18446744073709551615"), ("9", "0")] {
            for e in ["N+M", "N-M", "N-1-1", "N-M-M", "N-M+M", "mul(N,M)", "div(N,M)", "min(N,M)", "max(N,M)", "add(N,M)", "sub(N,M)", "mul(mul(N,N),mul(N,N))", "N+(M-1)", "div(N,2)", "sub(0,N)"] {
                for v in ["9", "5", "14", "3", "2", "7", "0", "1", "18446744073709551614", "18446744073709551616", "36893488147419103230", "340282366920938463426481119284349108225", "4611686018427387904", "-5", "18446744073709551611"] {
                    let mut c = m(e, a, b);
                    c[1].push_str(&format!("{v};\n"));
                    out.push(c);
                }
            }
        }
        out.push(cs("CHECK: [[#N:]] [[#M:N+1]]\n", "5 6", "", ""));
        out.push(cs("CHECK: [[#N:]] [[#M:N+1]]\n", "5 7\n", "", ""));
        out.push(cs("CHECK: [[#D0]]\n", "5\n", "#D0=D0\n", ""));
        out.push(cs("CHECK: [[#D1]]\n", "5\n", "#D0=D1\n#D1=D0\n", ""));
        out.push(cs("CHECK: [[#D1]]\n", "5\n", "#D0=4\n#D1=D0 + 1\n", ""));
        out.push(cs("CHECK: x\nCHECK: [[@LINE]] [[@LINE+1]] [[#@LINE-1]]\n", "x\n2 3 1\n", "", ""));
        out
    },
    gen: |r| gen_program(r, 6),
    check: compare,
};
pub static P07: Prop = Prop {
    id: "P07",
    rule: "a check file whose variables the reference follows",
    fixed: || {
        vec![
            cs("CHECK: a=[[V:[a-z.]+]]\nCHECK: b=[[V]];\n", "a=x.y\nb=xzy;\n", "", ""),
            cs("CHECK: a=[[V:[a-z.]+]]\nCHECK: b=[[V]];\n", "a=x.y\nb=xzy;\nb=x.y;\n", "", ""),
            cs("CHECK: [[V:[a-z]+]]-[[V]];\n", "ab-b;\n", "", ""),
            cs("CHECK: a=[[V:[a-z]+]]\nCHECK: L1\nCHECK: [[V]]\n", "a=q\nL1\nq\n", "", "scope"),
            cs("CHECK: a=[[V:[a-z]+]]\nCHECK-LABEL: L1\nCHECK: [[V]]\n", "a=q\nL1\nq\n", "", "scope"),
            cs("CHECK: a=[[V:[a-z]+]]\nCHECK-LABEL: L1\nCHECK: [[V]]\n", "a=q\nL1\nq\n", "", ""),
            cs("CHECK: a=[[$V:[a-z]+]]\nCHECK-LABEL: L1\nCHECK: [[$V]]\n", "a=q\nL1\nq\n", "", "scope"),
            cs("CHECK: a=[[V:[a-z]+]] b=[[V]] c=[[W:[a-z]+]]\nCHECK: [[W]] [[V]]\n", "a=q b=q c=r\nr q\n", "", ""),
            cs("CHECK: [[V:[a-z]+]]\nCHECK: [[V:[A-Z]+]]\nCHECK: =[[V]]\n", "q\nQ\n=q\n=Q\n", "", ""),
            cs("CHECK: [[U]]\n", "U\n", "", ""),
            cs("CHECK: [[D0]]\n", "ayb\na.b\n", "D0=a.b\n", "scope"),
        ]
    },
    gen: |r| gen_program(r, 7),
    check: compare,
};

// ------------------------------------------------------------------ P08: numbers and text
fn to_real(f: F) -> NumberFormat {
    let precision = f.prec as u8;
    match f.k {
        K::U => NumberFormat::Unsigned { precision },
        K::D => NumberFormat::Signed { precision },
        K::X { prefix, upper } => NumberFormat::Hex { precision, require_prefix: prefix, casing: if upper { CasingStyle::Upper } else { CasingStyle::Any } },
    }
}
fn check_number(c: &Case) -> Outcome {
    if c[0] != "read" && c[0] != "write" {
        return compare(c);
    }
    let kind = match c[1].as_str() {
        "u" => K::U,
        "d" => K::D,
        "x" => K::X { prefix: false, upper: false },
        "X" => K::X { prefix: false, upper: true },
        "#x" => K::X { prefix: true, upper: false },
        _ => K::X { prefix: true, upper: true },
    };
    let f = F { k: kind, prec: match c[2].parse() { Ok(p) if p <= 255usize => p, _ => return Outcome::Skip } };
    let span = SourceSpan::UNKNOWN;
    if c[0] == "read" {
        let t = &c[3..].concat();
        let got = Number::parse_with_format(litcheck::diagnostics::Span::new(span, t.as_str()), to_real(f));
        let want = value(t, f);
        return match (&got, want) {
            (Ok(n), Some(w)) if n.value == w && n.format == Some(to_real(f)) => Outcome::Ok(true),
            (Err(_), None) => Outcome::Ok(!t.is_empty()),
            _ => Outcome::Fail(format!("reading {t:?} as {f:?} gives {got:?}, it denotes {want:?}")),
        };
    }
    let Ok(v) = c[3].parse::<i128>() else { return Outcome::Skip };
    let Some(want) = text(v, f) else { return Outcome::Skip };
    let got = Number::new_with_format(span, v, to_real(f)).to_string();
    if got != want {
        return Outcome::Fail(format!("writing {v} as {f:?} gives {got:?}, not {want:?}"));
    }
    match Number::parse_with_format(litcheck::diagnostics::Span::new(span, got.as_str()), to_real(f)) {
        Ok(n) if n.value == v => Outcome::Ok(true),
        e => Outcome::Fail(format!("{v} is written as {got:?} in {f:?}, which reads as {e:?}")),
    }
}
const KINDS: &[&str] = &["u", "d", "x", "X", "#x", "#X"];
pub static P08: Prop = Prop {
    id: "P08",
    rule: "a number and format, or a text and format; a check file that captures or writes numbers in a format",
    fixed: || {
        let mut out = vec![];
        for k in KINDS {
            for p in ["0", "1", "2", "3", "8", "20", "39"] {
                for v in ["0", "1", "9", "10", "15", "16", "255", "4096", "-1", "-16", "-255", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727", "-170141183460469231731687303715884105728"] {
                    out.push(vec!["write".into(), k.to_string(), p.to_string(), v.to_string()]);
                }
                for t in ["", "0", "00", "007", "7", "+7", "-7", "-007", "ff", "FF", "fF", "0xff", "0xFF", "0x", "0X1", "-", "+", "1 ", " 1", "1f", "12345678901234567890", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "7fffffffffffffffffffffffffffffff", "80000000000000000000000000000000", "0x7fffffffffffffffffffffffffffffff", "é", "1_0", "٣"] {
                    out.push(vec!["read".into(), k.to_string(), p.to_string(), t.to_string()]);
                }
            }
        }
        for (b, t, w) in [("%x, N:", "1f", "20"), ("%#x, N:", "0x1f", "0x20"), ("%X, N:", "1F", "20"), ("%d, N:", "-1", "0"), ("%.4u, N:", "0007", "0008"), ("%.2u, N:", "999", "1000"), ("%.2d, N:", "-09", "-08"), ("N:", "18446744073709551615", "18446744073709551616")] {
            for q in ["", "[[D0]] "] {
                let x = if q.is_empty() { "" } else { "a " };
                out.push(cs(&format!("CHECK: {q}v=[[#{b}]];\nCHECK: w=[[#N+1]];\n"), &format!("{x}v={t};\nw={w};\n"), "D0=a\n", ""));
            }
        }
        out
    },
    gen: |r| {
        if r.chance(1, 3) {
            return gen_program(r, 8);
        }
        let k = r.pick(KINDS).to_string();
        let p = if r.chance(1, 2) { 0 } else { r.below(24) }.to_string();
        if r.chance(1, 2) {
            let v = match r.below(5) {
                0 => r.next() as i128,
                1 => -(r.next() as i128),
                2 => ((r.next() as u128) << 64 | r.next() as u128) as i128,
                3 => (1i128 << r.below(127)) - r.below(2) as i128,
                _ => r.below(1000) as i128 - 500,
            };
            return vec!["write".into(), k, p, v.to_string()];
        }
        let max = if r.chance(1, 6) { 42 } else { 8 };
        let n = r.below(max);
        let mut t = String::new();
        if r.chance(1, 4) {
            t.push_str(r.pick(&["-", "+", "0x", "0X", " ", "x", "-0x", "0x0x"]));
        }
        for _ in 0..n {
            t.push(*r.pick(if k.to_lowercase().contains('x') { &['0', '1', '7', '9', 'a', 'f', 'A', 'F', '3'][..] } else { &['0', '1', '5', '9', '7'] }));
        }
        if r.chance(1, 10) {
            t.push(*r.pick(&['g', ' ', '-', 'é', '.', 'F']));
        }
        vec!["read".into(), k, p, t]
    },
    check: check_number,
};
