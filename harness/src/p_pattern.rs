//! Reference semantics of a single pattern (P26), written from the property statement: the
//! parts of a directive are read from its text, literal text stands for itself, a block for
//! its regular expression taken as a unit, and the concatenation of the parts is matched by a
//! backtracking matcher of its own (no regex crate involved).
use crate::fc::{find, real, Span};
use crate::util::*;
use regex_automata::{meta::Regex, util::syntax};

#[derive(Clone, Debug)]
enum R {
    Chr(char),
    Dot,
    Cls(bool, Vec<(char, char)>),
    Cat(Vec<R>),
    Alt(Vec<R>),
    /// at least, at most
    Rep(Box<R>, usize, usize),
    Bol,
    Eol,
}

fn nullable(r: &R) -> bool {
    match r {
        R::Chr(_) | R::Dot | R::Cls(..) => false,
        R::Cat(v) => v.iter().all(nullable),
        R::Alt(v) => v.iter().any(nullable),
        R::Rep(r, min, _) => *min == 0 || nullable(r),
        R::Bol | R::Eol => true,
    }
}

/// leftmost-first matching: the alternatives are tried in order, repetitions greedily
fn m(r: &R, t: &[char], i: usize, fuel: &mut usize, k: &mut dyn FnMut(usize, &mut usize) -> bool) -> bool {
    if *fuel == 0 {
        return true;
    }
    *fuel -= 1;
    match r {
        R::Chr(c) => i < t.len() && t[i] == *c && k(i + 1, fuel),
        R::Dot => i < t.len() && t[i] != '\n' && k(i + 1, fuel),
        R::Cls(neg, v) => i < t.len() && v.iter().any(|(a, b)| *a <= t[i] && t[i] <= *b) != *neg && k(i + 1, fuel),
        R::Bol => (i == 0 || t[i - 1] == '\n') && k(i, fuel),
        R::Eol => (i == t.len() || t[i] == '\n') && k(i, fuel),
        R::Cat(v) => cat(v, t, i, fuel, k),
        R::Alt(v) => v.iter().any(|r| m(r, t, i, fuel, k)),
        R::Rep(r, min, max) => {
            if *max > 0 {
                let next = R::Rep(r.clone(), min.saturating_sub(1), if *max == usize::MAX { *max } else { max - 1 });
                if m(r, t, i, fuel, &mut |j, fuel| m(&next, t, j, fuel, k)) {
                    return true;
                }
            }
            *min == 0 && k(i, fuel)
        }
    }
}
fn cat(v: &[R], t: &[char], i: usize, fuel: &mut usize, k: &mut dyn FnMut(usize, &mut usize) -> bool) -> bool {
    match v.split_first() {
        None => k(i, fuel),
        Some((h, rest)) => m(h, t, i, fuel, &mut |j, fuel| cat(rest, t, j, fuel, k)),
    }
}

/// a small subset of regular expressions; None = outside the model
struct Re<'a> {
    s: &'a [char],
    i: usize,
}
impl Re<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        let b = self.peek() == Some(c);
        self.i += b as usize;
        b
    }
    fn alt(&mut self, depth: usize) -> Option<R> {
        let mut v = vec![self.cat(depth)?];
        while self.eat('|') {
            v.push(self.cat(depth)?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { R::Alt(v) })
    }
    fn cat(&mut self, depth: usize) -> Option<R> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            v.push(self.rep(depth)?);
        }
        if v.is_empty() {
            return None;
        }
        Some(R::Cat(v))
    }
    fn rep(&mut self, depth: usize) -> Option<R> {
        let a = self.atom(depth)?;
        let (min, max) = match self.peek() {
            Some('*') => (0, usize::MAX),
            Some('+') => (1, usize::MAX),
            Some('?') => (0, 1),
            _ => return Some(a),
        };
        self.i += 1;
        if nullable(&a) || matches!(self.peek(), Some('*' | '+' | '?' | '{')) {
            return None;
        }
        Some(R::Rep(Box::new(a), min, max))
    }
    fn chr(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += 1;
        Some(c)
    }
    fn atom(&mut self, depth: usize) -> Option<R> {
        match self.chr()? {
            '.' => Some(R::Dot),
            '^' => Some(R::Bol),
            '$' => Some(R::Eol),
            '(' if depth < 4 => {
                if self.eat('?') && !self.eat(':') {
                    return None;
                }
                let r = self.alt(depth + 1)?;
                self.eat(')').then_some(r)
            }
            '[' => {
                let neg = self.eat('^');
                let mut v = vec![];
                while !self.eat(']') {
                    let a = self.chr().filter(|c| c.is_ascii_alphanumeric() || *c == ' ')?;
                    let b = if self.eat('-') { self.chr().filter(|c| c.is_ascii_alphanumeric())? } else { a };
                    if b < a {
                        return None;
                    }
                    v.push((a, b));
                }
                if v.is_empty() {
                    return None;
                }
                if neg {
                    v.push(('\n', '\n'));
                }
                // a negated class matches newlines, too
                let v = if neg { v.into_iter().filter(|x| x.0 != '\n').collect() } else { v };
                Some(R::Cls(neg, v))
            }
            '\\' => self.chr().filter(|c| ".*+?()|^$\\".contains(*c)).map(R::Chr),
            c if c.is_alphanumeric() || " ,_=:;\"'<>".contains(c) => Some(R::Chr(c)),
            _ => None,
        }
    }
}
fn parse_re(s: &str) -> Option<R> {
    let s: Vec<char> = s.chars().collect();
    let mut p = Re { s: &s, i: 0 };
    let r = p.alt(0)?;
    (p.i == s.len()).then_some(r)
}

fn is_name(s: &str) -> bool {
    !s.is_empty() && !s.as_bytes()[0].is_ascii_digit() && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
}

/// the parts of a pattern, and the same as a regular expression
fn parts(p: &str) -> Option<Vec<R>> {
    parts_src(p).map(|p| p.0)
}
fn parts_src(mut p: &str) -> Option<(Vec<R>, String)> {
    let mut out = vec![];
    let mut src = String::new();
    let mut names = vec![];
    while !p.is_empty() {
        if let Some(r) = p.strip_prefix("{{") {
            let e = r.find("}}")?;
            out.push(parse_re(&r[..e])?);
            src.push_str(&format!("(?:{})", &r[..e]));
            p = &r[e + 2..];
        } else if let Some(r) = p.strip_prefix("[[#") {
            let e = r.find("]]")?;
            let (f, name) = r[..e].strip_suffix(':')?.rsplit_once(',').map(|(f, n)| (Some(f.trim()), n.trim())).unwrap_or((None, r[..e - 1].trim()));
            if !is_name(name) || names.contains(&name) {
                return None;
            }
            names.push(name);
            let d = |v: &[(char, char)]| R::Rep(Box::new(R::Cls(false, v.to_vec())), 1, usize::MAX);
            src.push_str(match f {
                None | Some("%u") => "[0-9]+",
                Some("%d") => "[+-]?[0-9]+",
                Some("%x") => "[0-9A-Fa-f]+",
                _ => "[0-9A-F]+",
            });
            out.push(match f {
                None | Some("%u") => d(&[('0', '9')]),
                Some("%d") => R::Cat(vec![R::Rep(Box::new(R::Cls(false, vec![('-', '-'), ('+', '+')])), 0, 1), d(&[('0', '9')])]),
                Some("%x") => d(&[('0', '9'), ('A', 'F'), ('a', 'f')]),
                Some("%X") => d(&[('0', '9'), ('A', 'F')]),
                _ => return None,
            });
            p = &r[e + 2..];
        } else if let Some(r) = p.strip_prefix("[[") {
            let e = r.find("]]")?;
            let (name, re) = r[..e].split_once(':')?;
            if !is_name(name) || names.contains(&name) || re.contains(['[', ']']) {
                return None;
            }
            names.push(name);
            out.push(parse_re(re)?);
            src.push_str(&format!("(\u{1}{re})"));
            p = &r[e + 2..];
        } else {
            let c = p.chars().next().unwrap();
            if c == '\t' || (c.is_whitespace() && c != ' ') {
                return None; // canonicalised
            }
            out.push(R::Chr(c));
            src.push_str(&regex::escape(c.encode_utf8(&mut [0; 4])));
            p = &p[c.len_utf8()..];
        }
    }
    Some((out, src))
}

struct Dir {
    kind: &'static str,
    src: String,
    re: Vec<R>,
}
fn parse(checks: &str) -> Option<Vec<Dir>> {
    let mut out = vec![];
    for line in checks.lines() {
        let rest = line.strip_prefix("CHECK")?;
        let (suffix, pat) = rest.split_once(':')?;
        let kind = match suffix {
            "" => "",
            "-NOT" => "-NOT",
            "-DAG" => "-DAG",
            "-LABEL" => "-LABEL",
            "-COUNT-1" => "-COUNT",
            _ => return None,
        };
        if kind == "-LABEL" && pat.contains("[[") {
            return None; // labels may not define variables
        }
        if pat.ends_with(' ') {
            return None; // blanks at the end of the line: unspecified
        }
        let (re, src) = parts_src(pat.trim_start_matches(' '))?;
        if re.iter().all(nullable) {
            return None;
        }
        out.push(Dir { kind, src, re });
    }
    // one positive directive, or directives which must not match
    if out.is_empty() || (out.len() > 1 && out.iter().any(|d| d.kind != "-NOT")) {
        return None;
    }
    Some(out)
}

/// the leftmost match of the pattern, in bytes; Err: too expensive
fn leftmost(re: &[R], text: &str) -> Result<Option<Span>, ()> {
    let t: Vec<char> = text.chars().collect();
    let mut fuel = 200_000;
    for s in 0..=t.len() {
        let mut end = None;
        cat(re, &t, s, &mut fuel, &mut |e, _| {
            end = Some(e);
            true
        });
        if fuel == 0 {
            return Err(());
        }
        if let Some(e) = end {
            let b = |n: usize| t[..n].iter().map(|c| c.len_utf8()).sum::<usize>();
            return Ok(Some(Span(b(s), b(e))));
        }
    }
    Ok(None)
}

fn compare(c: &Case) -> Outcome {
    let (checks, input) = (&c[0], &c[1]);
    let got = real(checks, input, |_| {});
    if input.is_empty() || input.contains('\r') {
        return Outcome::Skip;
    }
    let Some(dirs) = parse(checks) else { return Outcome::Skip };
    let mut want = vec![];
    for d in &dirs {
        let Ok(w) = leftmost(&d.re, input) else { return Outcome::Skip };
        // the regex crate does not always find the leftmost match, e.g. of (?:.|cxba)b in ?cxbab
        for capture in ["", "?:"] {
            let crate_re = Regex::builder().syntax(syntax::Config::new().multi_line(true).utf8(false)).build(&d.src.replace('\u{1}', capture));
            if !crate_re.is_ok_and(|r| find(&r, input.as_bytes(), 0, input.len()) == w) {
                return Outcome::Skip;
            }
        }
        want.push(w);
    }
    if dirs[0].kind == "-NOT" {
        return match (want.iter().position(|w| w.is_some()), got) {
            (None, Ok(_)) => Outcome::Ok(true),
            (Some(_), Err(_)) => Outcome::Ok(true),
            (None, Err(e)) => Outcome::Fail(format!("fails ({e}) although the pattern denotes no text of the input")),
            (Some(i), Ok(_)) => Outcome::Fail(format!("passes although the pattern of directive {i} denotes the text at {:?}", want[i])),
        };
    }
    if dirs[0].kind == "-LABEL" && want[0].is_some_and(|s| input.as_bytes()[s.0..s.1].contains(&b'\n')) {
        return Outcome::Skip;
    }
    match (want[0], got) {
        (None, Err(_)) => Outcome::Ok(dirs[0].re.len() > 1),
        (None, Ok(g)) => Outcome::Fail(format!("passes (matching {g:?}) although the pattern denotes no text of the input")),
        (Some(w), Err(e)) => Outcome::Fail(format!("fails ({e}) although the pattern denotes the text at {w:?}")),
        (Some(w), Ok(g)) if g.len() == 1 && g[0].1 == w => Outcome::Ok(true),
        (Some(w), Ok(g)) => Outcome::Fail(format!("matches {g:?}; the leftmost text denoted by the pattern is at {w:?}")),
    }
}

// ------------------------------------------------------------------ generators
fn gen_re(r: &mut Rng, depth: usize) -> String {
    match r.below(if depth == 0 { 4 } else { 9 }) {
        0 | 1 => r.pick(&["a", "b", "c", "ab", "x", "1"]).to_string(),
        2 => r.pick(&[".", "[ab]", "[^a]", "[a-c]", "[0-9]", "\\.", "\\|", "\\(", "\\\\"]).to_string(),
        3 => r.pick(&["a", "b", "ba", "é", " ", "^", "$"]).to_string(),
        4 | 5 => format!("{}|{}", gen_re(r, depth - 1), gen_re(r, depth - 1)),
        6 => format!("{}{}", gen_re(r, depth - 1), gen_re(r, depth - 1)),
        7 => format!("({}){}", gen_re(r, depth - 1), r.pick(&["", "*", "+", "?"])),
        _ => format!("{}{}", r.pick(&["a", "b", "[ab]", "."]), r.pick(&["*", "+", "?"])),
    }
}
fn gen_lit(r: &mut Rng) -> String {
    const CS: &[&str] = &["a", "b", "c", "a", "b", "1", ".", "*", "+", "?", "(", ")", "|", "^", "$", "\\", "{", "}", "[", "]", "#", "-", " ", "é", "&", "~", "\"", "/", "a|b", "(a)", ".*", "a+", "[a]", "\\d", "CHECK: b", " CHECK-NOT: a", " COM: a"];
    (0..r.range(1, 3)).map(|_| *r.pick(CS)).collect()
}
fn gen_pat(r: &mut Rng) -> String {
    let mut s = String::new();
    let mut v = 0;
    for _ in 0..r.range(1, 4) {
        match r.below(6) {
            0..=2 => s.push_str(&gen_lit(r)),
            3 | 4 => s.push_str(&format!("{{{{{}}}}}", gen_re(r, 2))),
            _ => {
                v += 1;
                let f = *r.pick(&["", "", "%u,", "%d,", "%x, ", "%X,"]);
                s.push_str(&if r.chance(1, 3) { format!("[[#{f}N{v}:]]") } else { format!("[[V{v}:{}]]", gen_re(r, 2)) });
            }
        }
    }
    s.trim_end_matches(' ').to_string()
}
/// a text the part denotes, more or less
fn sample(x: &R, r: &mut Rng, out: &mut String) {
    match x {
        R::Chr(c) => out.push(*c),
        R::Dot => out.push_str(r.pick(&["a", "b", ".", "é"])),
        R::Cls(false, v) => out.push(v[r.below(v.len())].0),
        R::Cls(true, _) => out.push_str(r.pick(&["a", "b", "c", "1"])),
        R::Cat(v) => v.iter().for_each(|x| sample(x, r, out)),
        R::Alt(v) => sample(&v[r.below(v.len())], r, out),
        R::Rep(x, min, max) => {
            for _ in 0..r.range(*min, (*min + 2).min(*max)) {
                sample(x, r, out)
            }
        }
        R::Bol | R::Eol => {}
    }
}
fn gen(r: &mut Rng) -> Case {
    let not = r.chance(1, 5);
    let n = if not { r.range(1, 2) } else { 1 };
    let pats: Vec<String> = (0..n).map(|_| gen_pat(r)).collect();
    let kind = if not { "-NOT" } else { *r.pick(&["", "", "", "-DAG", "-LABEL", "-COUNT-1"]) };
    let checks: String = pats.iter().map(|p| format!("CHECK{kind}: {p}\n")).collect();
    let mut input = String::new();
    for _ in 0..r.range(1, 4) {
        match r.below(6) {
            0 => input.push_str(&gen_lit(r)),
            1 => input.push_str(r.pick(&["a", "b", "ab", "ba", "\n", " ", "1", "c", "-1", "f", "F"])),
            2 => input.push('\n'),
            _ => {
                let p = r.pick(&pats).clone();
                if let Some(ps) = parts(p.trim_start_matches(' ')).filter(|ps| !ps.is_empty()) {
                    // all of its parts, or some of them
                    let (a, b) = if r.chance(1, 3) { (r.below(ps.len()), r.range(1, ps.len())) } else { (0, ps.len()) };
                    ps[a.min(b)..b].iter().for_each(|x| sample(x, r, &mut input));
                }
            }
        }
    }
    if r.chance(4, 5) {
        input.push('\n');
    }
    vec![checks, input]
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    let pats = ["x{{a|b}}y", "{{a|b}}y", "x{{a|b}}", "x[[V:a|b]]y", "{{a|bb}}{{b|c}}", "a.b", "a*", "(a)", "a|b", "[ab]", "a\\b", "^a", "a$", "{a}", "[[V:a+]]b", "[[#N:]]x", "a{{.}}b[[#%x,N:]]", "a+{{b+}}"];
    let inputs = ["a\n", "b\n", "xa\n", "by\n", "xay\n", "xby\n", "x\nay\n", "axb\n", "a.b\n", "a*\n", "aa\n", "(a)\n", "a|b\n", "[ab]\n", "a\\b\n", "^a\n", "a$\n", "{a}\n", "aab\n", "12x\n", "a1bff\n", "a+bb", "abb", "bbc\n"];
    for p in pats {
        for i in inputs {
            for k in ["", "-NOT"] {
                v.push(vec![format!("CHECK{k}: {p}\n"), i.to_string()]);
            }
        }
    }
    v
}
pub static PROP: Prop = Prop { id: "P26", rule: "parts", fixed, gen, check: compare };
