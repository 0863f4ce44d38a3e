//! Symbols against a map from strings to first-seen identities.
use crate::util::*;
use litcheck::{symbols, Symbol};
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

pub static PROP: Prop = Prop {
    id: "P12",
    rule: "every predefined keyword, then lists of strings (repeats, the empty string, keywords, near-keywords, long and non-ASCII text) interned by several conversions from 8 threads sharing one table; non-trivial when the list has two different strings",
    fixed,
    gen,
    check,
};
static SEEN: Mutex<BTreeMap<String, (Symbol, &'static str)>> = Mutex::new(BTreeMap::new());

fn kw() -> Vec<(Symbol, &'static str)> {
    vec![
        (symbols::False, "false"), (symbols::True, "true"), (symbols::Empty, ""), (symbols::Line, "LINE"), (symbols::Add, "add"), (symbols::Div, "div"),
        (symbols::Max, "max"), (symbols::Min, "min"), (symbols::Mul, "mul"), (symbols::Sub, "sub"), (symbols::Check, "CHECK"), (symbols::Com, "COM"), (symbols::Run, "RUN"),
    ]
}
fn fixed() -> Vec<Case> {
    let k: Case = kw().iter().map(|k| k.1.to_string()).collect();
    let mut v = vec![k.clone(), k.iter().rev().cloned().collect(), vec!["a".into(), "A".into(), "a ".into(), "".into(), "a".into()]];
    for x in &k {
        v.push(vec![x.clone(), format!("{x}x"), x.to_uppercase(), x.to_lowercase(), x.clone()]);
    }
    v
}
fn gen(r: &mut Rng) -> Case {
    let mut c: Case = vec![];
    for _ in 0..r.range(2, 12) {
        let mut s = match r.below(5) {
            0 => kw()[r.below(13)].1.to_string(),
            1 => format!("{}{}", kw()[r.below(13)].1, r.pick(&["x", " ", "é", "\0"])),
            2 => "ab".repeat(r.below(40)),
            _ => (0..r.below(4)).map(|_| *r.pick(&['a', 'b', 'é', '漢', '0'])).collect(),
        };
        r.salt(&mut s);
        c.push(s);
        if r.chance(1, 3) {
            let k = r.below(c.len());
            let d = c[k].clone();
            c.push(d);
        }
    }
    c
}
fn check(c: &Case) -> Outcome {
    let mut mine: Vec<(String, Symbol)> = vec![];
    for (i, s) in c.iter().enumerate() {
        let y = match i % 5 {
            0 => Symbol::intern(s),
            1 => Symbol::from(s.clone()),
            2 => Symbol::from(&*Box::leak(s.clone().into_boxed_str())),
            3 => Symbol::from(std::borrow::Cow::<'static, str>::Owned(s.clone())),
            _ => Symbol::from(s.clone().into_boxed_str()),
        };
        if y.as_str() != s {
            return Outcome::Fail(format!("{s:?} interned as a symbol that reads {:?}", y.as_str()));
        }
        mine.push((s.clone(), y));
    }
    let mut set = HashMap::new();
    for (a, x) in &mine {
        set.insert(*x, a.clone());
        for (b, y) in &mine {
            if (a == b) != (x == y) || x.cmp(y) != a.cmp(b) || (x.as_u32() == y.as_u32()) != (a == b) {
                return Outcome::Fail(format!("{a:?} and {b:?}: symbols {} and {}", x.as_u32(), y.as_u32()));
            }
        }
    }
    let mut seen = SEEN.lock().unwrap();
    for (a, x) in &mine {
        let e = seen.entry(a.clone()).or_insert((*x, x.as_str()));
        if e.0 != *x || e.1 != a || e.1.as_ptr() != x.as_str().as_ptr() {
            return Outcome::Fail(format!("{a:?} had symbol {} reading {:?}, now {}", e.0.as_u32(), e.1, x.as_u32()));
        }
    }
    if seen.len() > 50_000 {
        seen.clear();
    }
    drop(seen);
    for (k, s) in kw() {
        if k.as_str() != s || Symbol::intern(s) != k {
            return Outcome::Fail(format!("keyword {s:?} has symbol {} reading {:?}, and interning it gives {}", k.as_u32(), k.as_str(), Symbol::intern(s).as_u32()));
        }
        let want = ["LINE", "add", "div", "max", "min", "mul", "sub"].contains(&s);
        if k.is_keyword() != want {
            return Outcome::Fail(format!("is_keyword({s:?}) is {}", k.is_keyword()));
        }
    }
    Outcome::Ok(set.len() > 1)
}
