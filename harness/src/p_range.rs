//! Ranges against sets of positions; newline searches against a scan.
use crate::util::*;
use litcheck::range::{range_from_bounds, range_from_bounds_with_defaults, Range};
use litcheck::text::*;
use std::ops::Bound;

pub static PROP: Prop = Prop {
    id: "P15",
    rule: "range operations on all small ranges and on extreme ones, newline searches on all texts of length <= 5 over {a, CR, LF, e-acute} with all sub-ranges, then random longer ones; non-trivial when the range is not empty",
    fixed,
    gen,
    check,
};

fn bounds() -> Vec<String> {
    let mut v = vec!["U".to_string()];
    for i in 0..5 {
        v.push(format!("I{i}"));
        v.push(format!("E{i}"));
    }
    v
}
fn fixed() -> Vec<Case> {
    let mut out = vec![];
    let ops = ["len", "pop_front", "pop_back", "shrink_front", "truncate", "contains", "empty"];
    for (a, b) in (0..5usize).flat_map(|a| (a..5).map(move |b| (a, b))).chain([(usize::MAX - 2, usize::MAX), (0, usize::MAX), (usize::MAX, usize::MAX)]) {
        for op in ops {
            for n in [0, 1, 2, 3, 4, 5, usize::MAX] {
                out.push(vec![op.into(), a.to_string(), b.to_string(), n.to_string()]);
            }
        }
    }
    for (a, b) in (0..4usize).flat_map(|a| (a..4).map(move |b| (a, b))) {
        for s in bounds() {
            for e in bounds() {
                out.push(vec!["bounds".into(), a.to_string(), b.to_string(), s.clone(), e.clone()]);
            }
        }
    }
    let al = ["a", "\r", "\n", "é"];
    for n in 0..=5usize {
        for k in 0..al.len().pow(n as u32) {
            let mut t = String::new();
            let mut x = k;
            for _ in 0..n {
                t.push_str(al[x % 4]);
                x /= 4;
            }
            out.push(vec!["text".into(), t]);
        }
    }
    out
}
fn gen(r: &mut Rng) -> Case {
    if r.chance(1, 2) {
        let mut t = String::new();
        for _ in 0..r.range(4, 24) {
            t.push_str(r.pick(&["a", "b", "\n", "\r\n", "\r", "é", "漢", "\n\n"]));
        }
        r.salt(&mut t);
        vec!["text".into(), t.chars().take(120).collect()]
    } else {
        let a = r.next() as usize;
        let b = r.next() as usize;
        let (a, b) = (a.min(b), a.max(b));
        let n = if r.chance(1, 2) { r.next() as usize } else { (b - a).wrapping_add(r.below(5)).wrapping_sub(2) };
        vec![r.pick(&["len", "pop_front", "pop_back", "shrink_front", "truncate", "contains", "empty"]).to_string(), a.to_string(), b.to_string(), n.to_string()]
    }
}
fn bad(what: &str, got: impl std::fmt::Debug, want: impl std::fmt::Debug) -> Outcome {
    Outcome::Fail(format!("{what}: got {got:?}, the set of positions gives {want:?}"))
}
fn check(c: &Case) -> Outcome {
    if c[0] == "text" {
        return text(c[1].as_bytes());
    }
    let (Ok(a), Ok(b)) = (c[1].parse::<usize>(), c[2].parse::<usize>()) else { return Outcome::Skip };
    if a > b {
        return Outcome::Skip;
    }
    if c[0] == "bounds" {
        return bnd(a, b, &c[3], &c[4]);
    }
    let Ok(n) = c[3].parse::<usize>() else { return Outcome::Skip };
    let mut r = Range::new(a, b);
    let q = |r: Range<usize>| (r.start, r.end);
    match c[0].as_str() {
        "len" if r.len() != b - a => return bad("len", r.len(), b - a),
        "empty" if r.is_empty() != (a == b) => return bad("is_empty", r.is_empty(), a == b),
        "contains" => {
            for x in [a, b, n, a.wrapping_sub(1), b.wrapping_sub(1), a.wrapping_add(1)] {
                if r.contains(&x) != (a <= x && x < b) {
                    return bad("contains", r.contains(&x), x);
                }
            }
        }
        "pop_front" => {
            let g = r.pop_front();
            let want = if a < b { (Some(a), (a + 1, b)) } else { (None, (a, b)) };
            if (g, q(r)) != want {
                return bad("pop_front", (g, q(r)), want);
            }
        }
        "pop_back" => {
            let g = r.pop_back();
            let want = if a < b { (Some(b - 1), (a, b - 1)) } else { (None, (a, b)) };
            if (g, q(r)) != want {
                return bad("pop_back", (g, q(r)), want);
            }
        }
        "shrink_front" => {
            r.shrink_front(n);
            let want = (a + n.min(b - a), b);
            if q(r) != want {
                return bad("shrink_front", q(r), want);
            }
        }
        "truncate" => {
            let g = guarded(|| {
                let mut r = Range::new(a, b);
                r.truncate(n);
                q(r)
            })
            .ok();
            let want = if n <= b - a { Some((a, a + n)) } else { None };
            if g != want {
                return bad("truncate", g, want);
            }
        }
        _ => {}
    }
    if guarded(|| Range::new(a, b)).is_err() || (a < b && guarded(|| Range::new(b, a)).is_ok()) {
        return bad("Range::new", "accepted or rejected", (a, b));
    }
    Outcome::Ok(a < b)
}
fn bound(s: &str) -> Option<Bound<usize>> {
    Some(match s.chars().next()? {
        'U' => Bound::Unbounded,
        'I' => Bound::Included(s[1..].parse().ok()?),
        _ => Bound::Excluded(s[1..].parse().ok()?),
    })
}
fn bnd(a: usize, b: usize, s: &str, e: &str) -> Outcome {
    let (Some(s), Some(e)) = (bound(s), bound(e)) else { return Outcome::Skip };
    let f = |dl: usize, dh: usize| {
        let lo = match s {
            Bound::Unbounded => dl,
            Bound::Included(i) => i,
            Bound::Excluded(i) => i + 1,
        };
        let hi = match e {
            Bound::Unbounded => dh,
            Bound::Included(i) => i + 1,
            Bound::Excluded(i) => i,
        };
        (lo, hi)
    };
    let (lo, hi) = f(a, b);
    let ok = lo <= hi && a <= lo && hi <= b;
    match range_from_bounds((s, e), Range::new(a, b)) {
        Ok(r) if !ok || (r.start, r.end) != (lo, hi) => return bad("range_from_bounds", (r.start, r.end), (lo, hi, ok)),
        Err(r) if ok || (r.start, r.end) != (lo, hi) => return bad("range_from_bounds rejected", (r.start, r.end), (lo, hi, ok)),
        _ => {}
    }
    if lo <= hi {
        let r = range_from_bounds_with_defaults((s, e), a, b);
        if (r.start, r.end) != (lo, hi) {
            return bad("range_from_bounds_with_defaults", (r.start, r.end), (lo, hi));
        }
    }
    Outcome::Ok(a < b)
}
fn text(t: &[u8]) -> Outcome {
    let n = t.len();
    // the newline whose LF is at i
    let nl = |i: usize| if i > 0 && t[i - 1] == b'\r' { (i - 1, "Crlf") } else { (i, "Lf") };
    let got = |x: Newline| (x.offset, match x.ty {
        LineEnding::Lf => "Lf",
        LineEnding::Crlf => "Crlf",
        LineEnding::None => "None",
    });
    for o in 0..=n {
        let want = (o..n).find(|&i| t[i] == b'\n').map(nl).unwrap_or((n, "None"));
        let x = Newline::next_from(t, o);
        if got(x) != want || (o == 0 && got(Newline::next(t)) != want) {
            return bad(&format!("next newline from {o}"), got(x), want);
        }
        let after = want.0 + match want.1 { "Lf" => 1, "Crlf" => 2, _ => 0 };
        if x.next_line_start() != after || x.is_crlf() != (want.1 == "Crlf") || x.offset() != want.0 {
            return bad("next_line_start", x.next_line_start(), after);
        }
        let want = (0..o).rev().find(|&i| t[i] == b'\n').map(nl).unwrap_or((0, "None"));
        let x = Newline::prev_from(t, o);
        if got(x) != want || (o == n && got(Newline::prev(t)) != want) {
            return bad(&format!("previous newline from {o}"), got(x), want);
        }
        let cb = o == n || t[o] & 0xC0 != 0x80;
        if is_char_boundary(t, o) != cb {
            return bad(&format!("is_char_boundary({o})"), !cb, cb);
        }
    }
    if is_char_boundary(t, n + 1) {
        return bad("is_char_boundary past the end", true, false);
    }
    for a in 0..=n {
        for b in a..=n {
            let r = Range::new(a, b);
            let lf = |i: &usize| t[*i] == b'\n';
            let crlf = |i: &usize| *i + 1 < b && t[*i] == b'\r' && t[*i + 1] == b'\n';
            for (w, g, x) in [
                ("next lf", find_next_lf_or_eof(t, r), (a..b).find(lf)),
                ("prev lf", find_prev_lf_or_eof(t, r), (a..b).rev().find(lf)),
                ("next crlf", find_next_crlf_or_eof(t, r), (a..b).find(crlf)),
                ("prev crlf", find_prev_crlf_or_eof(t, r), (a..b).rev().find(crlf)),
            ] {
                if g != x {
                    return bad(&format!("{w} in {a}..{b}"), g, x);
                }
            }
        }
    }
    Outcome::Ok(n > 0)
}
