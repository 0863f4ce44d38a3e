//! Source text positions and edits against plain string arithmetic.
use crate::util::*;
use litcheck::diagnostics::*;
use litcheck::range::Range;
use std::sync::Arc;

pub static P10: Prop = Prop {
    id: "P10",
    rule: "all texts of length <= 5 over {a, LF, CR, e-acute}, then random ones; every offset, line and column in and just out of range; non-trivial when the text is not empty",
    fixed: fixed10,
    gen: gen10,
    check: check10,
};
pub static P11: Prop = Prop {
    id: "P11",
    rule: "every single edit of every text of length <= 3 over {a, LF, e-acute} by every text of length <= 2, then random histories of up to 6 edits; non-trivial when an edit was accepted",
    fixed: fixed11,
    gen: gen11,
    check: check11,
};
pub static P25: Prop = Prop {
    id: "P25",
    rule: "random histories of up to 12 loads, argument loads, updates and reads of 3 names in one source manager; non-trivial when at least two sources were loaded",
    fixed: fixed25,
    gen: gen25,
    check: check25,
};

fn texts(al: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![];
    for n in 0..=max {
        for k in 0..al.len().pow(n as u32) {
            let mut t = String::new();
            let mut x = k;
            for _ in 0..n {
                t.push_str(al[x % al.len()]);
                x /= al.len();
            }
            out.push(t);
        }
    }
    out
}
fn fixed10() -> Vec<Case> {
    texts(&["a", "\n", "\r", "é"], 5).into_iter().map(|t| vec![t]).collect()
}
fn rtext(r: &mut Rng, n: usize) -> String {
    let mut t: String = (0..r.below(n)).map(|_| *r.pick(&["a", "b", "\n", "\n", "\r\n", "é", "漢", "😀", " "])).collect();
    r.salt(&mut t);
    t
}
fn gen10(r: &mut Rng) -> Case {
    vec![rtext(r, 30)]
}
fn src(t: &str) -> SourceContent {
    SourceContent::new(SourceLanguage::Unknown, "f", t.to_string())
}
// the lines of t, each with its end of line
fn lines(t: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = 0;
    for (i, b) in t.bytes().enumerate() {
        if b == b'\n' {
            v.push((s, i + 1));
            s = i + 1;
        }
    }
    v.push((s, t.len()));
    v
}
fn offset(t: &str, line: u32, col: u32) -> Option<usize> {
    let (s, e) = *lines(t).get(line as usize)?;
    let l = &t[s..e];
    l.char_indices().map(|x| x.0).chain([l.len()]).nth(col as usize).map(|o| s + o)
}
fn queries(c: &SourceContent, t: &str) -> Result<(), String> {
    let ls = lines(t);
    if c.as_str() != t {
        return Err(format!("text is {:?}, not {t:?}", c.as_str()));
    }
    if c.line_count() != ls.len() || c.last_line_index().to_usize() != ls.len() - 1 {
        return Err(format!("{} lines, last {}; the text has {}", c.line_count(), c.last_line_index().to_usize(), ls.len()));
    }
    for l in 0..ls.len() + 2 {
        let li = LineIndex(l as u32);
        let g = c.line_range(li).map(|r| (r.start.to_usize(), r.end.to_usize()));
        if g != ls.get(l).copied() || c.line_start(li).map(|x| x.to_usize()) != ls.get(l).map(|x| x.0) {
            return Err(format!("line {l} is {g:?}, not {:?}", ls.get(l)));
        }
        let w = ls.get(l).map(|x| t[x.0..x.1].chars().count()).unwrap_or(0);
        for k in 0..w + 3 {
            let g = c.line_column_to_offset(li, ColumnIndex(k as u32)).map(|x| x.to_usize());
            if g != offset(t, l as u32, k as u32) {
                return Err(format!("line {l} column {k} is at offset {g:?}, not {:?}", offset(t, l as u32, k as u32)));
            }
        }
    }
    for o in 0..t.len() + 3 {
        let line = t.bytes().take(o).filter(|b| *b == b'\n').count();
        let b = ByteIndex(o as u32);
        if o <= t.len() && c.line_index(b).to_usize() != line {
            return Err(format!("offset {o} is on line {}, not {line}", c.line_index(b).to_usize()));
        }
        let want = t.get(ls[line].0..o).filter(|_| o <= t.len()).map(|s| (line as u32 + 1, s.chars().count() as u32 + 1));
        let g = c.location(b).map(|l| (l.line.to_u32(), l.column.to_u32()));
        if g != want {
            return Err(format!("offset {o} is at {g:?}, not {want:?}"));
        }
        if let Some((l, k)) = want {
            let back = c.line_column_to_offset(LineIndex(l - 1), ColumnIndex(k - 1)).map(|x| x.to_usize());
            if back != Some(o) {
                return Err(format!("offset {o} is at {l}:{k}, which is at offset {back:?}"));
            }
        }
    }
    Ok(())
}
fn check10(c: &Case) -> Outcome {
    let t = &c[0];
    let s = src(t);
    if let Err(m) = queries(&s, t) {
        return Outcome::Fail(m);
    }
    let f = SourceFile::from_raw_parts(SourceId::file(3), s.clone());
    let ls = lines(t);
    for l in 1..ls.len() as u32 + 2 {
        for k in 1..6 {
            let g = f.line_column_to_span(LineNumber::new(l).unwrap(), ColumnNumber::new(k).unwrap());
            let want = offset(t, l - 1, k - 1);
            if g.map(|s| (s.source_id(), s.start().to_usize(), s.end().to_usize())) != want.map(|o| (SourceId::file(3), o, o)) {
                return Outcome::Fail(format!("span of {l}:{k} is {g:?}, not {want:?}"));
            }
            if let Some(sp) = g {
                let p = f.location(sp);
                // the end of a line's text is also the start of the next line
                if offset(t, p.line.to_u32() - 1, p.column.to_u32() - 1) != want {
                    return Outcome::Fail(format!("{l}:{k} comes back as {p:?}"));
                }
            }
        }
    }
    let n = t.len().min(9);
    for a in 0..=n + 1 {
        for b in a..=n + 1 {
            if s.source_slice(Range::new(a, b)) != t.get(a..b) || s.byte_slice(Range::new(ByteIndex(a as u32), ByteIndex(b as u32))) != t.as_bytes().get(a..b) {
                return Outcome::Fail(format!("slice {a}..{b} is {:?}", s.source_slice(Range::new(a, b))));
            }
        }
    }
    for l1 in 0..ls.len().min(4) as u32 + 1 {
        for c1 in 0..4 {
            for l2 in 0..ls.len().min(4) as u32 + 1 {
                for c2 in 0..4 {
                    let sel = Selection::new(Position::new(l1, c1), Position::new(l2, c2));
                    let (p, q) = if (l1, c1) <= (l2, c2) { ((l1, c1), (l2, c2)) } else { ((l2, c2), (l1, c1)) };
                    let want = offset(t, p.0, p.1).and_then(|a| offset(t, q.0, q.1).map(|b| (a, b))).map(|(a, b)| if a <= b { Some(&t[a..b]) } else { None });
                    for sel in [sel, Selection { start: Position::new(l1, c1), end: Position::new(l2, c2) }] {
                        if let Some(Some(w)) = want {
                            if s.select(sel) != Some(w) {
                                return Outcome::Fail(format!("selection {p:?}..{q:?} is {:?}, not {w:?}", s.select(sel)));
                            }
                        } else if want.is_none() && s.select(sel).is_some() {
                            return Outcome::Fail(format!("selection {p:?}..{q:?} is outside of the text and yields {:?}", s.select(sel)));
                        }
                    }
                }
            }
        }
    }
    Outcome::Ok(!t.is_empty())
}
// an edit: "l1 c1 l2 c2 text", or "* text"
fn edit(l1: u32, c1: u32, l2: u32, c2: u32, t: &str) -> String {
    format!("{l1} {c1} {l2} {c2} {t}")
}
fn fixed11() -> Vec<Case> {
    let mut out = vec![];
    for t in texts(&["a", "\n", "é"], 3) {
        for n in texts(&["b", "\n"], 2) {
            for (l1, c1) in [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (2, 0)] {
                for (l2, c2) in [(0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (1, 2), (2, 0), (3, 0)] {
                    if (l1, c1) <= (l2, c2) {
                        out.push(vec![t.clone(), edit(l1, c1, l2, c2, &n)]);
                    }
                }
            }
        }
    }
    out
}
fn redit(r: &mut Rng, lines: usize) -> String {
    if r.chance(1, 12) {
        return format!("* {}", rtext(r, 8));
    }
    let mut p = (r.below(lines + 1) as u32, r.below(6) as u32);
    let mut q = (r.below(lines + 1) as u32, r.below(6) as u32);
    if q < p {
        std::mem::swap(&mut p, &mut q);
    }
    edit(p.0, p.1, q.0, q.1, &rtext(r, 6))
}
fn gen11(r: &mut Rng) -> Case {
    let mut c = vec![rtext(r, 14)];
    for _ in 0..r.range(1, 6) {
        c.push(redit(r, 4));
    }
    c
}
fn parse(e: &str) -> Option<(Option<[u32; 4]>, String)> {
    if let Some(t) = e.strip_prefix("* ") {
        return Some((None, t.to_string()));
    }
    let p: Vec<&str> = e.splitn(5, ' ').collect();
    if p.len() < 5 {
        return None;
    }
    let mut n = [0; 4];
    for i in 0..4 {
        n[i] = p[i].parse().ok()?;
    }
    ((n[0], n[1]) <= (n[2], n[3])).then(|| (Some(n), p[4].to_string()))
}
// the text after the edit, None when it is invalid
fn splice(t: &str, e: &(Option<[u32; 4]>, String)) -> Option<String> {
    match e.0 {
        None => Some(e.1.clone()),
        Some(n) => {
            let (a, b) = (offset(t, n[0], n[1])?, offset(t, n[2], n[3])?);
            Some(format!("{}{}{}", &t[..a], e.1, &t[b..]))
        }
    }
}
fn sel(e: &(Option<[u32; 4]>, String)) -> Option<Selection> {
    e.0.map(|n| Selection::new(Position::new(n[0], n[1]), Position::new(n[2], n[3])))
}
fn check11(c: &Case) -> Outcome {
    let mut t = c[0].clone();
    let mut s = src(&t);
    let mut did = false;
    for (i, e) in c[1..].iter().enumerate() {
        let Some(e) = parse(e) else { return Outcome::Skip };
        let before = s.version();
        let g = s.update(e.1.clone(), sel(&e), i as i32 + 1);
        match (g, splice(&t, &e)) {
            (Ok(()), Some(n)) => {
                t = n;
                did = true;
                if s.version() != i as i32 + 1 {
                    return Outcome::Fail("version not updated".into());
                }
            }
            (Err(_), None) => {
                if s.version() != before {
                    return Outcome::Fail("a rejected edit changed the version".into());
                }
            }
            (Ok(()), None) => return Outcome::Fail(format!("edit {i} is outside of the text and was accepted")),
            (Err(m), Some(_)) => return Outcome::Fail(format!("edit {i} is valid and was rejected: {m}")),
        }
        if let Err(m) = queries(&s, &t) {
            return Outcome::Fail(format!("after edit {i}: {m}"));
        }
        if s != src(&t) && s.as_str() != t {
            return Outcome::Fail("differs from a fresh load".into());
        }
    }
    Outcome::Ok(did)
}

fn fixed25() -> Vec<Case> {
    vec![]
}
fn gen25(r: &mut Rng) -> Case {
    (0..r.range(2, 12))
        .map(|_| match r.below(4) {
            0 | 1 => format!("load {} {}", r.below(3), rtext(r, 3)),
            2 => format!("arg {} {}", r.below(3), rtext(r, 3)),
            _ => format!("edit {} {}", r.below(6), redit(r, 2)),
        })
        .collect()
}
fn check25(c: &Case) -> Outcome {
    const NAMES: [&str; 3] = ["x", "y", "z"];
    let m = DefaultSourceManager::default();
    let mut texts: Vec<(SourceId, usize, String)> = vec![]; // id, name, text
    let mut latest: [Option<SourceId>; 3] = [None; 3];
    let mut held: Vec<(SourceFileRef, String)> = vec![];
    for (i, op) in c.iter().enumerate() {
        let p: Vec<&str> = op.splitn(3, ' ').collect();
        if p.len() < 3 {
            return Outcome::Skip;
        }
        let Ok(k) = p[1].parse::<usize>() else { return Outcome::Skip };
        match p[0] {
            "load" | "arg" if k < 3 => {
                let f: Arc<SourceFile> = if p[0] == "load" {
                    m.load(SourceLanguage::Unknown, FileName::from(NAMES[k].to_string()), p[2].to_string())
                } else {
                    m.load_argument(NAMES[k], p[2].to_string())
                };
                if let Some(t) = latest[k].and_then(|id| texts.iter().find(|t| t.0 == id)).filter(|t| t.2 == p[2] && t.0 != f.id()) {
                    return Outcome::Fail(format!("op {i}: loading the text of {:?} again yields {:?}", t.0, f.id()));
                }
                if f.as_str() != p[2] {
                    return Outcome::Fail(format!("op {i}: loading {:?} yields {:?}", p[2], f.as_str()));
                }
                match texts.iter().find(|t| t.0 == f.id()) {
                    Some(t) if t.2 != p[2] => return Outcome::Fail(format!("op {i}: new text under the id of {:?}", t.2)),
                    Some(_) => {}
                    None => texts.push((f.id(), k, p[2].to_string())),
                }
                // a file and an argument may go by the same name
                if p[0] == "load" || f.id().is_cli_argument() {
                    latest[k] = Some(f.id());
                }
                held.push((m.source(f.id()).unwrap(), p[2].to_string()));
            }
            "edit" => {
                let Some(e) = parse(p[2]) else { return Outcome::Skip };
                if texts.is_empty() {
                    continue;
                }
                let j = k % texts.len();
                match (m.update(texts[j].0, e.1.clone(), sel(&e), 7), splice(&texts[j].2, &e)) {
                    (Ok(()), Some(n)) => texts[j].2 = n,
                    (Err(_), None) => {}
                    (g, w) => return Outcome::Fail(format!("op {i}: update gives {g:?}, the splice {w:?}")),
                }
            }
            _ => return Outcome::Skip,
        }
        for (id, _, t) in &texts {
            let f = m.get(*id).map(|f| f.as_str().to_string());
            if f.as_deref().ok() != Some(t.as_str()) || m.source(*id).ok().map(|s| s.as_str().to_string()).as_ref() != Some(t) {
                return Outcome::Fail(format!("after op {i}: {id:?} reads {f:?}, not {t:?}"));
            }
            for (a, b) in [(0, t.len()), (0, t.len() + 1), (1, t.len()), (0, 1)] {
                if a <= b {
                    let g = m.source_slice(SourceSpan::new(*id, Range::new(a as u32, b as u32))).ok().map(|s| s.as_str().to_string());
                    if g.as_deref() != t.get(a..b) {
                        return Outcome::Fail(format!("after op {i}: slice {a}..{b} of {t:?} is {g:?}"));
                    }
                }
            }
        }
        for (k, n) in NAMES.iter().enumerate() {
            if m.find(&FileName::from(n.to_string())) != latest[k] {
                return Outcome::Fail(format!("after op {i}: {n} is {:?}, not {:?}", m.find(&FileName::from(n.to_string())), latest[k]));
            }
        }
        for (h, t) in &held {
            if h.as_str() != t {
                return Outcome::Fail(format!("after op {i}: a handle on {t:?} now reads {:?}", h.as_str()));
            }
        }
        for bad in [SourceId::file(texts.len() as u32 + 1), SourceId::argument(texts.len() as u32 + 1), SourceId::UNKNOWN] {
            if m.get(bad).is_ok() || m.source(bad).is_ok() {
                return Outcome::Fail(format!("{bad:?} was never allocated and reads something"));
            }
            if m.update(bad, String::new(), None, 9).is_ok() {
                return Outcome::Fail(format!("{bad:?} was never allocated and is updated"));
            }
        }
    }
    Outcome::Ok(texts.len() > 1)
}
