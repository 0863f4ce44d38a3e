//! The path-prefix tree against a list of (path, value) pairs.
use crate::util::*;
use litcheck::fs::PathPrefixTree;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Component, Path, PathBuf};

pub static PROP: Prop = Prop {
    id: "P13",
    rule: "1-10 paths inserted in a row -- absolute and relative, existing directories and files and paths that do not exist, with `.` and `..` --, after each of them every prefix and sibling of a path looked up, and the tree walked; non-trivial when three different paths were stored",
    fixed,
    gen,
    check,
};
fn fixed() -> Vec<Case> {
    let ps = ["/nx", "/nx/a", "/nx/a/b", "/nx/b", "/ny", "@", "@/d", "@/d/e", "@/f", "@/d/new", "rel", "rel/a", "rel/a/b", "other"];
    let mut v = vec![];
    for a in ps {
        for b in ps {
            for c in ps {
                v.push(vec![a.to_string(), b.to_string(), c.to_string()]);
            }
        }
    }
    for l in ["/nx/../ny|/ny|/", "/nx/a/..|/nx|/nx/b", "/../nx|/nx", "../x|../../x|x", "./rel|rel", "..|../a|a", "/nx/.|/nx", "/nx//a|/nx/a", "/nx/..|/nx|/", "@/d/..|@", "@/f/x|@/f", "@/f|@/f/x|@/f/y"] {
        v.push(l.split('|').map(|s| s.to_string()).collect());
    }
    v
}
fn gen(r: &mut Rng) -> Case {
    let mut v: Vec<String> = vec![];
    for _ in 0..r.range(1, 10) {
        let mut s: String = match r.below(12) {
            0..=5 => "/nx".into(),
            6 => "/ny".into(),
            7 | 8 => (*r.pick(&["@", "@/d", "@/d/e", "@/f", "@/d/g"])).into(),
            9 => "..".into(),
            10 => "rel".into(),
            _ => (*r.pick(&["a", "b", "."])).into(),
        };
        if !v.is_empty() && r.chance(1, 3) {
            s = r.pick(&v).clone();
        }
        for _ in 0..r.below(5) {
            s += "/";
            s += r.pick::<&str>(&["a", "b", "ab", "c.txt", "é", "a b", "..", ".", "", "new"]);
        }
        if r.chance(1, 30) {
            s += "/";
            r.salt(&mut s);
            s.retain(|c| c != '\0');
        }
        v.push(s);
    }
    v
}
fn world() -> PathBuf {
    static W: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let base = std::env::var("VH_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
        let d = PathBuf::from(base).join(format!("paths{}", std::process::id()));
        std::fs::create_dir_all(d.join("d/e")).unwrap();
        std::fs::write(d.join("f"), "").unwrap();
        std::fs::write(d.join("d/g"), "").unwrap();
        d.canonicalize().unwrap()
    })
    .clone()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ty {
    Unknown,
    File,
    Dir,
}
/// the canonical form: that of the file system, for a path which does not exist its text without `.` and with `..` resolved
fn canon(p: &Path) -> (Vec<String>, Ty) {
    let comps = |p: &Path| p.components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect::<Vec<_>>();
    if let Ok(q) = p.canonicalize() {
        let t = if q.is_dir() { Ty::Dir } else { Ty::File };
        return (comps(&q), t);
    }
    let mut v: Vec<String> = vec![];
    for c in p.components() {
        match c {
            Component::CurDir => (),
            Component::ParentDir => match v.last().map(|s| s.as_str()) {
                None | Some("..") => v.push("..".into()),
                Some("/") => (),
                _ => {
                    v.pop();
                }
            },
            c => v.push(c.as_os_str().to_string_lossy().into_owned()),
        }
    }
    (v, Ty::Unknown)
}
fn path(v: &[String]) -> PathBuf {
    v.iter().collect()
}
fn check(c: &Case) -> Outcome {
    let w = world();
    let w = w.to_str().unwrap();
    let mut t: PathPrefixTree<usize> = PathPrefixTree::new();
    let mut m: BTreeMap<Vec<String>, usize> = BTreeMap::new();
    let mut typed: BTreeMap<Vec<String>, Ty> = BTreeMap::new();
    let mut qs: BTreeSet<Vec<String>> = BTreeSet::new();
    let proper = |a: &[String], b: &[String]| a.len() < b.len() && b[..a.len()] == *a;
    for (i, s) in c.iter().enumerate() {
        let p = s.strip_prefix('@').map(|r| format!("{w}{r}")).unwrap_or(s.clone());
        if p.contains('\u{fffd}') {
            return Outcome::Skip;
        }
        let (k, ty) = canon(Path::new(&p));
        if k.is_empty() {
            return Outcome::Skip;
        }
        let r = t.try_insert(&p, i);
        let below = m.keys().any(|q| proper(&k, q));
        let blocked = typed.iter().any(|(q, ty)| *ty == Ty::File && proper(q, &k));
        match r {
            Ok(()) => {
                m.insert(k.clone(), i);
                let e = typed.entry(k.clone()).or_insert(ty);
                if *e != Ty::Dir {
                    *e = ty;
                }
            }
            // a file has no descendants
            Err(_) if blocked || ty == Ty::File && (below || typed.get(&k) == Some(&Ty::Dir)) => (),
            Err(e) => return Outcome::Fail(format!("inserting `{p}` failed: {e}")),
        }
        for n in 1..=k.len() {
            qs.insert(k[..n].to_vec());
        }
        for x in ["a", "ab", "zz"] {
            let mut s = k.clone();
            s.push(x.into());
            qs.insert(s.clone());
            s.push("y".into());
            qs.insert(s);
            let mut s = k.clone();
            *s.last_mut().unwrap() = x.into();
            qs.insert(s);
        }
        let dir = |q: &Vec<String>| typed[q] == Ty::Dir || m.keys().any(|o| proper(q, o));
        for q in &qs {
            let qp = path(q);
            if canon(&qp).0 != *q {
                continue;
            }
            let got = t.get(&qp).copied();
            if got != m.get(q).copied() || t.get_mut(&qp).copied() != got {
                return Outcome::Fail(format!("after inserting {:?}: `{}` has the value {:?}, should have {:?}", &c[..=i], qp.display(), got, m.get(q)));
            }
            if t.contains(&qp) != m.contains_key(q) {
                return Outcome::Fail(format!("after inserting {:?}: contains(`{}`) is {}", &c[..=i], qp.display(), t.contains(&qp)));
            }
            let want = m.iter().filter(|(o, _)| proper(o, q) && dir(o)).max_by_key(|(o, _)| o.len());
            let got = t.nearest_ancestor(&qp).map(|e| (e.path.clone(), *e.data));
            if got != want.map(|(o, v)| (path(o), *v)) {
                return Outcome::Fail(format!("after inserting {:?}: the nearest ancestor of `{}` is {:?}, should be {:?}", &c[..=i], qp.display(), got, want));
            }
        }
        let mut all: Vec<(PathBuf, usize)> = t.iter().map(|e| (e.path.clone(), *e.data)).collect();
        all.sort();
        let mut want: Vec<(PathBuf, usize)> = m.iter().map(|(k, v)| (path(k), *v)).collect();
        want.sort();
        if all != want {
            return Outcome::Fail(format!("after inserting {:?}: the tree visits {all:?}, should visit {want:?}", &c[..=i]));
        }
        let mut all: Vec<PathBuf> = t.files().map(|e| e.path.clone()).collect();
        all.sort();
        let mut want: Vec<PathBuf> = m.keys().filter(|k| !dir(k)).map(|k| path(k)).collect();
        want.sort();
        if all != want {
            return Outcome::Fail(format!("after inserting {:?}: the files are {all:?}, should be {want:?}", &c[..=i]));
        }
    }
    Outcome::Ok(m.len() > 2)
}
