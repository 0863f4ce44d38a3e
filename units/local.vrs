//@@ include subst.vrs
// the configuration of a directory: its local configuration on top of what encloses it
verus! {
// ---------------------------------------------------------------- values of the settings
pub type Ts = Seq<T>;
#[verifier::external_body] // litcheck::fs::PatternSet, by its patterns
pub struct PatternSet { x: u8 }
impl PatternSet {
    pub uninterp spec fn v(&self) -> Ts;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v().len() == 0) { unimplemented!() }
    #[verifier::external_body] // derived
    pub fn clone(&self) -> (r: Self) ensures r.v() == self.v() { unimplemented!() }
}
#[verifier::external_body] // BTreeMap<StaticCow<str>, StaticCow<str>>, by its entries
pub struct EnvMap { x: u8 }
impl EnvMap {
    pub uninterp spec fn v(&self) -> Map<T, T>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v() == Map::<T, T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body] // Extend: later entries replace earlier ones
    pub fn extend(&mut self, e: EnvMap) ensures final(self).v() == old(self).v().union_prefer_right(e.v()) { unimplemented!() }
}
#[verifier::external_body] // BTreeSet<StaticCow<str>>, by its elements
pub struct NameSet { x: u8 }
impl NameSet {
    pub uninterp spec fn v(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v() == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body] // Extend with the elements of a FeatureSet
    pub fn extend(&mut self, e: FeatureSet) ensures final(self).v() == old(self).v().union(e.features.v()) { unimplemented!() }
}
//@@ item lit/src/config/features.rs :: struct FeatureSet
//@@ sub `BTreeSet<StaticCow<str>>` => `NameSet`
//@@ end
impl FeatureSet {
    #[verifier::external_body] // derived
    pub fn clone(&self) -> (r: Self) ensures r.features.v() == self.features.v() { unimplemented!() }
//@@ fn lit/src/config/features.rs :: impl FeatureSet :: is_empty
//@@ ret r
//@@ spec
    ensures r == (self.features.v() == Set::<T>::empty())
//@@ end
//@@ fn lit/src/config/features.rs :: impl FeatureSet :: extend
//@@ sig `pub fn extend(&mut self, features: FeatureSet)`
//@@ pre! `features.into_iter().map(StaticCow::from)` => `features`
//@@ spec
    ensures final(self).features.v() == old(self).features.v().union(features.features.v())
//@@ end
}
/// all the entries of `b` put into `a`
pub open spec fn puts(a: Seq<KV>, b: Seq<KV>) -> Seq<KV> decreases b.len() { if b.len() == 0 { a } else { put(puts(a, b.drop_last()), b.last().k, b.last().v) } }
/// what a set of substitutions says about a pattern
pub open spec fn says(m: Seq<KV>, k: T) -> Option<T> { if ink(m, k) { Some(val(m, k)) } else { None } }
pub open spec fn meaning(m: Seq<KV>) -> spec_fn(T) -> Option<T> { |k: T| says(m, k) }
pub open spec fn or_up(l: Option<T>, up: Option<T>) -> Option<T> { if l is Some { l } else { up } }
pub proof fn lemma_put(m: Seq<KV>, k: T, v: T)
    requires uniq(m)
    ensures uniq(put(m, k, v)), forall|j: T| #[trigger] says(put(m, k, v), j) == (if j == k { Some(v) } else { says(m, j) })
{
    let p = put(m, k, v);
    if ink(m, k) {
        let i = ixof(m, k);
        assert(m[i].k == k);
        assert forall|a: int, b: int| 0 <= a < p.len() && 0 <= b < p.len() && #[trigger] p[a].k == #[trigger] p[b].k implies a == b by { assert(p[a].k == m[a].k && p[b].k == m[b].k); }
        assert forall|j: T| #[trigger] says(p, j) == (if j == k { Some(v) } else { says(m, j) }) by {
            if ink(p, j) { let a = ixof(p, j); assert(p[a].k == m[a].k); assert(m[a].k == j); assert(ink(m, j)); assert(ixof(m, j) == a); }
            if ink(m, j) { let a = ixof(m, j); assert(p[a].k == m[a].k); assert(p[a].k == j); assert(ink(p, j)); assert(ixof(p, j) == a); }
        }
    } else {
        assert forall|a: int, b: int| 0 <= a < p.len() && 0 <= b < p.len() && #[trigger] p[a].k == #[trigger] p[b].k implies a == b by {
            if a < m.len() { assert(p[a] == m[a]); } if b < m.len() { assert(p[b] == m[b]); }
        }
        assert forall|j: T| #[trigger] says(p, j) == (if j == k { Some(v) } else { says(m, j) }) by {
            assert(p[m.len() as int].k == k);
            if ink(p, j) { let a = ixof(p, j); assert(p[a].k == j); if a < m.len() { assert(m[a].k == j); assert(ink(m, j)); assert(ixof(m, j) == a); } else { assert(j == k); } }
            if ink(m, j) { let a = ixof(m, j); assert(m[a].k == j); assert(p[a].k == j); assert(ink(p, j)); assert(ixof(p, j) == a); }
            if j == k { assert(ink(p, j)); assert(ixof(p, j) == m.len()); }
        }
    }
}
pub proof fn lemma_puts(a: Seq<KV>, b: Seq<KV>)
    requires uniq(a), uniq(b)
    ensures uniq(puts(a, b)), forall|j: T| #[trigger] says(puts(a, b), j) == or_up(says(b, j), says(a, j))
    decreases b.len()
{
    if b.len() > 0 {
        let c = b.drop_last(); let l = b.last();
        assert(uniq(c)) by { assert forall|x: int, y: int| 0 <= x < c.len() && 0 <= y < c.len() && #[trigger] c[x].k == #[trigger] c[y].k implies x == y by { assert(c[x] == b[x] && c[y] == b[y]); } }
        lemma_puts(a, c);
        lemma_put(puts(a, c), l.k, l.v);
        assert(!ink(c, l.k)) by { if ink(c, l.k) { let i = ixof(c, l.k); assert(c[i].k == l.k); assert(b[i].k == b[b.len() - 1].k); } }
        assert(put(c, l.k, l.v) =~= b);
        lemma_put(c, l.k, l.v);
    } else {
        assert forall|j: T| #[trigger] says(puts(a, b), j) == or_up(says(b, j), says(a, j)) by { }
    }
}
impl FxIndexMap<Cow<'static, str>, Cow<'static, str>> {
    #[verifier::external_body] // Extend: inserts the entries in order
    pub fn extend(&mut self, e: SubstitutionSet) ensures final(self).m() == puts(old(self).m(), e.m()) { unimplemented!() }
}
/// keys of an IndexMap are distinct
pub broadcast axiom fn subs_uniq(s: SubstitutionSet) ensures uniq(#[trigger] s.m());
impl SubstitutionSet {
    #[verifier::external_body] // derived
    pub fn clone(&self) -> (r: Self) ensures r.m() == self.m() { unimplemented!() }
//@@ fn lit/src/config/substitutions.rs :: impl SubstitutionSet :: extend
//@@ sig `pub fn extend(&mut self, substitutions: SubstitutionSet)`
//@@ pre! `substitutions.into_iter().map(|(k, v)| (StaticCow::from(k), StaticCow::from(v)))` => `substitutions`
//@@ spec
    ensures forall|j: T| #[trigger] says(final(self).m(), j) == or_up(says(substitutions.m(), j), says(old(self).m(), j))
//@@ at entry
        broadcast use subs_uniq;
        proof { lemma_puts(self.m(), substitutions.m()); }
//@@ end
}
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct ShTest { x: u8 }
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct ExecutableTest { x: u8 }
//@@ item lit/src/format.rs :: enum SelectedTestFormat
//@@ sub `crate::formats::` => ``
//@@ end
impl SelectedTestFormat {
    #[verifier::external_body] // derived
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---------------------------------------------------------------- inheritance
//@@ item lit/src/test/config.rs :: struct TestConfig
//@@ sub `BTreeMap<StaticCow<str>, StaticCow<str>>` => `EnvMap`
//@@ end
/// the settings of a configuration
pub struct TC { pub format: SelectedTestFormat, pub patterns: Ts, pub exclude: Ts, pub env: Map<T, T>, pub subs: spec_fn(T) -> Option<T>, pub features: Set<T> }
pub open spec fn tc(c: TestConfig) -> TC {
    TC { format: c.format, patterns: c.patterns.v(), exclude: c.exclude.v(), env: c.env.v(), subs: meaning(c.substitutions.m()), features: c.available_features.features.v() }
}
/// what is set locally, on top of what encloses it
pub open spec fn on_top(l: TC, up: TC) -> TC {
    TC {
        format: if l.format is Default { up.format } else { l.format },
        patterns: if l.patterns.len() == 0 { up.patterns } else { l.patterns },
        exclude: if l.exclude.len() == 0 { up.exclude } else { l.exclude },
        env: up.env.union_prefer_right(l.env),
        subs: |k: T| or_up((l.subs)(k), (up.subs)(k)),
        features: up.features.union(l.features),
    }
}
pub assume_specification<X> [core::mem::replace](dst: &mut X, src: X) -> (r: X) ensures r == *old(dst), *final(dst) == src;
impl TestConfig {
//@@ fn lit/src/test/config.rs :: impl TestConfig :: inherit
//@@ spec
    ensures tc(*final(self)) == on_top(tc(*old(self)), tc(*parent))
//@@ at entry
        let ghost g = *self;
//@@ at end
        proof {
            let (a, b, c) = (tc(g), tc(*parent), tc(*self));
            assert(a.patterns.len() == 0 ==> c.patterns == b.patterns);
            assert(c.env =~= b.env.union_prefer_right(a.env));
            assert(c.features =~= b.features.union(a.features));
            assert forall|k: T| (#[trigger] (c.subs)(k)) == or_up((a.subs)(k), (b.subs)(k)) by { assert(says(self.substitutions.m(), k) == or_up(says(g.substitutions.m(), k), says(parent.substitutions.m(), k))); }
            assert(c.subs =~= on_top(a, b).subs);
        }
//@@ end
}

// ---------------------------------------------------------------- the levels between a suite and a directory
use std::sync::Arc;
pub enum Comp { Root, Other(int) }
pub type Ps = Seq<Comp>;
pub open spec fn pre(c: Ps, p: Ps) -> bool { c.len() <= p.len() && p.take(c.len() as int) == c }
pub open spec fn absolute(p: Ps) -> bool { p.len() > 0 && p[0] == Comp::Root }
pub open spec fn joined(p: Ps, q: Ps) -> Ps { if absolute(q) { q } else { p + q } }
#[verifier::external_body] // std::path, by the components of a path
pub struct PathBuf { x: u8 }
pub type Path = PathBuf;
pub uninterp spec fn is_dir(p: Ps) -> bool;
impl PathBuf {
    pub uninterp spec fn v(&self) -> Ps;
    #[verifier::external_body] // only the first component of a path is its root
    pub proof fn ok(&self) ensures forall|i: int| 0 < i < self.v().len() ==> #[trigger] self.v()[i] != Comp::Root { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, p: &Path) -> (r: PathBuf) ensures r.v() == joined(self.v(), p.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == is_dir(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
        ensures match r { Some(q) => self.v().len() > 0 && self.v().last() != Comp::Root && q.v() == self.v().drop_last(), None => self.v().len() == 0 || self.v().last() == Comp::Root } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, c: &Path) -> (r: bool) ensures r == pre(c.v(), self.v()) { unimplemented!() }
}
pub fn rt_some<'a>(p: Option<&'a Path>) -> (r: &'a Path) requires p is Some ensures Some(r) == p { match p { Some(r) => r, None => rt_unreachable() } }
pub struct Config { pub x: u8 }
/// what the file lit.local.toml in a directory sets, if there is one
pub uninterp spec fn local(dir: Ps) -> Option<TC>;
#[verifier::external_body] // walkdir::DirEntry of a lit.local.toml
pub struct DirEntry { x: u8 }
impl DirEntry {
    pub uninterp spec fn dir(&self) -> Ps;
    #[verifier::external_body]
    pub fn path(&self) -> (r: ConfigPath) ensures r.dir() == self.dir() { unimplemented!() }
}
#[verifier::external_body] // the path of a lit.local.toml
pub struct ConfigPath { x: u8 }
impl ConfigPath { pub uninterp spec fn dir(&self) -> Ps; }
#[verifier::external_body] // the entries named lit.local.toml of a directory
pub struct Found { x: u8 }
impl Found {
    pub uninterp spec fn dir(&self) -> Ps;
    pub uninterp spec fn new(&self) -> bool;
    #[verifier::external_body] // Iterator::next
    pub fn next(&mut self) -> (r: Option<DiagResult<DirEntry>>)
        ensures !final(self).new(), final(self).dir() == old(self).dir(), old(self).new() ==> match r { None => local(old(self).dir()) is None, Some(Ok(e)) => local(old(self).dir()) is Some && e.dir() == old(self).dir(), Some(Err(_)) => true } { unimplemented!() }
}
#[verifier::external_body] // fs::search_directory of one directory for the name lit.local.toml
pub fn rt_search(p: &Path) -> (r: Found) ensures r.dir() == p.v(), r.new() { unimplemented!() }
pub fn rt_diag<X>(r: DiagResult<X>) -> (o: DiagResult<X>) ensures o == r { r }
impl TestConfig {
    #[verifier::external_body] // reads the file (serde, toml)
    pub fn parse(p: ConfigPath, config: &Config) -> (r: DiagResult<Box<TestConfig>>)
        ensures r matches Ok(c) ==> local(p.dir()) == Some(tc(*c)) { unimplemented!() }
}
#[verifier::external_body] // Arc::clone
pub fn rt_share(a: &Arc<TestConfig>) -> (r: Arc<TestConfig>) ensures r == *a { unimplemented!() }
#[verifier::external_body] // Arc::from(Box)
pub fn rt_arc(b: Box<TestConfig>) -> (r: Arc<TestConfig>) ensures *r == *b { unimplemented!() }
pub struct TestSuite { pub source: PathBuf, pub config: Arc<TestConfig> }
impl TestSuite { pub fn source_dir(&self) -> (r: &Path) ensures *r == self.source { &self.source } }
#[verifier::external_body] // PathPrefixTree<Arc<TestConfig>>: its contracts are proved in unit `paths`
pub struct Cache { x: u8 }
impl Cache {
    pub uninterp spec fn v(&self) -> Map<Ps, TC>;
    #[verifier::external_body]
    pub fn get(&self, p: &Path) -> (r: Option<&Arc<TestConfig>>) ensures match r { Some(c) => self.v().dom().contains(p.v()) && self.v()[p.v()] == tc(**c), None => !self.v().dom().contains(p.v()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, p: &Path, c: Arc<TestConfig>) ensures final(self).v() == old(self).v().insert(p.v(), tc(*c)) { unimplemented!() }
}
/// the configuration of a directory: `base` outside of the suite, and at every level from its
/// source directory on what is set there on top of the configuration of the level above
pub open spec fn conf(src: Ps, base: TC, p: Ps) -> TC decreases p.len() {
    if p.len() < src.len() || p.len() == 0 { base }
    else { match local(p) { Some(l) => on_top(l, conf(src, base, p.drop_last())), None => conf(src, base, p.drop_last()) } }
}
pub open spec fn base_of(suite: &TestSuite) -> TC { tc(*suite.config) }
/// the directory of a path in a suite
pub open spec fn dir_of(src: Ps, p: Ps) -> Ps { let q = joined(src, p); if is_dir(q) { q } else { q.drop_last() } }
pub open spec fn cache_ok(m: Map<Ps, TC>, src: Ps, base: TC) -> bool { forall|p: Ps| #[trigger] m.dom().contains(p) && pre(src, p) ==> m[p] == conf(src, base, p) }
/// above the source directory there is nothing but the configuration of the suite
pub proof fn lemma_outside(s: Ps, base: TC, d: Ps, k: int)
    requires 0 <= k <= d.len(), pre(s, d), s.len() > 0
    ensures k < s.len() ==> conf(s, base, d.take(k)) == base, k >= s.len() ==> pre(s, d.take(k)), pre(s, d.take(k)) ==> k >= s.len()
{ if k >= s.len() { assert(d.take(k).take(s.len() as int) =~= d.take(s.len() as int)); } }
pub proof fn lemma_pre(s: Ps, d: Ps, k: int)
    requires 0 <= k <= d.len(), pre(s, d), s.len() > 0
    ensures k > 0 ==> (k - 1 < s.len() ==> !pre(s, d.take(k - 1)))
{ }
//@@ fn lit/src/suite/registry/default.rs :: get_local_config
//@@ sig `fn get_local_config(suite: &TestSuite, path_in_suite: &Path, lit: &Config, local_config_cache: &mut Cache) -> (r: DiagResult<Arc<TestConfig>>)`
//@@ pre `path.parent().unwrap()` => `rt_some(path.parent())`
//@@ pre! `fs::search_directory($p, false, |entry| entry.file_name() == "lit.local.toml")` => `rt_search($p)`
//@@ pre `for level in path.ancestors() { $X }` => `let mut rt_o = Some(&path); loop { match rt_o { None => { break; } Some(level) => { rt_o = level.parent(); $X } } }`
//@@ pre `while let Some(level) = levels.pop() { $X }` => `loop { match levels.pop() { None => { break; } Some(level) => { $X } } }`
//@@ pre `Vec::new()` => `Vec::<&Path>::new()`
//@@ pre `suite.config.clone()` => `rt_share(&suite.config)`
//@@ pre `cached.clone()` => `rt_share(cached)`
//@@ pre `config.clone()` => `rt_share(&config)`
//@@ pre `entry.into_diagnostic()?` => `rt_diag(entry)?`
//@@ pre `Arc::<TestConfig>::from($e)` => `rt_arc($e)`
//@@ spec
    requires
        absolute(suite.source.v()), pre(suite.source.v(), dir_of(suite.source.v(), path_in_suite.v())),
        is_dir(joined(suite.source.v(), path_in_suite.v())) || joined(suite.source.v(), path_in_suite.v()).last() != Comp::Root,
        cache_ok(old(local_config_cache).v(), suite.source.v(), tc(*suite.config)),
    ensures
        cache_ok(final(local_config_cache).v(), suite.source.v(), tc(*suite.config)),
        r matches Ok(c) ==> tc(*c) == conf(suite.source.v(), tc(*suite.config), dir_of(suite.source.v(), path_in_suite.v())),
//@@ at before `let mut config`
    let ghost d = path.v(); let ghost s = suite.source.v(); let ghost base = base_of(suite);
    proof { path.ok(); assert(d.take(d.len() as int) =~= d); assert(d.take(s.len() as int) == s); }
//@@ loop 0
    invariant_except_break
        rt_o matches Some(q) ==> q.v() == d.take(d.len() - levels@.len()) && levels@.len() <= d.len(),
        rt_o is None ==> levels@.len() == d.len(),
        config == suite.config,
    invariant
        absolute(s), pre(s, d), path.v() == d, s == suite.source.v(), *source_dir == suite.source, base == tc(*suite.config), cache_ok(local_config_cache.v(), s, base), local_config_cache.v() == old(local_config_cache).v(),
        levels@.len() <= d.len(), forall|i: int| 0 <= i < levels@.len() ==> (#[trigger] levels@[i]).v() == d.take(d.len() - i),
        levels@.len() > 0 ==> d.len() - levels@.len() + 1 >= s.len(),
    ensures tc(*config) == conf(s, base, d.take(d.len() - levels@.len())),
    decreases d.len() + (if rt_o is Some { 1int } else { 0int }) - levels@.len(),
//@@ at loop 0 start
        proof {
            path.ok();
            let k = d.len() - levels@.len();
            if rt_o is Some {
                lemma_outside(s, base, d, k);
                if k > 0 { assert(d.take(k).drop_last() =~= d.take(k - 1)); assert(d.take(k).last() == d[k - 1]); assert(d[0] == Comp::Root) by { assert(d.take(s.len() as int)[0] == d[0]); } }
                lemma_pre(s, d, k);
            } else { lemma_outside(s, base, d, 0); }
        }
//@@ loop 1
    invariant
        absolute(s), pre(s, d), s == suite.source.v(), base == tc(*suite.config), cache_ok(local_config_cache.v(), s, base),
        levels@.len() <= d.len(), forall|i: int| 0 <= i < levels@.len() ==> (#[trigger] levels@[i]).v() == d.take(d.len() - i),
        levels@.len() > 0 ==> d.len() - levels@.len() + 1 >= s.len(),
        tc(*config) == conf(s, base, d.take(d.len() - levels@.len())),
    ensures levels@.len() == 0, tc(*config) == conf(s, base, d),
    decreases levels@.len(),
//@@ at loop 1 start
        let ghost lv = levels@;
        proof {
            assert(d.take(d.len() as int) =~= d);
            let k = d.len() - lv.len();
            if lv.len() > 0 { assert(d.take(k + 1).drop_last() =~= d.take(k)); }
        }
//@@ end
} // verus!
fn main() {}
