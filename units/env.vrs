//@@ include num.vrs
// variable bindings: what a name stands for after any history of definitions and labels
verus! {
impl SourceSpan {
    #[verifier::external_body] // SourceSpan::UNKNOWN
    pub fn rt_unknown() -> Self { unimplemented!() }
}
#[derive(Copy, Clone)]
#[verifier::external_body] // interned symbol (P12): equal exactly when the names are
pub struct Symbol { x: u32 }
impl Symbol { pub uninterp spec fn id(&self) -> int; }
//@@ item core/src/variables/mod.rs :: enum VariableName
//@@ derive Copy, Clone
//@@ end
pub type Id = (int, int);
/// what tells names apart: their kind and symbol (Span compares by content)
pub trait Key { spec fn id(&self) -> Id; }
impl Key for Symbol { open spec fn id(&self) -> Id { (0, Symbol::id(self)) } }
impl Key for VariableName { open spec fn id(&self) -> Id { match self { VariableName::Pseudo(s) => (1, s.spanned.id()), VariableName::Global(s) => (2, s.spanned.id()), VariableName::User(s) => (3, s.spanned.id()) } } }
impl VariableName { pub open spec fn sy(&self) -> Symbol { match self { VariableName::Pseudo(s) => s.spanned, VariableName::Global(s) => s.spanned, VariableName::User(s) => s.spanned } } }
impl VariableName {
    pub open spec fn sym(&self) -> int { Key::id(self).1 }
//@@ fn core/src/variables/mod.rs :: impl VariableName :: into_inner
//@@ pre `Self::User(s) | Self::Global(s) | Self::Pseudo(s) => $x ,` => `Self::User(s) => $x, Self::Global(s) => $x, Self::Pseudo(s) => $x,`
//@@ ret r
//@@ spec
    ensures r.id() == self.sym(), r == self.sy()
//@@ end
}

// ---------------------------------------------------------------- im_rc::OrdMap
#[verifier::external_body] // a persistent map
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OrdMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
pub type M<V> = Map<Id, V>;
impl<K: Key, V> OrdMap<K, V> {
    pub uninterp spec fn m(&self) -> M<V>;
    #[verifier::external_body] // OrdMap::new
    pub fn new() -> (r: Self) ensures r.m() == Map::<Id, V>::empty() { unimplemented!() }
    #[verifier::external_body] // OrdMap::get
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self.m().dom().contains(k.id()) && *v == self.m()[k.id()], None => !self.m().dom().contains(k.id()) } { unimplemented!() }
    #[verifier::external_body] // OrdMap::insert
    pub fn insert(&mut self, k: K, v: V) ensures final(self).m() == old(self).m().insert(k.id(), v) { unimplemented!() }
    #[verifier::external_body] // OrdMap::union: the entries of `self` win
    pub fn union(self, other: Self) -> (r: Self) ensures r.m() == other.m().union_prefer_right(self.m()) { unimplemented!() }
    #[verifier::external_body] // OrdMap::clear
    pub fn clear(&mut self) ensures final(self).m() == Map::<Id, V>::empty() { unimplemented!() }
    #[verifier::external_body] // OrdMap::clone
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait Dflt { spec fn dflt(&self) -> bool; }
impl<K: Key, V> Dflt for OrdMap<K, V> { open spec fn dflt(&self) -> bool { self.m() == Map::<Id, V>::empty() } }
impl<V> Dflt for Bindings<V> { open spec fn dflt(&self) -> bool { self.system.dflt() && self.global.dflt() && self.bound.dflt() } }
#[verifier::external_body] // core::mem::take
pub fn rt_take<X: Dflt>(x: &mut X) -> (r: X) ensures r == *old(x), final(x).dflt() { unimplemented!() }
#[verifier::external_body] // core::mem::replace
pub fn rt_replace<X>(x: &mut X, v: X) -> (r: X) ensures r == *old(x), *final(x) == v { unimplemented!() }

// ---------------------------------------------------------------- bindings
//@@ item filecheck/src/env.rs :: struct Bindings
//@@ opt #[verifier::reject_recursive_types(V)]
//@@ sub `V : Clone` => `V`
//@@ end
pub ghost struct B<V> { pub sys: M<V>, pub glob: M<V>, pub loc: M<V> }
/// what a name stands for: its latest definition in force, else what the command line says
pub open spec fn look<V>(b: B<V>, n: VariableName) -> Option<V> {
    let s = (0int, n.sym());
    match n {
        VariableName::User(_) => if b.loc.dom().contains(n.id()) { Some(b.loc[n.id()]) } else if b.sys.dom().contains(s) { Some(b.sys[s]) } else { None },
        VariableName::Global(_) => if b.glob.dom().contains(s) { Some(b.glob[s]) } else if b.sys.dom().contains(s) { Some(b.sys[s]) } else { None },
        VariableName::Pseudo(_) => None,
    }
}
pub open spec fn ins<V>(b: B<V>, n: VariableName, v: V) -> B<V> {
    match n { VariableName::Global(_) => B { glob: b.glob.insert((0, n.sym()), v), ..b }, _ => B { loc: b.loc.insert(n.id(), v), ..b } }
}
pub open spec fn merged<V>(b: B<V>, o: B<V>) -> B<V> { B { sys: b.sys, glob: b.glob.union_prefer_right(o.glob), loc: b.loc.union_prefer_right(o.loc) } }
pub open spec fn cleared<V>(b: B<V>) -> B<V> { B { loc: Map::empty(), ..b } }
impl<V> Bindings<V> {
    pub open spec fn b(&self) -> B<V> { B { sys: self.system.m(), glob: self.global.m(), loc: self.bound.m() } }
//@@ fn filecheck/src/env.rs :: impl Default for Bindings :: default
//@@ ret r
//@@ spec
    ensures r.dflt()
//@@ end
//@@ fn filecheck/src/env.rs :: impl Clone for Bindings :: clone
//@@ ret r
//@@ spec
    ensures r == *self
//@@ end
//@@ fn filecheck/src/env.rs :: impl Bindings :: new
//@@ ret r
//@@ spec
    ensures r.dflt()
//@@ end
//@@ fn filecheck/src/env.rs :: impl Bindings :: new_with_system
//@@ ret r
//@@ spec
    ensures r.b() == (B { sys: system.m(), glob: Map::<Id, V>::empty(), loc: Map::<Id, V>::empty() })
//@@ end
//@@ fn filecheck/src/env.rs :: impl Bindings :: get
//@@ pre `self.bound.get($k).or_else(|| $b)` => `(match self.bound.get($k) { Some(rt_v) => Some(rt_v), None => $b })`
//@@ pre `self.global.get($k).or_else(|| $b)` => `(match self.global.get($k) { Some(rt_v) => Some(rt_v), None => $b })`
//@@ ret r
//@@ spec
    requires !(name is Pseudo)
    ensures match r { Some(v) => look(self.b(), *name) == Some(*v), None => look(self.b(), *name) is None }
//@@ end
//@@ fn filecheck/src/env.rs :: impl Bindings :: get_local
//@@ pre `self.bound.get($k).or_else(|| $b)` => `(match self.bound.get($k) { Some(rt_v) => Some(rt_v), None => $b })`
//@@ pre `SourceSpan::UNKNOWN` => `SourceSpan::rt_unknown()`
//@@ ret r
//@@ spec
    ensures forall|n: VariableName| #![trigger look(self.b(), n)] n is User && n.sym() == name.id() ==> look(self.b(), n) == (match r { Some(v) => Some(*v), None => None })
//@@ end
//@@ fn filecheck/src/env.rs :: impl Bindings :: get_global
//@@ pre `self.global.get($k).or_else(|| $b)` => `(match self.global.get($k) { Some(rt_v) => Some(rt_v), None => $b })`
//@@ ret r
//@@ spec
    ensures forall|n: VariableName| #![trigger look(self.b(), n)] n is Global && n.sym() == name.id() ==> look(self.b(), n) == (match r { Some(v) => Some(*v), None => None })
//@@ end
//@@ fn filecheck/src/env.rs :: impl Bindings :: insert
//@@ spec
    ensures final(self).b() == ins(old(self).b(), name, value)
//@@ end
//@@ fn filecheck/src/env.rs :: impl Bindings :: merge
//@@ pre `core::mem::take(` => `rt_take(`
//@@ spec
    ensures final(self).b() == merged(old(self).b(), other.b())
//@@ end
//@@ fn filecheck/src/env.rs :: impl Bindings :: clear
//@@ spec
    ensures final(self).b() == cleared(old(self).b())
//@@ end
}

// ---------------------------------------------------------------- scopes
//@@ item filecheck/src/env.rs :: struct Env
//@@ opt #[verifier::reject_recursive_types(V)]
//@@ sub `struct Env<'input>` => `struct Env<V>`
//@@ sub `Bindings<Value<'input>>` => `Bindings<V>`
//@@ end
//@@ item filecheck/src/env.rs :: struct ScopeGuard
//@@ opt #[verifier::reject_recursive_types(V)]
//@@ sub `< 'a , 'input : 'a , V : Clone + 'input + 'a >` => `<'a, V>`
//@@ sub `PhantomData<&'input ()>` => `PhantomData<V>`
//@@ end
impl<V> Env<V> {
//@@ fn filecheck/src/env.rs :: impl Env :: new
//@@ ret r
//@@ spec
    ensures r.bindings.dflt(), !r.enable_var_scope
//@@ end
//@@ fn filecheck/src/env.rs :: impl Env :: protect
//@@ sig `pub fn protect<'guard>(&'guard mut self) -> (r: ScopeGuard<'guard, V>)`
//@@ spec
    ensures r.bindings == old(self).bindings, *r.parent == old(self).bindings, r.enable_var_scope == old(self).enable_var_scope,
        final(self).bindings == *final(r.parent), final(self).enable_var_scope == old(self).enable_var_scope
//@@ end
//@@ fn filecheck/src/env.rs :: impl LexicalScope for Env :: bindings
//@@ sig `pub fn bindings(&self) -> (r: &Bindings<V>)`
//@@ spec
    ensures *r == self.bindings
//@@ end
//@@ fn filecheck/src/env.rs :: impl LexicalScope for Env :: get
//@@ sig `pub fn get(&self, name: &VariableName) -> (r: Option<&V>)`
//@@ spec
    requires !(name is Pseudo)
    ensures match r { Some(v) => look(self.bindings.b(), *name) == Some(*v), None => look(self.bindings.b(), *name) is None }
//@@ end
//@@ fn filecheck/src/env.rs :: impl LexicalScopeMut for Env :: insert
//@@ sig `pub fn insert(&mut self, name: VariableName, value: V)`
//@@ spec
    ensures final(self).bindings.b() == ins(old(self).bindings.b(), name, value), final(self).enable_var_scope == old(self).enable_var_scope
//@@ end
//@@ fn filecheck/src/env.rs :: impl LexicalScopeMut for Env :: clear
//@@ spec
    ensures final(self).bindings.b() == cleared(old(self).bindings.b()), final(self).enable_var_scope == old(self).enable_var_scope
//@@ end
}
impl<'a, V> ScopeGuard<'a, V> {
//@@ fn filecheck/src/env.rs :: impl ScopeGuard :: save
//@@ pre `core::mem::take(` => `rt_take(`
//@@ spec
    ensures final(self.parent).b() == merged(old(self.parent).b(), self.bindings.b())
//@@ end
//@@ fn filecheck/src/env.rs :: impl ScopeGuard :: protect
//@@ sig `pub fn protect<'guard>(&'guard mut self) -> (r: ScopeGuard<'guard, V>)`
//@@ spec
    ensures r.bindings == old(self).bindings, *r.parent == old(self).bindings, r.enable_var_scope == old(self).enable_var_scope,
        final(self).bindings == *final(r.parent), final(self).enable_var_scope == old(self).enable_var_scope,
        *final(self).parent == *old(self).parent, *final(final(self).parent) == *final(old(self).parent)
//@@ end
//@@ fn filecheck/src/env.rs :: impl ScopeGuard :: merge
//@@ sig `pub fn merge(&mut self, bindings: Bindings<V>)`
//@@ spec
    ensures final(self).bindings.b() == merged(old(self).bindings.b(), bindings.b()), *final(self).parent == *old(self).parent, *final(final(self).parent) == *final(old(self).parent)
//@@ end
//@@ fn filecheck/src/env.rs :: impl LexicalScope for ScopeGuard :: get_local
//@@ sig `pub fn get_local(&self, symbol: &Symbol) -> (r: Option<&V>)`
//@@ spec
    ensures forall|n: VariableName| #![trigger look(self.bindings.b(), n)] n is User && n.sym() == symbol.id() ==> look(self.bindings.b(), n) == (match r { Some(v) => Some(*v), None => None })
//@@ end
//@@ fn filecheck/src/env.rs :: impl LexicalScope for ScopeGuard :: get_global
//@@ sig `pub fn get_global(&self, symbol: &Symbol) -> (r: Option<&V>)`
//@@ spec
    ensures forall|n: VariableName| #![trigger look(self.bindings.b(), n)] n is Global && n.sym() == symbol.id() ==> look(self.bindings.b(), n) == (match r { Some(v) => Some(*v), None => None })
//@@ end
    // the provided method of the trait, which ScopeGuard does not override
//@@ fn filecheck/src/env.rs :: trait LexicalScope :: get
//@@ sig `pub fn get(&self, name: &VariableName) -> (r: Option<&V>)`
//@@ pre `self.get_local(key)` => `self.get_local(key.inner())`
//@@ pre `self.get_global(key)` => `self.get_global(key.inner())`
//@@ spec
    requires !(name is Pseudo)
    ensures match r { Some(v) => look(self.bindings.b(), *name) == Some(*v), None => look(self.bindings.b(), *name) is None }
//@@ end
//@@ fn filecheck/src/env.rs :: impl LexicalScopeMut for ScopeGuard :: insert
//@@ sig `pub fn insert(&mut self, name: VariableName, value: V)`
//@@ spec
    ensures final(self).bindings.b() == ins(old(self).bindings.b(), name, value), final(self).enable_var_scope == old(self).enable_var_scope,
        *final(self).parent == *old(self).parent, *final(final(self).parent) == *final(old(self).parent)
//@@ end
//@@ fn filecheck/src/env.rs :: impl LexicalScopeMut for ScopeGuard :: take
//@@ sig `pub fn take(&mut self) -> (r: Bindings<V>)`
//@@ pre `core::mem::replace(` => `rt_replace(`
//@@ spec
    ensures r == old(self).bindings, final(self).bindings == *old(self).parent, final(self).enable_var_scope == old(self).enable_var_scope,
        *final(self).parent == *old(self).parent, *final(final(self).parent) == *final(old(self).parent)
//@@ end
//@@ fn filecheck/src/env.rs :: impl LexicalScopeMut for ScopeGuard :: clear
//@@ spec
    ensures final(self).bindings.b() == (if old(self).enable_var_scope { cleared(old(self).bindings.b()) } else { old(self).bindings.b() }), final(self).enable_var_scope == old(self).enable_var_scope,
        *final(self).parent == *old(self).parent, *final(final(self).parent) == *final(old(self).parent)
//@@ end
}

// ---------------------------------------------------------------- histories
pub ghost enum Ev<V> { Def(VariableName, V), Label }
pub open spec fn ev1<V>(b: B<V>, e: Ev<V>) -> B<V> { match e { Ev::Def(n, v) => ins(b, n, v), Ev::Label => cleared(b) } }
/// the bindings after a history; a label clears them (with scoping on)
pub open spec fn run<V>(b: B<V>, h: Seq<Ev<V>>) -> B<V> decreases h.len() { if h.len() == 0 { b } else { ev1(run(b, h.drop_last()), h.last()) } }
/// the latest definition of a name in a history, unless a label forgot it since
pub open spec fn latest<V>(h: Seq<Ev<V>>, n: VariableName) -> Option<V> decreases h.len() {
    if h.len() == 0 { None } else { match h.last() {
        Ev::Def(m, v) => if m.id() == n.id() { Some(v) } else { latest(h.drop_last(), n) },
        Ev::Label => if n is Global { latest(h.drop_last(), n) } else { None },
    } }
}
pub open spec fn start<V>(b: B<V>) -> bool { b.glob == Map::<Id, V>::empty() && b.loc == Map::<Id, V>::empty() }
pub open spec fn defs_only<V>(h: Seq<Ev<V>>) -> bool { forall|i: int| 0 <= i < h.len() ==> #[trigger] h[i] is Def }
/// what a name stands for is its latest definition in force, or what the command line says
pub proof fn lemma_latest<V>(b: B<V>, h: Seq<Ev<V>>, n: VariableName)
    requires start(b), !(n is Pseudo)
    ensures look(run(b, h), n) == (match latest(h, n) { Some(v) => Some(v), None => if b.sys.dom().contains((0int, n.sym())) { Some(b.sys[(0int, n.sym())]) } else { None } }), run(b, h).sys == b.sys
    decreases h.len()
{
    if h.len() > 0 { lemma_latest(b, h.drop_last(), n); }
}
pub proof fn lemma_run_grows<V>(b: B<V>, h: Seq<Ev<V>>) requires defs_only(h) ensures b.glob.dom().subset_of(run(b, h).glob.dom()), b.loc.dom().subset_of(run(b, h).loc.dom()), run(b, h).sys == b.sys decreases h.len()
{ if h.len() > 0 { assert forall|i: int| 0 <= i < h.drop_last().len() implies #[trigger] h.drop_last()[i] is Def by { assert(h[i] is Def); } lemma_run_grows(b, h.drop_last()); assert(h[h.len() - 1] is Def); } }
/// saving a guard whose scope was only added to leaves its parent with exactly the bindings of the guard
pub proof fn lemma_save<V>(b: B<V>, h: Seq<Ev<V>>) requires defs_only(h) ensures merged(b, run(b, h)) == run(b, h)
{
    lemma_run_grows(b, h);
    let r = run(b, h);
    assert(merged(b, r).glob =~= r.glob);
    assert(merged(b, r).loc =~= r.loc);
}
}
fn main() {}
