//@@ include prelude.inc
// the symbol interner
verus! {
//@@ item core/src/symbol/mod.rs :: struct SymbolIndex
//@@ derive Copy, Clone
//@@ end
//@@ item core/src/symbol/mod.rs :: struct Symbol
//@@ derive Copy, Clone
//@@ end
pub open spec fn idx(s: Symbol) -> int { s.0.0 as int }
pub open spec fn MAXI() -> int { 0xffff_ff00 }

impl SymbolIndex {
    pub const MAX_AS_U32: u32 = 0xffff_ff00; // restated below from the source
//@@ fn core/src/symbol/mod.rs :: impl SymbolIndex :: new
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    requires n <= 0xffff_ff00,
    ensures r.0 == n,
//@@ end
//@@ fn core/src/symbol/mod.rs :: impl SymbolIndex :: as_u32
//@@ ret r
//@@ spec
    ensures r == self.0,
//@@ end
//@@ fn core/src/symbol/mod.rs :: impl SymbolIndex :: as_usize
//@@ ret r
//@@ spec
    ensures r == self.0,
//@@ end
}
impl Symbol {
//@@ fn core/src/symbol/mod.rs :: impl Symbol :: new
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    requires n <= 0xffff_ff00,
    ensures idx(r) == n,
//@@ end
//@@ fn core/src/symbol/mod.rs :: impl Symbol :: as_u32
//@@ ret r
//@@ spec
    ensures r == idx(self),
//@@ end
//@@ fn core/src/symbol/mod.rs :: impl Symbol :: as_usize
//@@ ret r
//@@ spec
    ensures r == idx(self),
//@@ end
}

// std::collections::BTreeMap<&'static str, Symbol>
#[verifier::external_body] // std BTreeMap keyed by string content
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
impl BTreeMap<&'static str, Symbol> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, Symbol>;
    #[verifier::external_body] // BTreeMap::get
    pub fn get(&self, k: &str) -> (r: Option<&Symbol>)
        ensures match r { Some(s) => self.m().contains_key(k@) && self.m()[k@] == *s, None => !self.m().contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body] // BTreeMap::insert
    pub fn insert(&mut self, k: &'static str, v: Symbol)
        ensures final(self).m() == old(self).m().insert(k@, v)
    { unimplemented!() }
    #[verifier::external_body] // BTreeMap::default
    pub fn default() -> (r: Self) ensures r.m() == Map::<Seq<char>, Symbol>::empty() { unimplemented!() }
}
#[verifier::external_body] // Box::leak(String::into_boxed_str(s)): same text, alive for the rest of the process
pub fn rt_leak(s: String) -> (r: &'static str) ensures r@ == s@ { unimplemented!() }

//@@ item core/src/symbol/mod.rs :: struct Interner
//@@ end

// every stored string has exactly one index and the map is its inverse
pub open spec fn inv(t: Interner) -> bool {
    &&& forall|i: int| 0 <= i < t.strings.len() ==> t.names.m().contains_key(#[trigger] t.strings[i]@) && idx(t.names.m()[t.strings[i]@]) == i
    &&& forall|s: Seq<char>| #[trigger] t.names.m().contains_key(s) ==> 0 <= idx(t.names.m()[s]) < t.strings.len() && t.strings[idx(t.names.m()[s])]@ == s
}
// symbols given out earlier keep their strings
pub open spec fn keeps(a: Interner, b: Interner) -> bool {
    a.strings.len() <= b.strings.len() && forall|i: int| 0 <= i < a.strings.len() ==> #[trigger] b.strings[i]@ == a.strings[i]@
}
// the generated keyword table (checked on the built code by the bounded harness)
pub mod symbols {
    use super::*;
    #[verifier::external_body] // generated by core/build.rs
    pub fn table() -> (r: Vec<(Symbol, &'static str)>)
        ensures table_ok(r@)
    { unimplemented!() }
}
pub open spec fn table_ok(t: Seq<(Symbol, &'static str)>) -> bool {
    &&& t.len() < 0xffff
    &&& forall|i: int| 0 <= i < t.len() ==> idx((#[trigger] t[i]).0) == i
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).1@ != (#[trigger] t[j]).1@
}

impl Interner {
//@@ fn core/src/symbol/mod.rs :: impl Default for Interner :: default
//@@ ret r
//@@ sub? `for (sym, s) in symbols::__SYMBOLS` => `for i in it: 0..tab.len()`
//@@ sub? `symbols::__SYMBOLS` => `tab`
//@@ sub? `this.names.insert(s, *sym);` => `let (sym, s) = (tab[i].0, tab[i].1); this.names.insert(s, sym);`
//@@ spec
    ensures inv(r), r.strings.len() < 0xffff,
//@@ at entry
    let tab = symbols::table();
//@@ loops 1
//@@ loop 0
    invariant table_ok(tab@), inv(this), this.strings.len() == i, i <= tab.len(),
        forall|k: int| 0 <= k < i ==> #[trigger] this.strings[k]@ == tab[k].1@,
//@@ at loop 0 start
    let ghost pre = this;
//@@ at loop 0 end
    proof {
        assert forall|s0: Seq<char>| #[trigger] this.names.m().contains_key(s0) implies 0 <= idx(this.names.m()[s0]) < this.strings.len() && this.strings[idx(this.names.m()[s0])]@ == s0 by {
            if pre.names.m().contains_key(s0) && s0 == tab[i as int].1@ {
                let q = idx(pre.names.m()[s0]);
                assert(pre.strings[q]@ == tab[q].1@);
            }
        }
        assert forall|k: int| 0 <= k < this.strings.len() implies this.names.m().contains_key(#[trigger] this.strings[k]@) && idx(this.names.m()[this.strings[k]@]) == k by {
            if k < i { assert(pre.strings[k]@ == tab[k].1@); assert(tab[k].1@ != tab[i as int].1@); }
        }
    }
//@@ end
//@@ fn core/src/symbol/mod.rs :: impl Interner :: intern
//@@ ret r
//@@ sub? `let string = string.into_boxed_str();` => ``
//@@ sub? `Box::leak(string)` => `rt_leak(string)`
//@@ spec
    requires inv(*old(self)), old(self).strings.len() < 0xffff_ff00, // documented panic beyond
    ensures inv(*final(self)), keeps(*old(self), *final(self)),
        0 <= idx(r) < final(self).strings.len(), final(self).strings[idx(r)]@ == string@,
        old(self).names.m().contains_key(string@) ==> r == old(self).names.m()[string@] && final(self).strings.len() == old(self).strings.len(),
        !old(self).names.m().contains_key(string@) ==> idx(r) == old(self).strings.len(),
//@@ end
//@@ fn core/src/symbol/mod.rs :: impl Interner :: insert
//@@ ret r
//@@ spec
    requires inv(*old(self)), old(self).strings.len() < 0xffff_ff00,
    ensures inv(*final(self)), keeps(*old(self), *final(self)),
        0 <= idx(r) < final(self).strings.len(), final(self).strings[idx(r)]@ == s@,
        old(self).names.m().contains_key(s@) ==> r == old(self).names.m()[s@] && final(self).strings.len() == old(self).strings.len(),
        !old(self).names.m().contains_key(s@) ==> idx(r) == old(self).strings.len(),
//@@ end
//@@ fn core/src/symbol/mod.rs :: impl Interner :: get
//@@ ret r
//@@ spec
    requires idx(symbol) < self.strings.len(),
    ensures r@ == self.strings[idx(symbol)]@,
//@@ end
}
// the property: over any history of insertions (inv and keeps are preserved by each step),
// equal symbols <=> equal strings
proof fn symbols_are_names(t: Interner, a: Symbol, b: Symbol)
    requires inv(t), idx(a) < t.strings.len(), idx(b) < t.strings.len(),
    ensures (a == b) <==> (t.strings[idx(a)]@ == t.strings[idx(b)]@),
{ }
proof fn keeps_transitive(a: Interner, b: Interner, c: Interner)
    requires keeps(a, b), keeps(b, c),
    ensures keeps(a, c),
{ }
}
fn main() {}
