//@@ include prelude.inc
// substitutions: the effective entries of a scope, and applying them to a command
verus! {
pub type T = Seq<char>;
// std::borrow::Cow of str, by its text
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
pub type StaticCow<B> = Cow<'static, B>;
pub trait Text { spec fn t(&self) -> T; }
impl Text for str { open spec fn t(&self) -> T { self@ } }
impl Text for String { open spec fn t(&self) -> T { self@ } }
impl<'a> Text for Cow<'a, str> { open spec fn t(&self) -> T { match self { Cow::Borrowed(s) => (*s)@, Cow::Owned(s) => s@ } } }
impl<'a> Cow<'a, str> {
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self.t() { match self { Cow::Borrowed(s) => *s, Cow::Owned(s) => s.as_str() } }
    #[verifier::external_body] // Cow<str>: From<K>, the text of K
    pub fn from<K: Text>(k: K) -> (r: Self) ensures r.t() == k.t() { unimplemented!() }
    #[verifier::external_body] // clone().into_owned() copies the text
    pub fn rt_owned(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}

// ---------------------------------------------------------------- texts
pub open spec fn at(s: T, p: T) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
/// leftmost, non-overlapping occurrences of `p` replaced
pub open spec fn lrep(s: T, p: T, r: T) -> T decreases s.len() {
    if s.len() == 0 || p.len() == 0 { s }
    else if at(s, p) { r + lrep(s.skip(p.len() as int), p, r) }
    else { seq![s[0]] + lrep(s.skip(1), p, r) }
}
pub open spec fn occurs(s: T, p: T) -> bool decreases s.len() {
    at(s, p) || (s.len() > 0 && occurs(s.skip(1), p))
}
pub open spec fn PP() -> T { seq!['%', '%'] }
pub open spec fn MK() -> T { seq!['\0'] }
pub open spec fn P1() -> T { seq!['%'] }
pub open spec fn clean(s: T) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '\0' }

// ---------------------------------------------------------------- the regex crate
pub enum Rp { Lit(T), Tmpl(T) } // NoExpand text, or a template with $n references
/// every leftmost match of regex `p` in `s` replaced (meaning of the regex crate; concrete for the two literal patterns)
pub uninterp spec fn rx(p: T, s: T, r: Rp) -> T;
pub uninterp spec fn rx_hit(p: T, s: T) -> bool;
pub uninterp spec fn rx_ok(p: T) -> bool;
pub broadcast axiom fn rx_miss(p: T, s: T, r: Rp) ensures !rx_hit(p, s) ==> #[trigger] rx(p, s, r) == s; // nothing is replaced where nothing matches
pub axiom fn rx_lit(p: T, s: T, r: T) requires p == PP() || p == MK() ensures rx(p, s, Rp::Lit(r)) == lrep(s, p, r), rx_hit(p, s) == occurs(s, p), rx_ok(p); // literal patterns
pub broadcast axiom fn rx_clean(p: T, s: T, v: T) requires clean(s), clean(v) ensures clean(#[trigger] rx(p, s, Rp::Tmpl(v))); // output characters come from the text and the template
pub trait Replacer { spec fn rp(&self) -> Rp; }
pub struct NoExpand<'a>(pub &'a str);
impl<'a> Replacer for NoExpand<'a> { open spec fn rp(&self) -> Rp { Rp::Lit(self.0@) } }
impl<'a> Replacer for &Cow<'a, str> { open spec fn rp(&self) -> Rp { Rp::Tmpl(self.t()) } }
impl Replacer for &str { open spec fn rp(&self) -> Rp { Rp::Tmpl(self@) } }
#[verifier::external_body] // regex::Error, opaque
pub struct RegexError { x: u8 }
#[verifier::external_body] // regex::Regex, opaque
pub struct Regex { x: u8 }
impl Regex {
    pub uninterp spec fn p(&self) -> T;
    #[verifier::external_body] // Regex::new
    pub fn new<P: Text + ?Sized>(p: &P) -> (r: Result<Regex, RegexError>) ensures r is Ok <==> rx_ok(p.t()), r matches Ok(x) ==> x.p() == p.t() { unimplemented!() }
    #[verifier::external_body] // Regex::replace_all: borrowed exactly when nothing matched
    pub fn replace_all<'h, H: Text + ?Sized, R: Replacer>(&self, s: &'h H, r: R) -> (o: Cow<'h, str>)
        ensures o.t() == rx(self.p(), s.t(), r.rp()), o is Owned <==> rx_hit(self.p(), s.t()) { unimplemented!() }
}
pub fn rt_unwrap(r: Result<Regex, RegexError>) -> (x: Regex) requires r is Ok ensures r == Ok::<Regex, RegexError>(x) { match r { Ok(x) => x, Err(_) => rt_unreachable() } }

#[derive(Copy, Clone)]
#[verifier::external_body] // SourceSpan, opaque
pub struct SourceSpan { x: u8 }
pub struct Span<X> { pub span: SourceSpan, pub spanned: X }
impl<X> Span<X> { pub fn into_parts(self) -> (r: (SourceSpan, X)) ensures r.1 == self.spanned { (self.span, self.spanned) } }
//@@ item lit/src/config/substitutions.rs :: struct InvalidSubstitutionPatternError
//@@ sub `regex :: Error` => `RegexError`
//@@ end

// ---------------------------------------------------------------- indexmap
pub struct KV { pub k: T, pub v: T }
pub open spec fn ink(m: Seq<KV>, k: T) -> bool { exists|i: int| 0 <= i < m.len() && #[trigger] m[i].k == k }
pub open spec fn uniq(m: Seq<KV>) -> bool { forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && #[trigger] m[i].k == #[trigger] m[j].k ==> i == j }
pub open spec fn ixof(m: Seq<KV>, k: T) -> int { choose|i: int| 0 <= i < m.len() && #[trigger] m[i].k == k }
pub open spec fn val(m: Seq<KV>, k: T) -> T { m[ixof(m, k)].v }
/// inserting replaces the value in place, or appends
pub open spec fn put(m: Seq<KV>, k: T, v: T) -> Seq<KV> { if ink(m, k) { m.update(ixof(m, k), KV { k, v }) } else { m.push(KV { k, v }) } }
#[verifier::external_body] // IndexMap: insertion-ordered, distinct keys
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct FxIndexMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl FxIndexMap<Cow<'static, str>, Cow<'static, str>> {
    pub uninterp spec fn m(&self) -> Seq<KV>;
    #[verifier::external_body] // IndexMap::get
    pub fn get<Q: Text + ?Sized>(&self, q: &Q) -> (r: Option<&StaticCow<str>>)
        ensures uniq(self.m()), r is Some <==> ink(self.m(), q.t()), r matches Some(x) ==> x.t() == val(self.m(), q.t()) { unimplemented!() }
    #[verifier::external_body] // IndexMap::contains_key
    pub fn contains_key<Q: Text + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == ink(self.m(), q.t()) { unimplemented!() }
    #[verifier::external_body] // IndexMap::is_empty
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m().len() == 0) { unimplemented!() }
    #[verifier::external_body] // IndexMap::insert
    pub fn insert(&mut self, k: StaticCow<str>, v: StaticCow<str>) ensures final(self).m() == put(old(self).m(), k.t(), v.t()) { unimplemented!() }
    #[verifier::external_body] // IndexMap::iter, in order
    pub fn iter(&self) -> (r: MapIter<'_>) ensures r.rest() == self.m() { unimplemented!() }
}
#[verifier::external_body] // indexmap::map::Iter
pub struct MapIter<'a> { x: &'a u8 }
pub open spec fn is_kv(i: (&StaticCow<str>, &StaticCow<str>), e: KV) -> bool { i.0.t() == e.k && i.1.t() == e.v }
impl<'a> MapIter<'a> {
    pub uninterp spec fn rest(&self) -> Seq<KV>;
    #[verifier::external_body] // Iterator::next
    pub fn next(&mut self) -> (r: Option<(&'a StaticCow<str>, &'a StaticCow<str>)>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(i) => old(self).rest().len() > 0 && is_kv(i, old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
        } { unimplemented!() }
}

// ---------------------------------------------------------------- SubstitutionSet
//@@ item lit/src/config/substitutions.rs :: struct SubstitutionSet
//@@ end
impl SubstitutionSet {
    pub open spec fn m(&self) -> Seq<KV> { self.set.m() }
    #[verifier::external_body] // derived Default: empty
    pub fn default() -> (r: Self) ensures r.m() == Seq::<KV>::empty() { unimplemented!() }
//@@ fn lit/src/config/substitutions.rs :: impl SubstitutionSet :: is_empty
//@@ ret r
//@@ spec
    ensures r == (self.m().len() == 0)
//@@ end
//@@ fn lit/src/config/substitutions.rs :: impl SubstitutionSet :: contains
//@@ sig `pub fn contains<Q: Text + ?Sized>(&self, pattern: &Q) -> (r: bool)`
//@@ spec
    ensures r == ink(self.m(), pattern.t())
//@@ end
//@@ fn lit/src/config/substitutions.rs :: impl SubstitutionSet :: get
//@@ sig `pub fn get<Q: Text + ?Sized>(&self, pattern: &Q) -> (r: Option<&StaticCow<str>>)`
//@@ spec
    ensures r is Some <==> ink(self.m(), pattern.t()), r matches Some(x) ==> x.t() == val(self.m(), pattern.t())
//@@ end
//@@ fn lit/src/config/substitutions.rs :: impl SubstitutionSet :: iter
//@@ sig `pub fn iter(&self) -> (r: MapIter<'_>)`
//@@ spec
    ensures r.rest() == self.m()
//@@ end
//@@ fn lit/src/config/substitutions.rs :: impl SubstitutionSet :: insert
//@@ sig `pub fn insert<K: Text, V: Text>(&mut self, pattern: K, replacement: V)`
//@@ spec
    ensures final(self).m() == put(old(self).m(), pattern.t(), replacement.t())
//@@ end
}

// ---------------------------------------------------------------- the effective entries of a scope
/// an entry of the parent, with the value of the scope if it is overridden
pub open spec fn over(s: Seq<KV>, e: KV) -> KV { if ink(s, e.k) { KV { k: e.k, v: val(s, e.k) } } else { e } }
pub open spec fn overs(s: Seq<KV>, es: Seq<KV>) -> Seq<KV> { es.map_values(|e: KV| over(s, e)) }
/// those not defined by the parent
pub open spec fn fresh(p: Seq<KV>, es: Seq<KV>) -> Seq<KV> decreases es.len() {
    if es.len() == 0 { es } else if ink(p, es[0].k) { fresh(p, es.skip(1)) } else { seq![es[0]] + fresh(p, es.skip(1)) }
}
pub open spec fn eff(p: Seq<KV>, s: Seq<KV>) -> Seq<KV> { overs(s, p) + fresh(p, s) }

pub broadcast proof fn skip_fresh(p: Seq<KV>, es: Seq<KV>)
    ensures #![trigger fresh(p, es)] es.len() > 0 && !ink(p, es[0].k) ==> fresh(p, es).skip(1) == fresh(p, es.skip(1))
{ if es.len() > 0 && !ink(p, es[0].k) { assert(fresh(p, es).skip(1) =~= fresh(p, es.skip(1))); } }
pub broadcast group group_skips { skip_fresh }
//@@ item lit/src/config/substitutions.rs :: struct SubstitutionsIter
//@@ sub `indexmap::map::Iter<'a, StaticCow<str>, StaticCow<str>>` => `MapIter<'a>`
//@@ end
impl<'a> SubstitutionsIter<'a> {
    pub open spec fn rest(&self) -> Seq<KV> {
        if self.filter { overs(self.set.m(), self.iter.rest()) + fresh(self.parent.m(), self.set.m()) } else { fresh(self.parent.m(), self.iter.rest()) }
    }
//@@ fn lit/src/config/substitutions.rs :: impl Iterator for SubstitutionsIter :: next
//@@ sig `fn next(&mut self) -> (r: Option<(&'a StaticCow<str>, &'a StaticCow<str>)>)`
//@@ pre `self.set.get(k).map(|v| (k, v)).or(Some(item))` => `match self.set.get(k) { Some(v) => Some((k, v)), None => Some(item) }`
//@@ pre `self.iter.next().and_then(|item @ (k, _)| $x)` => `match self.iter.next() { Some(item) => { let (k, _) = item; $x } None => None }`
//@@ pre `self.iter.find(|(k, _)| $c)` => `{ let mut rt_r = None; loop { match self.iter.next() { None => { break; } Some(rt_i) => { let (k, _) = rt_i; if $c { rt_r = Some(rt_i); break; } } } } rt_r }`
//@@ loop 0
    invariant_except_break !self.filter, rt_r is None, self.rest() == r0,
    invariant parent == self.parent,
    ensures !self.filter, match rt_r {
            None => r0.len() == 0 && self.rest().len() == 0,
            Some(i) => r0.len() > 0 && is_kv(i, r0[0]) && self.rest() == r0.skip(1),
        },
//@@ at loop 0 start
    proof { broadcast use group_skips; }
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    ensures
        match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(i) => old(self).rest().len() > 0 && is_kv(i, old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
        },
//@@ at entry
    let ghost r0 = self.rest();
    proof {
        broadcast use group_skips;
        if self.filter && self.iter.rest().len() == 0 { assert(overs(self.set.m(), self.iter.rest()) =~= Seq::<KV>::empty()); assert(r0 =~= fresh(self.parent.m(), self.set.m())); }
        if self.filter && self.iter.rest().len() > 0 {
            let it = self.iter.rest();
            assert(overs(self.set.m(), it).skip(1) =~= overs(self.set.m(), it.skip(1)));
            assert(r0.skip(1) =~= overs(self.set.m(), it.skip(1)) + fresh(self.parent.m(), self.set.m()));
        }
    }
//@@ end
}

// ---------------------------------------------------------------- applying
pub open spec fn esc(s: T) -> T { lrep(s, PP(), MK()) }
/// one entry: every match of its key replaced, doubled percent signs of the outcome set aside
pub open spec fn step(s: T, e: KV) -> T { esc(rx(e.k, s, Rp::Tmpl(e.v))) }
pub open spec fn steps(s: T, es: Seq<KV>) -> T decreases es.len() { if es.len() == 0 { s } else { steps(step(s, es[0]), es.skip(1)) } }
pub open spec fn expand(s: T, es: Seq<KV>) -> T { lrep(steps(esc(s), es), MK(), P1()) }
pub open spec fn all_ok(es: Seq<KV>) -> bool { forall|i: int| 0 <= i < es.len() ==> rx_ok(#[trigger] es[i].k) }
pub open spec fn clean_values(es: Seq<KV>) -> bool { forall|i: int| 0 <= i < es.len() ==> clean(#[trigger] es[i].v) }

pub proof fn lemma_miss(s: T, p: T, r: T) requires !occurs(s, p) ensures lrep(s, p, r) == s decreases s.len()
{ if s.len() > 0 && p.len() > 0 { lemma_miss(s.skip(1), p, r); assert(seq![s[0]] + s.skip(1) =~= s); } }
pub proof fn lemma_esc_none(s: T) ensures !occurs(esc(s), PP()), esc(s).len() > 0 && s.len() > 0 && s[0] != '%' ==> esc(s)[0] == s[0], s.len() > 0 ==> esc(s).len() > 0,
    s.len() > 0 && s[0] == '%' && !at(s, PP()) ==> esc(s)[0] == '%', s.len() > 0 && at(s, PP()) ==> esc(s)[0] == '\0',
    s.len() == 0 ==> esc(s).len() == 0
    decreases s.len()
{
    reveal_with_fuel(occurs, 3);
    if s.len() == 0 { assert(!at(s, PP())); }
    else if at(s, PP()) {
        assert(s.subrange(0, 2)[0] == '%');
        let x = s.skip(2);
        lemma_esc_none(x);
        assert((MK() + esc(x)).skip(1) =~= esc(x));
        if at(esc(s), PP()) { assert(esc(s).subrange(0, 2)[0] == '\0'); }
    } else {
        let x = s.skip(1);
        lemma_esc_none(x);
        assert((seq![s[0]] + esc(x)).skip(1) =~= esc(x));
        if at(esc(s), PP()) {
            assert(esc(s).subrange(0, 2)[0] == s[0]);
            assert(esc(s).subrange(0, 2)[1] == esc(x)[0]);
            assert(x.len() > 0);
            assert(x[0] == '%');
            assert(s.subrange(0, 2) =~= PP());
        }
    }
}
pub proof fn lemma_clean_esc(s: T) requires clean(s), !occurs(s, PP()) ensures clean(esc(s)), esc(s) == s { lemma_miss(s, PP(), MK()); }
pub proof fn lemma_clean_mk(s: T) requires clean(s) ensures !occurs(s, MK()) decreases s.len()
{ if at(s, MK()) { assert(s.subrange(0, 1)[0] == '\0'); } if s.len() > 0 { lemma_clean_mk(s.skip(1)); } }
/// text without any key comes out with its doubled percent signs turned into single ones, and nothing else changed
pub proof fn lemma_roundtrip(s: T) requires clean(s) ensures lrep(esc(s), MK(), P1()) == lrep(s, PP(), P1()) decreases s.len()
{
    if s.len() > 0 && at(s, PP()) {
        lemma_roundtrip(s.skip(2));
        let e = esc(s);
        assert(e.subrange(0, 1) =~= MK());
        assert(e.skip(1) =~= esc(s.skip(2)));
    } else if s.len() > 0 {
        lemma_roundtrip(s.skip(1));
        let e = esc(s);
        assert(e.skip(1) =~= esc(s.skip(1)));
        if at(e, MK()) { assert(e.subrange(0, 1)[0] == s[0]); }
    }
}
pub proof fn lemma_no_key(s: T, es: Seq<KV>)
    requires forall|i: int| 0 <= i < es.len() ==> !rx_hit(#[trigger] es[i].k, s), !occurs(s, PP())
    ensures steps(s, es) == s decreases es.len()
{
    broadcast use rx_miss;
    if es.len() > 0 {
        assert(!rx_hit(es[0].k, s));
        lemma_miss(s, PP(), MK());
        assert forall|i: int| 0 <= i < es.skip(1).len() implies !rx_hit(#[trigger] es.skip(1)[i].k, s) by { assert(es.skip(1)[i] == es[i + 1]); }
        lemma_no_key(s, es.skip(1));
    }
}
pub proof fn text_without_keys(s: T, es: Seq<KV>)
    requires clean(s), forall|i: int| 0 <= i < es.len() ==> !rx_hit(#[trigger] es[i].k, esc(s))
    ensures expand(s, es) == lrep(s, PP(), P1()), !occurs(s, PP()) ==> expand(s, es) == s
{ lemma_esc_none(s); lemma_no_key(esc(s), es); lemma_roundtrip(s); if !occurs(s, PP()) { lemma_miss(s, PP(), P1()); } }

//@@ item lit/src/config/substitutions.rs :: const ESCAPE_MARKER
//@@ pre `&str` => `&'static str`
//@@ end
//@@ item lit/src/config/substitutions.rs :: struct ScopedSubstitutionSet
//@@ end
impl<'scope> ScopedSubstitutionSet<'scope> {
    pub open spec fn es(&self) -> Seq<KV> { eff(self.parent.m(), self.set.m()) }
//@@ fn lit/src/config/substitutions.rs :: impl ScopedSubstitutionSet :: new
//@@ ret r
//@@ spec
    ensures r.parent == parent, r.set.m().len() == 0, r.es() == parent.m()
//@@ at entry
    proof { assert(overs(Seq::empty(), parent.m()) =~= parent.m()); assert(parent.m() + fresh(parent.m(), Seq::empty()) =~= parent.m()); }
//@@ end
//@@ fn lit/src/config/substitutions.rs :: impl ScopedSubstitutionSet :: contains
//@@ sig `pub fn contains<Q: Text + ?Sized>(&self, pattern: &Q) -> (r: bool)`
//@@ spec
    ensures r == (ink(self.set.m(), pattern.t()) || ink(self.parent.m(), pattern.t()))
//@@ end
//@@ fn lit/src/config/substitutions.rs :: impl ScopedSubstitutionSet :: insert
//@@ sig `pub fn insert<K: Text, V: Text>(&mut self, pattern: K, replacement: V)`
//@@ spec
    ensures final(self).parent == old(self).parent, final(self).set.m() == put(old(self).set.m(), pattern.t(), replacement.t())
//@@ end
//@@ fn lit/src/config/substitutions.rs :: impl ScopedSubstitutionSet :: iter
//@@ sig `pub fn iter(&self) -> (r: SubstitutionsIter<'_>)`
//@@ spec
    ensures r.rest() == self.es()
//@@ end
//@@ fn lit/src/config/substitutions.rs :: impl ScopedSubstitutionSet :: apply
//@@ ret r
//@@ pre `regex::Regex::new($p).unwrap()` => `rt_unwrap(regex::Regex::new($p))`
//@@ pre `regex::Regex::new($p).map_err(|error| $x)?` => `match regex::Regex::new($p) { Ok(rt_re) => rt_re, Err(error) => return Err($x) }`
//@@ pre `regex::` => ``
//@@ pre `matches!($e, Cow::Owned(_))` => `(match &$e { Cow::Owned(_) => true, _ => false })`
//@@ pre `pattern.clone().into_owned()` => `pattern.rt_owned()`
//@@ pre `for ($p, $r) in self.iter() { $B }` => `{ let mut rt_it = self.iter(); loop { match rt_it.next() { None => { break; } Some(rt_item) => { let ($p, $r) = rt_item; $B } } } }`
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires clean(input.spanned@), clean_values(self.es()), // neither commands nor values contain NUL
    ensures
        r is Ok <==> all_ok(self.es()),
        r matches Ok(o) ==> o.t() == expand(input.spanned@, self.es()) && (o is Borrowed ==> o.t() == input.spanned@),
//@@ at entry
//@@ loop 0
    invariant
        self.es() == es, escape_re.p() == PP(), ESCAPE_MARKER@ == MK(), clean_values(es),
        steps(buffer.t(), rt_it.rest()) == steps(esc(s0), es),
        all_ok(es) <==> all_ok(rt_it.rest()), clean_values(rt_it.rest()),
        !needs_unescape ==> clean(buffer.t()), !occurs(buffer.t(), PP()), buffer is Borrowed ==> buffer.t() == s0,
    ensures rt_it.rest().len() == 0,
//@@ at loop 0 start
    let ghost (b0, q0, un0) = (buffer.t(), rt_it.rest(), needs_unescape);
    proof {
        broadcast use rx_miss, rx_clean;
        if q0.len() > 0 {
            let q = q0.skip(1);
            assert(rx_ok(q0[0].k) && all_ok(q) ==> all_ok(q0)) by { assert forall|i: int| rx_ok(q0[0].k) && all_ok(q) && 0 <= i < q0.len() implies rx_ok(#[trigger] q0[i].k) by { if i > 0 { assert(q[i - 1] == q0[i]); } } }
            assert(all_ok(q0) ==> rx_ok(q0[0].k) && all_ok(q)) by { assert forall|i: int| all_ok(q0) && 0 <= i < q.len() implies rx_ok(#[trigger] q[i].k) by { assert(q[i] == q0[i + 1]); } }
            assert forall|i: int| 0 <= i < q.len() implies clean(#[trigger] q[i].v) by { assert(q[i] == q0[i + 1]); }
            let x = rx(q0[0].k, b0, Rp::Tmpl(q0[0].v));
            rx_lit(PP(), x, MK());
            lemma_esc_none(x); lemma_miss(b0, PP(), MK());
            if !un0 { assert(clean(x)); lemma_clean_mk(x); }
            if !occurs(x, PP()) { lemma_miss(x, PP(), MK()); }
        }
    }
//@@ at entry
    let ghost s0 = input.spanned@;
    let ghost es = self.es();
    proof {
        rx_lit(PP(), s0, MK()); lemma_esc_none(s0); if !occurs(s0, PP()) { lemma_miss(s0, PP(), MK()); }
        rx_lit(MK(), s0, P1());
    }
//@@ at before `if needs_unescape`
    proof { let b = buffer.t(); rx_lit(MK(), b, P1()); if clean(b) { lemma_clean_mk(b); } if !occurs(b, MK()) { lemma_miss(b, MK(), P1()); } }
//@@ at entry
    proof { reveal_strlit("%%"); reveal_strlit("%"); reveal_strlit("\0"); broadcast use rx_miss; assert("%%"@ =~= PP()); assert("%"@ =~= P1()); assert("\0"@ =~= MK()); assert(ESCAPE_MARKER@ =~= MK()); }
//@@ end

//@@ fn lit/src/config/substitutions.rs :: impl ScopedSubstitutionSet :: find_matching
//@@ ret r
//@@ pre `self.iter().any(|(k, _)| $c)` => `{ let mut rt_any = false; let mut rt_it = self.iter(); loop { match rt_it.next() { None => { break; } Some(rt_item) => { let (k, _) = rt_item; if $c { rt_any = true; break; } } } } rt_any }`
//@@ pre `k != pattern` => `!rt_same(k, pattern)`
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    ensures found(r, self.parent.m(), self.set.m(), pattern@),
//@@ loop 0
    invariant_except_break !rt_any,
        0 <= n <= es.len(), rt_it.rest() == es.skip(n), forall|i: int| 0 <= i < n ==> !(#[trigger] es[i].k != pattern@ && within(es[i].k, pattern@)),
    invariant self.es() == es,
    ensures rt_any == fuzzy(es, pattern@),
//@@ at loop 0 start
    proof { if n < es.len() { assert(es.skip(n)[0] == es[n]); assert(es.skip(n).skip(1) =~= es.skip(n + 1)); n = n + 1; } }
//@@ at entry
    let ghost es = self.es();
    let ghost mut n: int = 0;
    proof { assert(es.skip(0) =~= es); }
//@@ end
}
pub open spec fn found(r: Matches<'_>, p: Seq<KV>, s: Seq<KV>, k: T) -> bool {
    &&& (r is Empty <==> !(ink(s, k) || ink(p, k)))
    &&& (r is Exact <==> (ink(s, k) || ink(p, k)) && !fuzzy(eff(p, s), k))
}
pub uninterp spec fn within(s: T, p: T) -> bool; // str::contains
impl<'a> Cow<'a, str> {
    #[verifier::external_body] // str::contains
    pub fn contains(&self, p: &str) -> (r: bool) ensures r == within(self.t(), p@) { unimplemented!() }
}
#[verifier::external_body] // comparison of texts
pub fn rt_same(a: &Cow<'_, str>, b: &str) -> (r: bool) ensures r == (a.t() == b@) { unimplemented!() }
/// some other key contains `k`
pub open spec fn fuzzy(es: Seq<KV>, k: T) -> bool { exists|i: int| 0 <= i < es.len() && #[trigger] es[i].k != k && within(es[i].k, k) }
//@@ item lit/src/config/substitutions.rs :: enum Matches
//@@ end

// ---------------------------------------------------------------- DEFINE / REDEFINE
pub uninterp spec fn quoted(k: T) -> T;
pub open spec fn dollars(v: T) -> T { lrep(v, seq!['$'], seq!['$', '$']) }
/// an escaped pattern and a template without references are literal text (regex::escape, `$$`)
pub axiom fn rx_quoted(s: T, k: T, v: T) ensures rx(quoted(k), s, Rp::Tmpl(dollars(v))) == lrep(s, k, v), rx_ok(quoted(k));
#[verifier::external_body] // regex::escape
pub fn rt_escape(s: &String) -> (r: String) ensures r@ == quoted(s@) { unimplemented!() }
#[verifier::external_body] // str::replace of a character
pub fn rt_replace(s: &String, c: char, by: &str) -> (r: String) ensures r@ == lrep(s@, seq![c], by@) { unimplemented!() }
#[verifier::external_body] // String::clone
pub fn rt_clone(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
//@@ item lit/src/formats/sh/script/directives.rs :: enum InvalidSubstitutionError
//@@ pre `crate::config::` => ``
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: struct Substitution
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: struct Run
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: enum ScriptCommand
//@@ end
/// a DEFINE introduces a key, a REDEFINE changes one that exists; neither may be part of another key
pub open spec fn def_ok(p: Seq<KV>, s: Seq<KV>, k: T, replace: bool) -> bool {
    let d = ink(s, k) || ink(p, k);
    d == replace && !(d && fuzzy(eff(p, s), k))
}
impl Substitution {
//@@ fn lit/src/formats/sh/script/directives.rs :: impl Substitution#1 :: apply
//@@ ret r
//@@ pre `use $x;` => ``
//@@ pre `regex::escape(&self.key)` => `rt_escape(&self.key)`
//@@ pre `self.value.replace($c, $b)` => `rt_replace(&self.value, $c, $b)`
//@@ pre `key.clone()` => `rt_clone(&key)`
//@@ pre `self.rt_clone(&key)` => `rt_clone(&self.key)`
//@@ pre `matches.intersperse(", ").collect::<String>()` => `rt_format()`
//@@ pre `Matches::Empty if $c => { $B } Matches::Empty => $x,` => `Matches::Empty => if $c { $B } else { $x },`
//@@ pre `Matches::Exact(_) if $c => { $B } Matches::Exact(_) => $x,` => `Matches::Exact(_) => if $c { $B } else { $x },`
//@@ pre `find_matching(&key)` => `find_matching(key.as_str())`
//@@ spec
    ensures
        final(substitutions).parent == old(substitutions).parent,
        r is Ok <==> def_ok(old(substitutions).parent.m(), old(substitutions).set.m(), quoted(self.key@), self.replace),
        r is Ok ==> final(substitutions).set.m() == put(old(substitutions).set.m(), quoted(self.key@), dollars(self.value@)),
        r is Err ==> *final(substitutions) == *old(substitutions),
//@@ at entry
    proof { reveal_strlit("$$"); assert("$$"@ =~= seq!['$', '$']); }
//@@ end
}

// ---------------------------------------------------------------- a whole script
pub struct Report { x: u8 }
pub type DiagResult<X> = Result<X, Report>;
#[verifier::external_body] // diagnostics report of an error
pub fn rt_report<E>(e: E) -> (r: Report) { unimplemented!() }
impl SourceSpan { pub fn rt(self) -> (r: Self) { self } }
impl<X> Span<X> { pub fn new(span: SourceSpan, x: X) -> (r: Self) ensures r.spanned == x { Span { span, spanned: x } } }
impl Run { pub fn span(&self) -> (r: SourceSpan) { self.span } }
#[verifier::external_body] // BooleanExpr, opaque
pub struct BooleanExpr { x: u8 }
//@@ item lit/src/formats/sh/script/mod.rs :: struct TestScript
//@@ end
#[verifier::external_body] // slice::iter_mut visits every element once, in order
pub fn rt_at(v: &mut Vec<ScriptCommand>, i: usize) -> (r: &mut ScriptCommand)
    requires i < old(v).len() ensures *r == old(v)[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }

/// what a command of the script is after those before it were processed with definitions `s` on top of `p`
pub open spec fn after(p: Seq<KV>, s: Seq<KV>, c: ScriptCommand) -> Seq<KV> {
    match c { ScriptCommand::Run(_) => s, ScriptCommand::Substitution(d) => put(s, quoted(d.key@), dollars(d.value@)) }
}
pub open spec fn state(p: Seq<KV>, s: Seq<KV>, cs: Seq<ScriptCommand>, n: int) -> Seq<KV> decreases n {
    if n <= 0 { s } else { after(p, state(p, s, cs, n - 1), cs[n - 1]) }
}
/// each command is expanded with the definitions in force at its place, everything else stays
pub open spec fn done(p: Seq<KV>, s: Seq<KV>, a: ScriptCommand, b: ScriptCommand) -> bool {
    match a {
        ScriptCommand::Run(x) => b matches ScriptCommand::Run(y) && y.command@ == expand(x.command@, eff(p, s)) && y.line == x.line,
        ScriptCommand::Substitution(d) => a == b,
    }
}
pub open spec fn good(p: Seq<KV>, s: Seq<KV>, c: ScriptCommand) -> bool {
    match c { ScriptCommand::Run(_) => all_ok(eff(p, s)), ScriptCommand::Substitution(d) => def_ok(p, s, quoted(d.key@), d.replace) }
}
pub open spec fn clean_cmd(c: ScriptCommand) -> bool { match c { ScriptCommand::Run(x) => clean(x.command@), ScriptCommand::Substitution(d) => clean(d.value@) } }
pub proof fn lemma_clean_lrep(s: T, p: T, r: T) requires clean(s), clean(r) ensures clean(lrep(s, p, r)) decreases s.len()
{
    if s.len() == 0 || p.len() == 0 {} else if at(s, p) { lemma_clean_lrep(s.skip(p.len() as int), p, r); } else { lemma_clean_lrep(s.skip(1), p, r); }
}
pub proof fn lemma_fresh(p: Seq<KV>, es: Seq<KV>) ensures forall|i: int| 0 <= i < fresh(p, es).len() ==> es.contains(#[trigger] fresh(p, es)[i]) decreases es.len()
{
    if es.len() > 0 {
        lemma_fresh(p, es.skip(1));
        let f = fresh(p, es.skip(1));
        assert forall|i: int| 0 <= i < fresh(p, es).len() implies es.contains(#[trigger] fresh(p, es)[i]) by {
            let j = if ink(p, es[0].k) { i } else { i - 1 };
            if j < 0 { assert(fresh(p, es)[0] == es[0]); } else {
                assert(fresh(p, es)[i] == f[j]);
                let q = choose|q: int| 0 <= q < es.skip(1).len() && es.skip(1)[q] == f[j];
                assert(es[q + 1] == f[j]);
            }
        }
    }
}
pub proof fn lemma_clean_eff(p: Seq<KV>, s: Seq<KV>) requires clean_values(p), clean_values(s) ensures clean_values(eff(p, s))
{
    lemma_fresh(p, s);
    assert forall|i: int| 0 <= i < eff(p, s).len() implies clean(#[trigger] eff(p, s)[i].v) by {
        if i >= p.len() {
            let e = fresh(p, s)[i - p.len()];
            let q = choose|q: int| 0 <= q < s.len() && s[q] == e;
            assert(clean(s[q].v));
        } else { assert(clean(p[i].v)); if ink(s, p[i].k) { assert(s[ixof(s, p[i].k)].k == p[i].k); } }
    }
}
pub proof fn lemma_clean_put(s: Seq<KV>, k: T, v: T) requires clean_values(s), clean(v) ensures clean_values(put(s, k, v))
{
    let m = put(s, k, v);
    if ink(s, k) { assert(s[ixof(s, k)].k == k); }
    assert forall|i: int| 0 <= i < m.len() implies clean(#[trigger] m[i].v) by { if i < s.len() { assert(clean(s[i].v)); } }
}
impl TestScript {
//@@ fn lit/src/formats/sh/script/mod.rs :: impl TestScript :: apply_substitutions
//@@ ret r
//@@ pre `substitutions.apply($x)?` => `match substitutions.apply($x) { Ok(rt_c) => rt_c, Err(rt_e) => return Err(rt_report(rt_e)) }`
//@@ pre `subst.apply($x)?` => `match subst.apply($x) { Ok(rt_c) => rt_c, Err(rt_e) => return Err(rt_report(rt_e)) }`
//@@ pre `for $c in self.commands.iter_mut() { $B }` => `{ let mut rt_i: usize = 0; while rt_i < self.commands.len() { let $c = rt_at(&mut self.commands, rt_i); $B rt_i = rt_i + 1; } }`
//@@ pre `ScriptCommand::Run(ref mut run)` => `ScriptCommand::Run(run)`
//@@ pre `ScriptCommand::Substitution(ref subst)` => `ScriptCommand::Substitution(subst)`
//@@ spec
    requires
        forall|i: int| 0 <= i < old(self).commands@.len() ==> clean_cmd(#[trigger] old(self).commands@[i]),
        clean_values(old(substitutions).parent.m()), clean_values(old(substitutions).set.m()),
    ensures ({
        let cs = old(self).commands@;
        let p = old(substitutions).parent.m();
        let s = old(substitutions).set.m();
        &&& r is Ok <==> forall|i: int| #![trigger cs[i]] 0 <= i < cs.len() ==> good(p, state(p, s, cs, i), cs[i])
        &&& r is Ok ==> final(self).commands@.len() == cs.len() && forall|i: int| #![trigger cs[i]] 0 <= i < cs.len() ==> done(p, state(p, s, cs, i), cs[i], final(self).commands@[i])
    }),
//@@ at entry
    let ghost cs = self.commands@;
    let ghost p = substitutions.parent.m();
    let ghost s = substitutions.set.m();
//@@ loop 0
    invariant
        0 <= rt_i <= cs.len(), self.commands@.len() == cs.len(), cs == old(self).commands@,
        p == old(substitutions).parent.m(), s == old(substitutions).set.m(),
        forall|i: int| 0 <= i < cs.len() ==> clean_cmd(#[trigger] cs[i]),
        clean_values(p), clean_values(substitutions.set.m()),
        substitutions.parent.m() == p, substitutions.set.m() == state(p, s, cs, rt_i as int),
        forall|i: int| #![trigger cs[i]] 0 <= i < rt_i ==> good(p, state(p, s, cs, i), cs[i]) && done(p, state(p, s, cs, i), cs[i], self.commands@[i]),
        forall|i: int| rt_i <= i < cs.len() ==> #[trigger] self.commands@[i] == cs[i],
    decreases cs.len() - rt_i
//@@ at loop 0 start
    let ghost c0 = cs[rt_i as int];
    proof {
        assert(clean_cmd(c0));
        assert(self.commands@[rt_i as int] == c0);
        lemma_clean_eff(p, substitutions.set.m());
        if let ScriptCommand::Substitution(d) = c0 {
            lemma_clean_lrep(d.value@, seq!['$'], seq!['$', '$']);
            lemma_clean_put(substitutions.set.m(), quoted(d.key@), dollars(d.value@));
        }
    }
//@@ at loop 0 end
    proof {
        let k = rt_i - 1;
        assert(good(p, state(p, s, cs, k), cs[k]));
        assert(done(p, state(p, s, cs, k), cs[k], self.commands@[k]));
    }
//@@ end
}

// ---------------------------------------------------------------- the innermost definition of a key wins, once
pub proof fn lemma_fresh_in(p: Seq<KV>, es: Seq<KV>, i: int)
    requires 0 <= i < fresh(p, es).len() ensures es.contains(fresh(p, es)[i]), !ink(p, fresh(p, es)[i].k) decreases es.len()
{
    lemma_fresh(p, es);
    if ink(p, es[0].k) { lemma_fresh_in(p, es.skip(1), i); } else if i > 0 { lemma_fresh_in(p, es.skip(1), i - 1); }
}
pub proof fn lemma_fresh_uniq(p: Seq<KV>, es: Seq<KV>) requires uniq(es) ensures uniq(fresh(p, es)) decreases es.len()
{
    if es.len() > 0 {
        let q = es.skip(1);
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && #[trigger] q[i].k == #[trigger] q[j].k implies i == j by { assert(q[i] == es[i + 1] && q[j] == es[j + 1]); }
        lemma_fresh_uniq(p, q);
        if !ink(p, es[0].k) {
            let f = fresh(p, es);
            assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && #[trigger] f[i].k == #[trigger] f[j].k implies i == j by {
                if i > 0 && j > 0 { assert(f[i] == fresh(p, q)[i - 1] && f[j] == fresh(p, q)[j - 1]); }
                else if i != j {
                    let m = if i > 0 { i } else { j };
                    lemma_fresh_in(p, q, m - 1);
                    let x = choose|x: int| 0 <= x < q.len() && q[x] == fresh(p, q)[m - 1];
                    assert(es[x + 1] == q[x]);
                    assert(f[m] == q[x]);
                }
            }
        }
    }
}
pub proof fn innermost_wins(p: Seq<KV>, s: Seq<KV>)
    requires uniq(p), uniq(s)
    ensures uniq(eff(p, s)),
        forall|i: int| 0 <= i < eff(p, s).len() ==> (#[trigger] eff(p, s)[i]).v == if ink(s, eff(p, s)[i].k) { val(s, eff(p, s)[i].k) } else { val(p, eff(p, s)[i].k) },
{
    let e = eff(p, s);
    lemma_fresh_uniq(p, s);
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && #[trigger] e[i].k == #[trigger] e[j].k implies i == j by {
        if i >= p.len() { lemma_fresh_in(p, s, i - p.len()); }
        if j >= p.len() { lemma_fresh_in(p, s, j - p.len()); }
        if i < p.len() { assert(p[i].k == e[i].k); }
        if j < p.len() { assert(p[j].k == e[j].k); }
    }
    assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).v == if ink(s, e[i].k) { val(s, e[i].k) } else { val(p, e[i].k) } by {
        if i >= p.len() {
            lemma_fresh_in(p, s, i - p.len());
            let x = choose|x: int| 0 <= x < s.len() && s[x] == e[i];
            assert(s[x].k == e[i].k);
        } else { assert(p[i].k == e[i].k); }
    }
}
}
fn main() {}
