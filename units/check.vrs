//@@ include dag.vrs
// groups of directives, CHECK-NOT between them, and the regions of CHECK-LABEL
verus! {
// ---------------------------------------------------------------- results of a test
pub struct TestFailed { pub errors: Vec<CheckFailedError> }
//@@ item filecheck/src/test/result.rs :: struct TestResult
//@@ end
#[verifier::external_body]
pub fn rt_static(m: MatchInfo<'_>) -> MatchInfo<'static> { unimplemented!() }
pub fn rt_one_err() -> (r: Vec<CheckFailedError>) ensures r@.len() == 1 { let mut v = Vec::new(); v.push(rt_err()); v }
#[verifier::external_body] // a counter of passed checks; 2^64 of them are out of reach
pub fn rt_inc(x: usize) -> usize { unimplemented!() }
impl TestResult {
    pub open spec fn n(self) -> int { self.error.errors@.len() as int }
    pub fn rt_new() -> (r: Self) ensures r.n() == 0 { TestResult { matches: Vec::new(), passed: 0, error: TestFailed { errors: Vec::new() } } }
//@@ fn filecheck/src/test/result.rs :: impl TestResult#0 :: matched
//@@ pre `matched.into_static()` => `rt_static(matched)`
//@@ pre `self.passed += 1;` => `self.passed = rt_inc(self.passed);`
//@@ spec
    ensures final(self).n() == old(self).n(),
//@@ end
//@@ fn filecheck/src/test/result.rs :: impl TestResult#0 :: passed
//@@ pre `self.passed += 1;` => `self.passed = rt_inc(self.passed);`
//@@ spec
    ensures final(self).n() == old(self).n(),
//@@ end
//@@ fn filecheck/src/test/result.rs :: impl TestResult#0 :: failed
//@@ spec
    ensures final(self).n() == old(self).n() + 1,
//@@ end
//@@ fn filecheck/src/test/result.rs :: impl TestResult#0 :: is_ok
//@@ ret r
//@@ spec
    ensures r == (self.n() == 0),
//@@ end
//@@ fn filecheck/src/test/result.rs :: impl TestResult#0 :: is_failed
//@@ ret r
//@@ spec
    ensures r == (self.n() > 0),
//@@ end
//@@ fn filecheck/src/test/result.rs :: impl TestResult#0 :: unwrap_err
//@@ ret r
//@@ pre `panic!($X);` => `rt_unreachable()`
//@@ spec
    requires self.n() > 0,
    ensures r.errors@.len() == self.n(),
//@@ end
//@@ fn filecheck/src/test/result.rs :: impl TestResult#0 :: append
//@@ pre `for result in matches.into_iter() { match result { $X } }` => `let mut rt_rest = matches.into_results(); let ghost rt_all = rt_rest@; while rt_rest.len() > 0 { let rt_m = rt_rest.remove(0); match rt_m.into_result() { $X } }`
//@@ spec
    ensures final(self).n() >= old(self).n(), final(self).n() == old(self).n() <==> matches.ok_s(),
//@@ loop 0
    invariant self.n() >= old(self).n(), self.n() == old(self).n() <==> (forall|i: int| 0 <= i < rt_all.len() - rt_rest@.len() ==> (#[trigger] rt_all[i]).ok_s()),
        rt_rest@.len() <= rt_all.len(), rt_rest@ =~= rt_all.subrange(rt_all.len() - rt_rest@.len(), rt_all.len() as int), rt_all == matches.s(),
    decreases rt_rest@.len(),
//@@ at loop 0 start
    proof { assert(rt_rest@[0] == rt_all[rt_all.len() - rt_rest@.len()]); }
//@@ end
}
impl<'input> MatchResult<'input> {
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult#0 :: into_result
//@@ ret r
//@@ spec
    ensures r is Ok <==> self.ok_s(),
//@@ end
}
pub fn rt_passes(t: &mut TestResult, n: usize)
    ensures final(t).n() == old(t).n()
{
    let mut i = 0;
    while i < n invariant i <= n, t.n() == old(t).n() decreases n - i { t.passed(); i += 1; }
}
pub fn rt_fail_all(t: &mut TestResult, errors: Vec<CheckFailedError>)
    ensures final(t).n() == old(t).n() + errors@.len()
{
    let mut e = errors;
    while e.len() > 0 invariant t.n() + e@.len() == old(t).n() + errors@.len() decreases e@.len() { let x = e.remove(0); t.failed(x); }
}
pub fn rt_append_all(t: &mut TestResult, ms: Vec<Matches<'_>>)
    ensures final(t).n() >= old(t).n(), final(t).n() == old(t).n() <==> all_ok(ms@)
{
    let mut e = ms;
    while e.len() > 0
        invariant e@.len() <= ms@.len(), e@ =~= ms@.subrange(ms@.len() - e@.len(), ms@.len() as int), t.n() >= old(t).n(), t.n() == old(t).n() <==> (forall|i: int| 0 <= i < ms@.len() - e@.len() ==> (#[trigger] ms@[i]).ok_s())
        decreases e@.len()
    { proof { assert(e@[0] == ms@[ms@.len() - e@.len()]); } let x = e.remove(0); t.append(x); }
}

// ---------------------------------------------------------------- results of a group
pub open spec fn all_ok(ms: Seq<Matches<'_>>) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).ok_s() }
pub open spec fn all_wf(ms: Seq<Matches<'_>>, n: int) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).wf(n) }
pub open spec fn mrg(m: Matches<'_>) -> Option<(int, int)> { mrange(m.s()) }
pub open spec fn has_range(ms: Seq<Matches<'_>>) -> bool { exists|i: int| 0 <= i < ms.len() && mrg(#[trigger] ms[i]) is Some }
pub open spec fn first_is(ms: Seq<Matches<'_>>, s: int) -> bool { (exists|i: int| 0 <= i < ms.len() && mrg(#[trigger] ms[i]) is Some && (mrg(ms[i])->0).0 == s) && forall|i: int| 0 <= i < ms.len() && mrg(#[trigger] ms[i]) is Some ==> s <= (mrg(ms[i])->0).0 }
pub open spec fn last_is(ms: Seq<Matches<'_>>, e: int) -> bool { (exists|i: int| 0 <= i < ms.len() && mrg(#[trigger] ms[i]) is Some && (mrg(ms[i])->0).1 == e) && forall|i: int| 0 <= i < ms.len() && mrg(#[trigger] ms[i]) is Some ==> (mrg(ms[i])->0).1 <= e }
/// the first of the matches starts at `s`, the last of them ends at `e`
pub open spec fn ext(ms: Seq<Matches<'_>>, s: int, e: int) -> bool { s <= e && first_is(ms, s) && last_is(ms, e) }
pub proof fn ext_add(a: Seq<Matches<'_>>, b: Seq<Matches<'_>>, s1: int, e1: int, s2: int, e2: int)
    requires ext(a, s1, e1), ext(b, s2, e2), e1 <= s2
    ensures ext(a + b, s1, e2)
{
    let c = a + b;
    let i = choose|i: int| 0 <= i < a.len() && mrg(#[trigger] a[i]) is Some && (mrg(a[i])->0).0 == s1;
    assert(c[i] == a[i]);
    let j = choose|i: int| 0 <= i < b.len() && mrg(#[trigger] b[i]) is Some && (mrg(b[i])->0).1 == e2;
    assert(c[a.len() + j] == b[j]);
    assert forall|i: int| 0 <= i < c.len() && mrg(#[trigger] c[i]) is Some implies s1 <= (mrg(c[i])->0).0 && (mrg(c[i])->0).1 <= e2 by {
        if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); }
    }
}
pub proof fn one_ext(m: Matches<'_>, s: int, e: int, n: int)
    requires m.one(s, e), 0 <= s, e <= n
    ensures mrg(m) == Some((s, e)), m.wf(n), m.ok_s(), ext(seq![m], s, e)
{ fst_is(m.s(), 0); lst_is(m.s(), 0); assert(seq![m][0] == m); }
pub proof fn wf_in(ms: Seq<Matches<'_>>, n: int)
    requires all_wf(ms, n)
    ensures forall|i: int| 0 <= i < ms.len() && mrg(#[trigger] ms[i]) is Some ==> 0 <= (mrg(ms[i])->0).0 <= (mrg(ms[i])->0).1 <= n
{ assert forall|i: int| 0 <= i < ms.len() && mrg(#[trigger] ms[i]) is Some implies 0 <= (mrg(ms[i])->0).0 <= (mrg(ms[i])->0).1 <= n by { mrange_in(ms[i].s(), n); } }
#[verifier::spinoff_prover]
pub fn rt_ms_start(ms: &Vec<Matches<'_>>) -> (r: Option<usize>)
    requires all_wf(ms@, u32::MAX as int)
    ensures match r { Some(x) => first_is(ms@, x as int) && (forall|s: int, e: int| #[trigger] ext(ms@, s, e) ==> s == x) && (forall|n: int| #[trigger] all_wf(ms@, n) ==> 0 <= x <= n), None => !has_range(ms@) }
{
    let mut r: Option<usize> = None;
    let mut i = 0;
    while i < ms.len()
        invariant i <= ms@.len(), all_wf(ms@, u32::MAX as int),
            match r { Some(x) => (exists|j: int| 0 <= j < i && mrg(#[trigger] ms@[j]) is Some && (mrg(ms@[j])->0).0 == x) && forall|j: int| 0 <= j < i && mrg(#[trigger] ms@[j]) is Some ==> x <= (mrg(ms@[j])->0).0,
                None => forall|j: int| 0 <= j < i ==> mrg(#[trigger] ms@[j]) is None }
        decreases ms@.len() - i
    {
        if let Some(range) = ms[i].range() { r = match r { Some(x) => Some(rt_min(x, range.start)), None => Some(range.start) }; }
        i += 1;
    }
    proof { assert forall|n: int| #[trigger] all_wf(ms@, n) implies (r is Some ==> 0 <= r->0 <= n) by { wf_in(ms@, n); } }
    r
}
#[verifier::spinoff_prover]
pub fn rt_ms_end(ms: &Vec<Matches<'_>>) -> (r: Option<usize>)
    requires all_wf(ms@, u32::MAX as int)
    ensures match r { Some(x) => last_is(ms@, x as int) && (forall|s: int, e: int| #[trigger] ext(ms@, s, e) ==> e == x) && (forall|n: int| #[trigger] all_wf(ms@, n) ==> 0 <= x <= n), None => !has_range(ms@) }
{
    let mut r: Option<usize> = None;
    let mut i = 0;
    while i < ms.len()
        invariant i <= ms@.len(), all_wf(ms@, u32::MAX as int),
            match r { Some(x) => (exists|j: int| 0 <= j < i && mrg(#[trigger] ms@[j]) is Some && (mrg(ms@[j])->0).1 == x) && forall|j: int| 0 <= j < i && mrg(#[trigger] ms@[j]) is Some ==> (mrg(ms@[j])->0).1 <= x,
                None => forall|j: int| 0 <= j < i ==> mrg(#[trigger] ms@[j]) is None }
        decreases ms@.len() - i
    {
        if let Some(range) = ms[i].range() { r = match r { Some(x) => Some(rt_max(x, range.end)), None => Some(range.end) }; }
        i += 1;
    }
    proof { assert forall|n: int| #[trigger] all_wf(ms@, n) implies (r is Some ==> 0 <= r->0 <= n) by { wf_in(ms@, n); } }
    r
}
pub fn rt_no_range(ms: &Vec<Matches<'_>>) -> (r: bool)
    requires all_wf(ms@, u32::MAX as int)
    ensures r == !has_range(ms@)
{ match rt_ms_start(ms) { Some(_) => false, None => true } }
pub fn rt_failed<'input>(e: CheckFailedError) -> (r: Matches<'input>)
    ensures !r.ok_s(), mrg(r) is None, forall|n: int| r.wf(n)
{
    let r = MatchResult::failed(e).rt_into();
    proof { assert(!r.s()[0].ok_s()); fst_is(r.s(), 1); }
    r
}

pub proof fn ms_cat(a: Seq<Matches<'_>>, b: Seq<Matches<'_>>)
    ensures all_ok(a + b) <==> all_ok(a) && all_ok(b), forall|n: int| #[trigger] all_wf(a + b, n) <==> all_wf(a, n) && all_wf(b, n),
        has_range(a) || has_range(b) ==> has_range(a + b), a.len() == 0 ==> a + b == b,
        forall|s1: int, e1: int, s2: int, e2: int| #[trigger] ext(a, s1, e1) && #[trigger] ext(b, s2, e2) && e1 <= s2 ==> ext(a + b, s1, e2),
        forall|s1: int, e1: int| #[trigger] ext(a, s1, e1) && !has_range(b) ==> ext(a + b, s1, e1),
{
    let c = a + b;
    assert forall|i: int| 0 <= i < a.len() implies a[i] == #[trigger] c[i] by { }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == c[i + a.len()] by { }
    assert(all_ok(c) ==> all_ok(a)) by { if all_ok(c) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).ok_s() by { assert(c[i].ok_s()); } } }
    assert forall|n: int| #[trigger] all_wf(c, n) <==> all_wf(a, n) && all_wf(b, n) by {
        if all_wf(c, n) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).wf(n) by { assert(c[i].wf(n)); } }
    }
    if has_range(a) { let i = choose|i: int| 0 <= i < a.len() && mrg(#[trigger] a[i]) is Some; assert(mrg(c[i]) is Some); }
    if has_range(b) { let i = choose|i: int| 0 <= i < b.len() && mrg(#[trigger] b[i]) is Some; assert(mrg(c[i + a.len()]) is Some); }
    if a.len() == 0 { assert(c =~= b); }
    assert forall|s1: int, e1: int, s2: int, e2: int| #[trigger] ext(a, s1, e1) && #[trigger] ext(b, s2, e2) && e1 <= s2 implies ext(c, s1, e2) by { ext_add(a, b, s1, e1, s2, e2); }
    assert forall|s1: int, e1: int| #[trigger] ext(a, s1, e1) && !has_range(b) implies ext(c, s1, e1) by {
        let i = choose|i: int| 0 <= i < a.len() && mrg(#[trigger] a[i]) is Some && (mrg(a[i])->0).0 == s1;
        let j = choose|i: int| 0 <= i < a.len() && mrg(#[trigger] a[i]) is Some && (mrg(a[i])->0).1 == e1;
        assert(c[i] == a[i] && c[j] == a[j]);
        assert forall|k: int| 0 <= k < c.len() && mrg(#[trigger] c[k]) is Some implies s1 <= (mrg(c[k])->0).0 && (mrg(c[k])->0).1 <= e1 by { if k < a.len() { assert(c[k] == a[k]); } else { assert(c[k] == b[k - a.len()]); } }
    }
}
pub fn rt_vappend<'a>(a: &mut Vec<Matches<'a>>, b: &mut Vec<Matches<'a>>)
    ensures final(a)@ == old(a)@ + old(b)@, all_ok(final(a)@) <==> all_ok(old(a)@) && all_ok(old(b)@), forall|n: int| #[trigger] all_wf(final(a)@, n) <==> all_wf(old(a)@, n) && all_wf(old(b)@, n),
        has_range(old(a)@) || has_range(old(b)@) ==> has_range(final(a)@), old(a)@.len() == 0 ==> final(a)@ == old(b)@,
        forall|s1: int, e1: int, s2: int, e2: int| #[trigger] ext(old(a)@, s1, e1) && #[trigger] ext(old(b)@, s2, e2) && e1 <= s2 ==> ext(final(a)@, s1, e2),
{ proof { ms_cat(a@, b@); } a.append(b); }
pub proof fn hr0(m: Seq<Matches<'_>>) requires m.len() > 0, mrg(m[0]) is Some ensures has_range(m) { }
pub fn rt_vpush1<'a>(a: &mut Vec<Matches<'a>>, x: Matches<'a>)
    requires old(a)@.len() == 0
    ensures final(a)@ == seq![x], all_ok(final(a)@) <==> x.ok_s(), forall|n: int| #[trigger] all_wf(final(a)@, n) <==> x.wf(n), has_range(final(a)@) <==> mrg(x) is Some,
        match mrg(x) { Some((s, e)) => s <= e ==> ext(final(a)@, s, e), None => true },
{
    let ghost b = seq![x];
    a.push(x);
    proof { assert(a@ =~= b); assert(b[0] == x); assert forall|n: int| #[trigger] all_wf(b, n) <==> x.wf(n) by { if all_wf(b, n) { assert(b[0].wf(n)); } } }
}
/// one more result, of a directive that excludes something
pub fn rt_vpush<'a>(a: &mut Vec<Matches<'a>>, x: Matches<'a>)
    requires !x.ok_s(), mrg(x) is None, forall|n: int| x.wf(n)
    ensures final(a)@ == old(a)@.push(x), !all_ok(final(a)@), forall|n: int| #[trigger] all_wf(final(a)@, n) <==> all_wf(old(a)@, n),
        has_range(old(a)@) ==> has_range(final(a)@),
{
    let ghost b = seq![x];
    proof { ms_cat(a@, b); assert(a@.push(x) =~= a@ + b); assert(b[0] == x); assert forall|n: int| all_wf(b, n) by { assert(x.wf(n)); } }
    a.push(x);
}
// ---------------------------------------------------------------- what a group of directives asks for
/// A boxed rule
pub enum AnyRule<'a> { Plain(CheckPlain<Pattern<'a>>), Same(CheckSame<Pattern<'a>>), Next(CheckNext<Pattern<'a>>), Empty(CheckEmpty) }
impl<'a> AnyRule<'a> {
    pub open spec fn sem(self) -> R<'a> {
        match self { AnyRule::Plain(c) => R::Plain(c.pattern), AnyRule::Same(c) => R::Same(c.pattern), AnyRule::Next(c) => R::Next(c.pattern), AnyRule::Empty(_) => R::Empty }
    }
    #[verifier::external_body]
    pub fn span(&self) -> SourceSpan { unimplemented!() }
    /// dynamic dispatch
    pub fn apply_dyn<'input>(&self, context: &mut Ctx<'input>) -> (r: DiagResult<Matches<'input>>)
        requires old(context).wf(),
        ensures applied(self.sem(), *old(context), *final(context), r),
    {
        match self { AnyRule::Plain(c) => c.apply(context), AnyRule::Same(c) => c.apply(context), AnyRule::Next(c) => c.apply(context), AnyRule::Empty(c) => c.apply(context) }
    }
//@@ fn filecheck/src/rules/mod.rs :: impl Rule for DynRule#0 :: apply
//@@ sig `pub fn apply<'input>(&self, context: &mut Ctx<'input>) -> (r: DiagResult<Matches<'input>>)`
//@@ pre `passthrough.save();` => `*context = passthrough;`
//@@ spec
    requires old(context).wf(),
    ensures applied(self.sem(), *old(context), *final(context), r),
//@@ end
}
//@@ item filecheck/src/check/program.rs :: enum CheckTree
//@@ end
//@@ item filecheck/src/check/program.rs :: enum CheckGroup
//@@ sub `Vec<Box<dyn DynRule + 'a>>` => `Vec<AnyRule<'a>>`
//@@ sub `Box<dyn DynRule + 'a>` => `AnyRule<'a>`
//@@ end
/// the directives, in order, each after the match of the one before
pub open spec fn oseq(rs: Seq<R<'_>>, b: Seq<u8>, k: int, pos: int, end: int) -> Option<int> decreases rs.len() - k {
    if k < 0 || k >= rs.len() { Some(pos) } else { match rsem(rs[k], b, pos, end) { None => None, Some((_, e)) => oseq(rs, b, k + 1, e, end) } }
}
pub open spec fn gseq(rs: Seq<R<'_>>, b: Seq<u8>, pos: int, end: int) -> Option<(int, int)> {
    if rs.len() == 0 { None } else { match (rsem(rs[0], b, pos, end), oseq(rs, b, 0, pos, end)) { (Some((s, _)), Some(e)) => Some((s, e)), _ => None } }
}
pub open spec fn rsq<'a>(rules: Seq<AnyRule<'a>>) -> Seq<R<'a>> { Seq::new(rules.len(), |i: int| rules[i].sem()) }
pub open spec fn rep<'a>(r: R<'a>, n: int) -> Seq<R<'a>> { Seq::new(n as nat, |i: int| r) }
pub open spec fn simple(g: CheckGroup<'_>) -> bool { g is Ordered || g is Repeated }
/// the directives of an ordered or repeated group
pub open spec fn srules<'a>(g: CheckGroup<'a>) -> Seq<R<'a>> {
    match g { CheckGroup::Ordered(rules) => rsq(rules@), CheckGroup::Repeated { rule, count } => rep(rule.sem(), count as int), _ => seq![] }
}
pub open spec fn bnd_r<'a>(g: CheckGroup<'a>) -> CheckGroup<'a> { match g { CheckGroup::Bounded { left, right } => *right, _ => g } }
pub open spec fn bnd_l<'a>(g: CheckGroup<'a>) -> Seq<Pattern<'a>> { match g { CheckGroup::Bounded { left, right } => left.ps(), _ => seq![] } }
/// What a group asks for: where its first match starts and where its last one ends
pub open spec fn gsem(g: CheckGroup<'_>, b: Seq<u8>, pos: int, end: int) -> Option<(int, int)> decreases g {
    match g {
        CheckGroup::Never(any) => if none_match(any.ps(), b, pos, end) { Some((pos, pos)) } else { None },
        CheckGroup::Unordered(dag) => dsem(dag.ps(), b, pos, end),
        CheckGroup::Bounded { left, right } => match dsem(left.ps(), b, pos, end) { None => None, Some((s1, e1)) => match gseq(srules(*right), b, e1, end) { None => None, Some((s2, e2)) => Some((s1, e2)) } },
        CheckGroup::Ordered(rules) => gseq(srules(g), b, pos, end),
        CheckGroup::Repeated { rule, count } => gseq(srules(g), b, pos, end),
        CheckGroup::Tree(t) => tsem(*t, b, pos, end),
    }
}
/// ... and of a tree of groups with CHECK-NOTs between them
pub open spec fn tsem(t: CheckTree<'_>, b: Seq<u8>, pos: int, end: int) -> Option<(int, int)> decreases t {
    match t {
        CheckTree::MatchAll(g) => gsem(g, b, pos, end),
        CheckTree::MatchAround { root, left, right } => match tsem(*left, b, pos, end) {
            None => None,
            Some((s1, e1)) => match tsem(*right, b, e1, end) { None => None, Some((s2, e2)) => if none_match(root.ps(), b, e1, s2) { Some((s1, e2)) } else { None } },
        },
        CheckTree::MatchBefore { root, left } => match tsem(*left, b, pos, end) { None => None, Some((s1, e1)) => if none_match(root.ps(), b, e1, end) { Some((s1, e1)) } else { None } },
        CheckTree::MatchAfter { root, right } => match tsem(*right, b, pos, end) { None => None, Some((s2, e2)) => if none_match(root.ps(), b, pos, s2) { Some((s2, e2)) } else { None } },
    }
}
/// the groups that are formed
pub open spec fn gwf(g: CheckGroup<'_>) -> bool decreases g {
    match g {
        CheckGroup::Never(_) => true,
        CheckGroup::Unordered(dag) => dag.wf(),
        CheckGroup::Bounded { left, right } => left.wf() && simple(*right) && srules(*right).len() > 0 && forall|i: int| 0 <= i < srules(*right).len() ==> (#[trigger] srules(*right)[i]) is Plain,
        CheckGroup::Ordered(rules) => rules@.len() > 0,
        CheckGroup::Repeated { rule, count } => count > 0,
        CheckGroup::Tree(t) => twf(*t),
    }
}
pub open spec fn twf(t: CheckTree<'_>) -> bool decreases t {
    match t {
        CheckTree::MatchAll(g) => gwf(g) && !(g is Never),
        CheckTree::MatchAround { root, left, right } => twf(*left) && twf(*right),
        CheckTree::MatchBefore { root, left } => twf(*left),
        CheckTree::MatchAfter { root, right } => twf(*right),
    }
}
pub proof fn oseq_in(rs: Seq<R<'_>>, b: Seq<u8>, k: int, pos: int, end: int)
    requires 0 <= k, 0 <= pos <= end <= b.len()
    ensures match oseq(rs, b, k, pos, end) { Some(e) => pos <= e <= end && (k < rs.len() ==> rsem(rs[k], b, pos, end) is Some && pos <= (rsem(rs[k], b, pos, end)->0).0 <= e), None => true }
    decreases rs.len() - k
{ if k < rs.len() { rsem_in(rs[k], b, pos, end); if let Some((_, e)) = rsem(rs[k], b, pos, end) { oseq_in(rs, b, k + 1, e, end); } } }
pub proof fn gsem_in(g: CheckGroup<'_>, b: Seq<u8>, pos: int, end: int)
    requires gwf(g), 0 <= pos <= end <= b.len()
    ensures match gsem(g, b, pos, end) { Some((s, e)) => pos <= s <= e <= end, None => true }
    decreases g
{
    match g {
        CheckGroup::Never(any) => { }
        CheckGroup::Unordered(dag) => { dsem_in(dag.ps(), b, pos, end); }
        CheckGroup::Bounded { left, right } => { dsem_in(left.ps(), b, pos, end); if let Some((s1, e1)) = dsem(left.ps(), b, pos, end) { oseq_in(srules(*right), b, 0, e1, end); } }
        CheckGroup::Ordered(rules) => { oseq_in(srules(g), b, 0, pos, end); }
        CheckGroup::Repeated { rule, count } => { oseq_in(srules(g), b, 0, pos, end); }
        CheckGroup::Tree(t) => { tsem_in(*t, b, pos, end); }
    }
}
pub proof fn tsem_in(t: CheckTree<'_>, b: Seq<u8>, pos: int, end: int)
    requires twf(t), 0 <= pos <= end <= b.len()
    ensures match tsem(t, b, pos, end) { Some((s, e)) => pos <= s <= e <= end, None => true }
    decreases t
{
    match t {
        CheckTree::MatchAll(g) => { gsem_in(g, b, pos, end); }
        CheckTree::MatchAround { root, left, right } => { tsem_in(*left, b, pos, end); if let Some((s1, e1)) = tsem(*left, b, pos, end) { tsem_in(*right, b, e1, end); } }
        CheckTree::MatchBefore { root, left } => { tsem_in(*left, b, pos, end); }
        CheckTree::MatchAfter { root, right } => { tsem_in(*right, b, pos, end); }
    }
}
/// Plain directives that match from further left on, but do not start before `e1`, match from `e1` on, too
pub proof fn gseq_later(rs: Seq<R<'_>>, b: Seq<u8>, pos: int, e1: int, end: int)
    requires 0 <= pos <= e1 <= end <= b.len(), rs.len() > 0, rs[0] is Plain, gseq(rs, b, pos, end) is Some, e1 <= (gseq(rs, b, pos, end)->0).0
    ensures gseq(rs, b, e1, end) == gseq(rs, b, pos, end)
{ broadcast use pm_leftmost; }
pub proof fn tree_in(t: CheckTree<'_>, b: Seq<u8>, pos: int, end: int)
    requires twf(t), 0 <= pos <= end <= b.len()
    ensures match t {
        CheckTree::MatchAll(g) => true,
        CheckTree::MatchAround { root, left, right } => match tsem(*left, b, pos, end) { None => true, Some((s1, e1)) => pos <= s1 <= e1 <= end && match tsem(*right, b, e1, end) { None => true, Some((s2, e2)) => e1 <= s2 <= e2 <= end } },
        CheckTree::MatchBefore { root, left } => match tsem(*left, b, pos, end) { None => true, Some((s1, e1)) => pos <= s1 <= e1 <= end },
        CheckTree::MatchAfter { root, right } => match tsem(*right, b, pos, end) { None => true, Some((s2, e2)) => pos <= s2 <= e2 <= end },
    }
{
    match t {
        CheckTree::MatchAll(g) => { }
        CheckTree::MatchAround { root, left, right } => { tsem_in(*left, b, pos, end); if let Some((s1, e1)) = tsem(*left, b, pos, end) { tsem_in(*right, b, e1, end); } }
        CheckTree::MatchBefore { root, left } => { tsem_in(*left, b, pos, end); }
        CheckTree::MatchAfter { root, right } => { tsem_in(*right, b, pos, end); }
    }
}
pub type GroupResult<'input> = Result<Result<Vec<Matches<'input>>, Vec<Matches<'input>>>, CheckFailedError>;
pub open spec fn msq<'a>(r: GroupResult<'a>) -> Seq<Matches<'a>> { match r { Ok(Ok(m)) => m@, Ok(Err(m)) => m@, Err(_) => seq![] } }
/// the cursor has not left its region or moved back
pub open spec fn sane(f: Ctx<'_>, o: Ctx<'_>) -> bool { f.at(o, f.pos()) && f.pos() >= o.pos() && f.wf() }
/// the outcome of a group: it is free of failures exactly if the group matches
pub open spec fn outcome(sem: Option<(int, int)>, never: bool, o: Ctx<'_>, f: Ctx<'_>, t0: TestResult, t1: TestResult, r: GroupResult<'_>) -> bool {
    &&& r is Ok && sane(f, o) && t1.n() >= t0.n() && all_wf(msq(r), o.b().len() as int)
    &&& (t1.n() == t0.n() && all_ok(msq(r))) <==> sem is Some
    &&& never ==> f == o
    &&& r->Ok_0 is Ok && !never ==> has_range(msq(r))
    &&& sem is Some && !never ==> f.at(o, (sem->0).1) && r->Ok_0 is Ok && ext(msq(r), (sem->0).0, (sem->0).1)
}
/// an ordered or repeated group says right away whether it matched
pub open spec fn simple_outcome(sem: Option<(int, int)>, t0: TestResult, t1: TestResult, r: GroupResult<'_>) -> bool {
    &&& r is Ok && (r->Ok_0 is Ok <==> sem is Some) && (t1.n() == t0.n() <==> sem is Some)
    &&& sem is Some ==> msq(r).len() > 0 && all_ok(msq(r)) && mrg(msq(r)[0]) is Some && (mrg(msq(r)[0])->0).0 == (sem->0).0
}
impl<'input> Ctx<'input> {
    pub proof fn wf_at(o: Self, f: Self, e: int)
        requires o.wf(), f.at(o, e), o.pos() <= e <= o.end()
        ensures sane(f, o)
    { }
}
//@@ fn filecheck/src/check/mod.rs :: check_not
//@@ sig `pub fn check_not<'input>(patterns: &MatchAny<'_>, input: Input<'input>, context: &mut Ctx<'input>) -> (r: DiagResult<Result<usize, MatchInfo<'input>>>)`
//@@ spec
    requires input.wf(),
    ensures *final(context) == *old(context), r is Ok, r->Ok_0 is Ok <==> none_match(patterns.ps(), input.b(), input.lo(), input.hi()),
//@@ end
/// the first `k` directives of a group have matched
pub open spec fn progress(rs: Seq<R<'_>>, b: Seq<u8>, pos: int, end: int, k: int, m: Seq<Matches<'_>>, cur: int) -> bool {
    &&& 0 <= k <= rs.len() && m.len() == k && pos <= cur <= end
    &&& all_ok(m) && all_wf(m, b.len() as int)
    &&& oseq(rs, b, 0, pos, end) == oseq(rs, b, k, cur, end)
    &&& k == 0 ==> cur == pos
    &&& k > 0 ==> rsem(rs[0], b, pos, end) is Some && ext(m, (rsem(rs[0], b, pos, end)->0).0, cur) && mrg(m[0]) is Some && (mrg(m[0])->0).0 == (rsem(rs[0], b, pos, end)->0).0
}
pub proof fn progress_step(rs: Seq<R<'_>>, b: Seq<u8>, pos: int, end: int, k: int, m: Seq<Matches<'_>>, cur: int, x: Matches<'_>)
    requires progress(rs, b, pos, end, k, m, cur), k < rs.len(), 0 <= pos <= end <= b.len(), rsem(rs[k], b, cur, end) is Some, x.one((rsem(rs[k], b, cur, end)->0).0, (rsem(rs[k], b, cur, end)->0).1)
    ensures progress(rs, b, pos, end, k + 1, m.push(x), (rsem(rs[k], b, cur, end)->0).1)
{
    let (s, e) = rsem(rs[k], b, cur, end)->0;
    rsem_in(rs[k], b, cur, end);
    one_ext(x, s, e, b.len() as int);
    let n = m.push(x);
    assert(n =~= m + seq![x]);
    if k > 0 { ext_add(m, seq![x], (rsem(rs[0], b, pos, end)->0).0, cur, s, e); assert(n[0] == m[0]); } else { assert(n =~= seq![x]); }
}
pub proof fn progress_range(rs: Seq<R<'_>>, b: Seq<u8>, pos: int, end: int, k: int, m: Seq<Matches<'_>>, cur: int)
    requires progress(rs, b, pos, end, k, m, cur), k > 0
    ensures has_range(m)
{ assert(mrg(m[0]) is Some); }
/// some of the results were turned into failures
pub open spec fn marked(o: Seq<MatchResult<'_>>, f: Seq<MatchResult<'_>>) -> bool {
    o.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] == o[i] || (f[i].info is None && !f[i].ok_s())
}
pub proof fn marked_props(o: Matches<'_>, f: Matches<'_>, n: int)
    requires marked(o.s(), f.s()), o.wf(n)
    ensures f.wf(n), f.ok_s() ==> f.s() == o.s(), !o.ok_s() ==> !f.ok_s()
{
    if f.ok_s() { assert forall|i: int| 0 <= i < f.s().len() implies f.s()[i] == o.s()[i] by { assert(f.s()[i].ok_s()); } assert(f.s() =~= o.s()); }
}
#[verifier::external_body]
pub fn rt_any() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn rt_skipped() -> Option<SourceSpan> { unimplemented!() }
#[verifier::external_body]
pub fn rt_causes(m: Matches<'_>) -> Vec<CheckFailedError> { unimplemented!() }
#[verifier::external_body]
pub struct LabeledSpan { _p: () }
#[verifier::external_body] // a failed match is always described
pub fn rt_related(related: &mut Vec<LabeledSpan>, e: CheckFailedError) ensures final(related)@.len() > old(related)@.len() { unimplemented!() }
pub fn rt_ok<T, E>(r: Result<T, E>) -> (x: T) requires r is Ok ensures x == r->Ok_0 { match r { Ok(x) => x, Err(_) => rt_unreachable() } }
// check_group and check_tree are verified arm by arm: each of the functions cg_*/ct_* is the whole function with
// the other arms unreachable (a precondition says so), and the function itself is verified with calls for its arms
//@@ fn filecheck/src/check/mod.rs :: check_group
//@@ sig `pub fn check_group<'input>(group: &CheckGroup<'_>, test_result: &mut TestResult, context: &mut Ctx<'input>) -> (r: GroupResult<'input>)`
//@@ pre! `CheckGroup::Never($p) => { $X }` => `CheckGroup::Never(_) => cg_never(group, test_result, context),`
//@@ pre! `CheckGroup::Ordered($p) => { $X }` => `CheckGroup::Ordered(_) => cg_ordered(group, test_result, context),`
//@@ pre! `CheckGroup::Repeated { $p } => { $X }` => `CheckGroup::Repeated { .. } => cg_repeated(group, test_result, context),`
//@@ pre! `CheckGroup::Unordered($p) => match $m { $X },` => `CheckGroup::Unordered(_) => cg_unordered(group, test_result, context),`
//@@ pre! `CheckGroup::Bounded { $p } => { $X }` => `CheckGroup::Bounded { .. } => cg_bounded(group, test_result, context),`
//@@ spec
    requires old(context).wf(), gwf(*group),
    ensures outcome(gsem(*group, old(context).b(), old(context).pos(), old(context).end()), group is Never, *old(context), *final(context), *old(test_result), *final(test_result), r),
        simple(*group) ==> simple_outcome(gsem(*group, old(context).b(), old(context).pos(), old(context).end()), *old(test_result), *final(test_result), r),
    decreases group, 1nat,
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_group
//@@ sig `pub fn cg_never<'input>(group: &CheckGroup<'_>, test_result: &mut TestResult, context: &mut Ctx<'input>) -> (r: GroupResult<'input>)`
//@@ pre! `CheckGroup::Ordered($p) => { $X }` => `CheckGroup::Ordered(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Repeated { $p } => { $X }` => `CheckGroup::Repeated { .. } => rt_unreachable(),`
//@@ pre! `CheckGroup::Unordered($p) => match $m { $X },` => `CheckGroup::Unordered(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Bounded { $p } => { $X }` => `CheckGroup::Bounded { .. } => rt_unreachable(),`
//@@ pre! `CheckGroup::Tree($p) => check_tree($X),` => `CheckGroup::Tree(_) => rt_unreachable(),`
//@@ pre `if context.config.remarks_enabled() && let Ok(loc) = $x { eprintln!($X); }` => ``
//@@ pre `CheckFailedError::MatchFoundButExcluded { $X }` => `rt_err()`
//@@ pre `CheckFailedError::MatchNoneErrorNote { $X }` => `rt_err()`
//@@ pre `Matches::from_iter([MatchResult::failed($x)])` => `rt_failed($x)`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `vec![$x]` => `rt_vec1($x)`
//@@ pre `(0..num_patterns).for_each(|_| test_result.passed())` => `rt_passes(test_result, num_patterns)`
//@@ spec
    requires old(context).wf(), gwf(*group), group is Never,
    ensures outcome(gsem(*group, old(context).b(), old(context).pos(), old(context).end()), group is Never, *old(context), *final(context), *old(test_result), *final(test_result), r),
    decreases group, 0nat,
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_group
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn cg_ordered<'input>(group: &CheckGroup<'_>, test_result: &mut TestResult, context: &mut Ctx<'input>) -> (r: GroupResult<'input>)`
//@@ pre! `CheckGroup::Never($p) => { $X }` => `CheckGroup::Never(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Repeated { $p } => { $X }` => `CheckGroup::Repeated { .. } => rt_unreachable(),`
//@@ pre! `CheckGroup::Unordered($p) => match $m { $X },` => `CheckGroup::Unordered(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Bounded { $p } => { $X }` => `CheckGroup::Bounded { .. } => rt_unreachable(),`
//@@ pre! `CheckGroup::Tree($p) => check_tree($X),` => `CheckGroup::Tree(_) => rt_unreachable(),`
//@@ pre `if context.config.remarks_enabled() && let Ok(loc) = $x { eprintln!($X); }` => ``
//@@ pre `CheckFailedError::MatchGroupFailed { $X }` => `rt_err()`
//@@ pre `CheckFailedError::MatchNoneErrorNote { $X }` => `rt_err()`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `let mut rules = rules.iter(); while let Some(rule) = rules.next() {` => `let mut rt_i = 0; while rt_i < rules.len() { let rule = &rules[rt_i]; rt_i += 1;`
//@@ pre `let skipped_spans = $a; let skipped_start = $b; let skipped_end = $c; let skipped = $d; let mut cause = $e;` => `let skipped = rt_skipped(); let mut cause = rt_causes(matches);`
//@@ pre `matched.is_empty() || matched.iter().all(|m| m.range().is_none())` => `rt_no_range(&matched)`
//@@ spec
    requires old(context).wf(), gwf(*group), group is Ordered,
    ensures outcome(gsem(*group, old(context).b(), old(context).pos(), old(context).end()), group is Never, *old(context), *final(context), *old(test_result), *final(test_result), r),
        simple(*group) ==> simple_outcome(gsem(*group, old(context).b(), old(context).pos(), old(context).end()), *old(test_result), *final(test_result), r),
    decreases group, 0nat,
//@@ at entry
    let ghost (b, pos, end) = (context.b(), context.pos(), context.end());
    let ghost rs = srules(*group);
    let ghost t0 = *test_result;
    proof { gsem_in(*group, b, pos, end); oseq_in(rs, b, 0, pos, end); }
//@@ loop 0
    invariant *group == CheckGroup::Ordered(*rules), rs == rsq(rules@), 0 <= rt_i <= rules@.len(), rules@.len() > 0, sane(*context, *old(context)), old(context).wf(), test_result.n() == t0.n(), t0 == *old(test_result),
        b == old(context).b(), pos == old(context).pos(), end == old(context).end(),
        progress(rs, b, pos, end, rt_i as int, matched@, context.pos()),
    decreases rules@.len() - rt_i,
//@@ at loop 0 start
    let ghost (m0, cur) = (matched@, context.pos());
    proof { rsem_in(rs[rt_i as int], b, context.pos(), end); assert(rs[rt_i as int] == rules@[rt_i as int].sem()); assert(rsem(rs[rt_i as int], b, cur, end) is None ==> oseq(rs, b, rt_i as int, cur, end) is None && gseq(rs, b, pos, end) is None); assert(gsem(*group, b, pos, end) == gseq(rs, b, pos, end)); }
//@@ at after `matched.push(matches);`
    proof { progress_step(rs, b, pos, end, rt_i - 1, m0, cur, matches); }
//@@ at before `if rt_no_range`
    proof { progress_range(rs, b, pos, end, rt_i as int, matched@, context.pos()); }
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_group
//@@ sig `pub fn cg_repeated<'input>(group: &CheckGroup<'_>, test_result: &mut TestResult, context: &mut Ctx<'input>) -> (r: GroupResult<'input>)`
//@@ pre! `CheckGroup::Never($p) => { $X }` => `CheckGroup::Never(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Ordered($p) => { $X }` => `CheckGroup::Ordered(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Unordered($p) => match $m { $X },` => `CheckGroup::Unordered(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Bounded { $p } => { $X }` => `CheckGroup::Bounded { .. } => rt_unreachable(),`
//@@ pre! `CheckGroup::Tree($p) => check_tree($X),` => `CheckGroup::Tree(_) => rt_unreachable(),`
//@@ pre `if context.config.remarks_enabled() && let Ok(loc) = $x { eprintln!($X); }` => ``
//@@ pre `CheckFailedError::MatchRepeatedError { $X }` => `rt_err()`
//@@ pre `CheckFailedError::MatchNoneErrorNote { $X }` => `rt_err()`
//@@ pre `Matches::default()` => `Matches::rt_default()`
//@@ pre `let mut related = vec![];` => `let mut related: Vec<LabeledSpan> = Vec::new();`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `for match_result in match_results { $X } if` => `let mut rt_rest = match_results; while rt_rest.len() > 0 { let match_result = rt_rest.remove(0); $X } if`
//@@ pre `related.extend(match_result.unwrap_err().related_labels_for(rule.span()),)` => `rt_related(&mut related, match_result.unwrap_err())`
//@@ pre `for n in 0..count { $X } Ok` => `let mut rt_n = 0; while rt_n < count { let n = rt_n; rt_n += 1; $X } Ok`
//@@ spec
    requires old(context).wf(), gwf(*group), group is Repeated,
    ensures outcome(gsem(*group, old(context).b(), old(context).pos(), old(context).end()), group is Never, *old(context), *final(context), *old(test_result), *final(test_result), r),
        simple(*group) ==> simple_outcome(gsem(*group, old(context).b(), old(context).pos(), old(context).end()), *old(test_result), *final(test_result), r),
    decreases group, 0nat,
//@@ at entry
    let ghost (b, pos, end) = (context.b(), context.pos(), context.end());
    let ghost rs = srules(*group);
    let ghost t0 = *test_result;
    proof { gsem_in(*group, b, pos, end); oseq_in(rs, b, 0, pos, end); }
//@@ loop 0
    invariant *group is Repeated, rs == rep(rule.sem(), count as int), rs == srules(*group), 0 <= rt_n <= count, count > 0, sane(*context, *old(context)), old(context).wf(), test_result.n() == t0.n(), t0 == *old(test_result),
        b == old(context).b(), pos == old(context).pos(), end == old(context).end(),
        progress(rs, b, pos, end, rt_n as int, matched@, context.pos()),
    decreases count - rt_n,
//@@ at loop 0 start
    let ghost (m0, cur) = (matched@, context.pos());
    proof { rsem_in(rs[rt_n as int], b, context.pos(), end); assert(rs[rt_n as int] == rule.sem()); assert(rsem(rs[rt_n as int], b, cur, end) is None ==> oseq(rs, b, rt_n as int, cur, end) is None && gseq(rs, b, pos, end) is None); assert(gsem(*group, b, pos, end) == gseq(rs, b, pos, end)); }
//@@ loop 1
    invariant rt_rest@.len() <= 1, rt_rest@.len() == 1 ==> rt_rest@ == seq![x0] && related@.len() == 0 && matches.s().len() == 0,
        rt_rest@.len() == 0 ==> (if x0.ok_s() { related@.len() == 0 && matches.s() =~= seq![x0] } else { related@.len() > 0 }),
    decreases rt_rest@.len(),
//@@ at after `let match_results = matches.into_results();`
    let ghost x0 = match_results@[0];
    proof { assert(match_results@ =~= seq![x0]); }
//@@ at after `matched.push(matches);`
    proof { progress_step(rs, b, pos, end, rt_n - 1, m0, cur, matches); }
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_group
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn cg_unordered<'input>(group: &CheckGroup<'_>, test_result: &mut TestResult, context: &mut Ctx<'input>) -> (r: GroupResult<'input>)`
//@@ pre! `CheckGroup::Never($p) => { $X }` => `CheckGroup::Never(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Ordered($p) => { $X }` => `CheckGroup::Ordered(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Repeated { $p } => { $X }` => `CheckGroup::Repeated { .. } => rt_unreachable(),`
//@@ pre! `CheckGroup::Bounded { $p } => { $X }` => `CheckGroup::Bounded { .. } => rt_unreachable(),`
//@@ pre! `CheckGroup::Tree($p) => check_tree($X),` => `CheckGroup::Tree(_) => rt_unreachable(),`
//@@ pre `CheckFailedError::MatchNoneErrorNote { $X }` => `rt_err()`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `vec![$x]` => `rt_vec1($x)`
//@@ spec
    requires old(context).wf(), gwf(*group), group is Unordered,
    ensures outcome(gsem(*group, old(context).b(), old(context).pos(), old(context).end()), group is Never, *old(context), *final(context), *old(test_result), *final(test_result), r),
    decreases group, 0nat,
//@@ at entry
    let ghost (b, pos, end) = (context.b(), context.pos(), context.end());
    let ghost rs = srules(*group);
    let ghost t0 = *test_result;
    proof { gsem_in(*group, b, pos, end); }
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_group
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn cg_mark<'input>(left_matches: &mut Matches<'input>, right_range: &Range<usize>, Ghost(n): Ghost<int>)`
//@@ only `if let Some(left_range) = left_matches.range() && $c { $X } let mut matched` => `if let Some(left_range) = left_matches.range() { if $c { $X } }`
//@@ pre `CheckFailedError::MatchFoundButDiscarded { $X }` => `rt_err()`
//@@ pre `let right_pattern_span = right.first_pattern_span();` => ``
//@@ pre `for mr in left_matches.iter_mut() { match mr { MatchResult { info: Some(info), ty, } if ty.is_ok() => { $A } MatchResult { info: Some(info), ty: MatchType::Failed(err), } => { $B } _ => continue, } }` => `let mut rt_j = 0; let ghost rt_l0 = *left_matches; while rt_j < left_matches.0.len() { let mr = &mut left_matches.0[rt_j]; rt_j += 1; if let Some(info) = &mr.info { if mr.ty.is_ok() { $A } else if let MatchType::Failed(err) = &mr.ty { $B } } }`
//@@ pre `match err { $p if $c => { $X } _ => (), }` => `if rt_any() && ($c) { $X }`
//@@ spec
    requires old(left_matches).wf(n), n <= u32::MAX,
    ensures final(left_matches).wf(n), !old(left_matches).ok_s() ==> !final(left_matches).ok_s(),
        match mrg(*old(left_matches)) { Some((s, e)) => if e > right_range.start { !final(left_matches).ok_s() } else { *final(left_matches) == *old(left_matches) }, None => *final(left_matches) == *old(left_matches) },
//@@ loop 0
    invariant marked(rt_l0.s(), left_matches.s()), rt_j <= left_matches.s().len(), rt_l0 == *old(left_matches),
        forall|i: int| 0 <= i < rt_j && (#[trigger] rt_l0.s()[i]).hit() && rt_l0.s()[i].info->0.e() > right_range.start ==> !left_matches.s()[i].ok_s(),
    decreases left_matches.s().len() - rt_j,
//@@ at loop 0 after
    proof {
        marked_props(rt_l0, *left_matches, n);
        lst_exists(rt_l0.s());
        if rt_l0.ok_s() {
            let i = choose|i: int| 0 <= i < rt_l0.s().len() && (#[trigger] rt_l0.s()[i]).info is Some && lst(rt_l0.s()) == Some(rt_l0.s()[i].info->0.e());
            assert(rt_l0.s()[i].ok_s());
            assert(rt_l0.s()[i].hit());
            assert(!left_matches.s()[i].ok_s());
        }
    }
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_group
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn cg_merge<'input>(initial_result: DiagResult<Matches<'input>>, right_result: GroupResult<'input>, test_result: &mut TestResult, Ghost(n): Ghost<int>) -> (r: GroupResult<'input>)`
//@@ only `match right_result { $X }` => `match right_result { $X }`
//@@ pre `CheckFailedError::MatchNoneErrorNote { $X }` => `rt_err()`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `vec![$x]` => `rt_vec1($x)`
//@@ pre `right_matches[0].range().expect($x)` => `right_matches[0].range().unwrap()`
//@@ pre! `if let Some(left_range) = left_matches.range() && $c { $X } let mut matched` => `cg_mark(&mut left_matches, &right_range, Ghost(n)); let mut matched`
//@@ pre `Vec::with_capacity($x)` => `Vec::new()`
//@@ pre `matched.push(left_matches)` => `rt_vpush1(&mut matched, left_matches)`
//@@ pre `matched.append(&mut right_matches)` => `rt_vappend(&mut matched, &mut right_matches)`
//@@ spec
    requires initial_result is Ok, initial_result->Ok_0.wf(n), n <= u32::MAX, right_result is Ok, all_wf(msq(right_result), n),
        right_result->Ok_0 is Ok ==> msq(right_result).len() > 0 && mrg(msq(right_result)[0]) is Some,
    ensures *final(test_result) == *old(test_result), r is Ok, all_wf(msq(r), n), r->Ok_0 is Ok ==> has_range(msq(r)),
        all_ok(msq(r)) ==> initial_result->Ok_0.ok_s() && all_ok(msq(right_result)),
        right_result->Ok_0 is Ok ==> r->Ok_0 is Ok && ({
            let (left, right) = (initial_result->Ok_0, msq(right_result));
            match mrg(left) { None => true, Some((s1, e1)) =>
                if e1 > (mrg(right[0])->0).0 { !all_ok(msq(r)) } else {
                    &&& left.ok_s() && all_ok(right) ==> all_ok(msq(r))
                    &&& forall|s2: int, e2: int| s1 <= e1 <= s2 && #[trigger] ext(right, s2, e2) ==> ext(msq(r), s1, e2)
                } }
        }),
//@@ at entry
    hide(ext); hide(has_range); hide(all_ok); hide(Matches::ok_s); hide(fst); hide(lst); hide(first_is); hide(last_is);
    proof { if right_result->Ok_0 is Ok { hr0(msq(right_result)); assert(msq(right_result)[0].wf(n)); } }
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_group
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn cg_bounded<'input>(group: &CheckGroup<'_>, test_result: &mut TestResult, context: &mut Ctx<'input>) -> (r: GroupResult<'input>)`
//@@ pre! `CheckGroup::Never($p) => { $X }` => `CheckGroup::Never(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Ordered($p) => { $X }` => `CheckGroup::Ordered(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Repeated { $p } => { $X }` => `CheckGroup::Repeated { .. } => rt_unreachable(),`
//@@ pre! `CheckGroup::Unordered($p) => match $m { $X },` => `CheckGroup::Unordered(_) => rt_unreachable(),`
//@@ pre! `CheckGroup::Tree($p) => check_tree($X),` => `CheckGroup::Tree(_) => rt_unreachable(),`
//@@ pre `CheckFailedError::MatchFoundButDiscarded { $X }` => `rt_err()`
//@@ pre `TestResult::new(context)` => `TestResult::rt_new()`
//@@ pre `if let (Ok(left_matches), Ok(Err(_))) = (&initial_result, &right_result) && left_matches.is_ok() { $X } if` => `let rt_go = match (&initial_result, &right_result) { (Ok(left_matches), Ok(Err(_))) => left_matches.is_ok(), _ => false }; if rt_go { $X } if`
//@@ pre `matches!(retry_result, Ok(Ok(_)))` => `(match retry_result { Ok(Ok(_)) => true, _ => false })`
//@@ pre `failed.errors.into_iter().for_each(|error| test_result.failed(error))` => `rt_fail_all(test_result, failed.errors)`
//@@ pre! `match right_result { $X }` => `cg_merge(initial_result, right_result, test_result, Ghost(b.len() as int))`
//@@ spec
    requires old(context).wf(), gwf(*group), group is Bounded,
    ensures outcome(gsem(*group, old(context).b(), old(context).pos(), old(context).end()), group is Never, *old(context), *final(context), *old(test_result), *final(test_result), r),
    decreases group, 0nat,
//@@ at entry
    let ghost (b, pos, end) = (context.b(), context.pos(), context.end());
    let ghost right = bnd_r(*group); let ghost rs = srules(right);
    let ghost ps = bnd_l(*group);
    let ghost l = dsem(ps, b, pos, end);
    proof { gsem_in(*group, b, pos, end); dsem_in(ps, b, pos, end); assert(gwf(right)); gsem_in(right, b, pos, end); if let Some((s1, e1)) = l { gsem_in(right, b, e1, end); } }
//@@ at after `let retry_result = check_group(right, &mut retry_test_result, context);`
    proof { if let Some((s1, e1)) = l { if gseq(rs, b, pos, end) is Some && e1 <= (gseq(rs, b, pos, end)->0).0 { gseq_later(rs, b, pos, e1, end); assert(false); } } }
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_tree
//@@ sig `pub fn check_tree<'input>(tree: &CheckTree<'_>, test_result: &mut TestResult, context: &mut Ctx<'input>) -> (r: GroupResult<'input>)`
//@@ pre! `CheckTree::MatchAround { $p } => { $X }` => `CheckTree::MatchAround { .. } => ct_around(tree, test_result, context),`
//@@ pre! `CheckTree::MatchBefore { $p } => { $X }` => `CheckTree::MatchBefore { .. } => ct_before(tree, test_result, context),`
//@@ pre! `CheckTree::MatchAfter { $p } => { $X }` => `CheckTree::MatchAfter { .. } => ct_after(tree, test_result, context),`
//@@ spec
    requires old(context).wf(), twf(*tree),
    ensures outcome(tsem(*tree, old(context).b(), old(context).pos(), old(context).end()), false, *old(context), *final(context), *old(test_result), *final(test_result), r),
    decreases tree, 1nat,
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_tree
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn ct_around<'input>(tree: &CheckTree<'_>, test_result: &mut TestResult, context: &mut Ctx<'input>) -> (r: GroupResult<'input>)`
//@@ pre! `CheckTree::MatchAll($p) => check_group($X),` => `CheckTree::MatchAll(_) => rt_unreachable(),`
//@@ pre! `CheckTree::MatchBefore { $p } => { $X }` => `CheckTree::MatchBefore { .. } => rt_unreachable(),`
//@@ pre! `CheckTree::MatchAfter { $p } => { $X }` => `CheckTree::MatchAfter { .. } => rt_unreachable(),`
//@@ pre `CheckFailedError::MatchFoundButExcluded { $X }` => `rt_err()`
//@@ pre `CheckFailedError::MatchNoneErrorNote { $X }` => `rt_err()`
//@@ pre `Matches::from_iter([MatchResult::failed($x)])` => `rt_failed($x)`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `check_tree($a).expect($s)` => `rt_ok(check_tree($a))`
//@@ pre `(0..num_passed).for_each(|_| test_result.passed())` => `rt_passes(test_result, num_passed)`
//@@ pre `(0..root.pattern_len()).for_each(|_| test_result.passed())` => `rt_passes(test_result, root.pattern_len())`
//@@ pre `left_matched.iter().filter_map(|matches| matches.range().map(|r| r.end)).max()` => `rt_ms_end(&left_matched)`
//@@ pre `right_matched.iter().filter_map(|matches| matches.range().map(|r| r.start)).min()` => `rt_ms_start(&right_matched)`
//@@ pre `let right_pattern_span = match right.first() { $X };` => ``
//@@ pre `matched.append(&mut left_matched)` => `rt_vappend(&mut matched, &mut left_matched)`
//@@ pre `matched.append(&mut right_matched)` => `rt_vappend(&mut matched, &mut right_matched)`
//@@ pre `matched.push(rt_failed($x))` => `rt_vpush(&mut matched, rt_failed($x))`
//@@ pre `left_matched.push(rt_failed($x))` => `rt_vpush(&mut left_matched, rt_failed($x))`
//@@ pre `right_matched.push(rt_failed($x))` => `rt_vpush(&mut right_matched, rt_failed($x))`
//@@ pre `left_end.min(right_start)` => `rt_min(left_end, right_start)`
//@@ spec
    requires old(context).wf(), twf(*tree), tree is MatchAround,
    ensures outcome(tsem(*tree, old(context).b(), old(context).pos(), old(context).end()), false, *old(context), *final(context), *old(test_result), *final(test_result), r),
    decreases tree, 0nat,
//@@ at entry
    let ghost (b, pos, end) = (context.b(), context.pos(), context.end());
    proof { tree_in(*tree, b, pos, end); }
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_tree
//@@ sig `pub fn ct_before<'input>(tree: &CheckTree<'_>, test_result: &mut TestResult, context: &mut Ctx<'input>) -> (r: GroupResult<'input>)`
//@@ pre! `CheckTree::MatchAll($p) => check_group($X),` => `CheckTree::MatchAll(_) => rt_unreachable(),`
//@@ pre! `CheckTree::MatchAround { $p } => { $X }` => `CheckTree::MatchAround { .. } => rt_unreachable(),`
//@@ pre! `CheckTree::MatchAfter { $p } => { $X }` => `CheckTree::MatchAfter { .. } => rt_unreachable(),`
//@@ pre `CheckFailedError::MatchFoundButExcluded { $X }` => `rt_err()`
//@@ pre `CheckFailedError::MatchNoneErrorNote { $X }` => `rt_err()`
//@@ pre `Matches::from_iter([MatchResult::failed($x)])` => `rt_failed($x)`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `check_tree($a).expect($s)` => `rt_ok(check_tree($a))`
//@@ pre `(0..num_passed).for_each(|_| test_result.passed())` => `rt_passes(test_result, num_passed)`
//@@ pre `(0..root.pattern_len()).for_each(|_| test_result.passed())` => `rt_passes(test_result, root.pattern_len())`
//@@ pre `left_matched.iter().filter_map(|matches| matches.range().map(|r| r.end)).max()` => `rt_ms_end(&left_matched)`
//@@ pre `right_matched.iter().filter_map(|matches| matches.range().map(|r| r.start)).min()` => `rt_ms_start(&right_matched)`
//@@ pre `let right_pattern_span = match right.first() { $X };` => ``
//@@ pre `matched.append(&mut left_matched)` => `rt_vappend(&mut matched, &mut left_matched)`
//@@ pre `matched.append(&mut right_matched)` => `rt_vappend(&mut matched, &mut right_matched)`
//@@ pre `matched.push(rt_failed($x))` => `rt_vpush(&mut matched, rt_failed($x))`
//@@ pre `left_matched.push(rt_failed($x))` => `rt_vpush(&mut left_matched, rt_failed($x))`
//@@ pre `right_matched.push(rt_failed($x))` => `rt_vpush(&mut right_matched, rt_failed($x))`
//@@ pre `left_end.min(right_start)` => `rt_min(left_end, right_start)`
//@@ spec
    requires old(context).wf(), twf(*tree), tree is MatchBefore,
    ensures outcome(tsem(*tree, old(context).b(), old(context).pos(), old(context).end()), false, *old(context), *final(context), *old(test_result), *final(test_result), r),
    decreases tree, 0nat,
//@@ at entry
    let ghost (b, pos, end) = (context.b(), context.pos(), context.end());
    proof { tree_in(*tree, b, pos, end); }
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_tree
//@@ sig `pub fn ct_after<'input>(tree: &CheckTree<'_>, test_result: &mut TestResult, context: &mut Ctx<'input>) -> (r: GroupResult<'input>)`
//@@ pre! `CheckTree::MatchAll($p) => check_group($X),` => `CheckTree::MatchAll(_) => rt_unreachable(),`
//@@ pre! `CheckTree::MatchAround { $p } => { $X }` => `CheckTree::MatchAround { .. } => rt_unreachable(),`
//@@ pre! `CheckTree::MatchBefore { $p } => { $X }` => `CheckTree::MatchBefore { .. } => rt_unreachable(),`
//@@ pre `CheckFailedError::MatchFoundButExcluded { $X }` => `rt_err()`
//@@ pre `CheckFailedError::MatchNoneErrorNote { $X }` => `rt_err()`
//@@ pre `Matches::from_iter([MatchResult::failed($x)])` => `rt_failed($x)`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `check_tree($a).expect($s)` => `rt_ok(check_tree($a))`
//@@ pre `(0..num_passed).for_each(|_| test_result.passed())` => `rt_passes(test_result, num_passed)`
//@@ pre `(0..root.pattern_len()).for_each(|_| test_result.passed())` => `rt_passes(test_result, root.pattern_len())`
//@@ pre `left_matched.iter().filter_map(|matches| matches.range().map(|r| r.end)).max()` => `rt_ms_end(&left_matched)`
//@@ pre `right_matched.iter().filter_map(|matches| matches.range().map(|r| r.start)).min()` => `rt_ms_start(&right_matched)`
//@@ pre `let right_pattern_span = match right.first() { $X };` => ``
//@@ pre `matched.append(&mut left_matched)` => `rt_vappend(&mut matched, &mut left_matched)`
//@@ pre `matched.append(&mut right_matched)` => `rt_vappend(&mut matched, &mut right_matched)`
//@@ pre `matched.push(rt_failed($x))` => `rt_vpush(&mut matched, rt_failed($x))`
//@@ pre `left_matched.push(rt_failed($x))` => `rt_vpush(&mut left_matched, rt_failed($x))`
//@@ pre `right_matched.push(rt_failed($x))` => `rt_vpush(&mut right_matched, rt_failed($x))`
//@@ pre `left_end.min(right_start)` => `rt_min(left_end, right_start)`
//@@ spec
    requires old(context).wf(), twf(*tree), tree is MatchAfter,
    ensures outcome(tsem(*tree, old(context).b(), old(context).pos(), old(context).end()), false, *old(context), *final(context), *old(test_result), *final(test_result), r),
    decreases tree, 0nat,
//@@ at entry
    let ghost (b, pos, end) = (context.b(), context.pos(), context.end());
    proof { tree_in(*tree, b, pos, end); }
//@@ end

// ---------------------------------------------------------------- sections of a program
//@@ item filecheck/src/check/program.rs :: enum CheckSection
//@@ sub `SimpleMatcher<'a>` => `Pattern<'a>`
//@@ end
//@@ item filecheck/src/check/program.rs :: struct CheckProgram
//@@ end
//@@ item filecheck/src/check/mod.rs :: struct BlockInfo
//@@ end
/// groups, one after the other, from the `k`-th on
pub open spec fn gsq(gs: Seq<CheckGroup<'_>>, b: Seq<u8>, k: int, pos: int, end: int) -> Option<int> decreases gs.len() - k {
    if k < 0 || k >= gs.len() { Some(pos) } else { match gsem(gs[k], b, pos, end) { None => None, Some((_, e)) => gsq(gs, b, k + 1, e, end) } }
}
pub open spec fn gs_wf(gs: Seq<CheckGroup<'_>>) -> bool { forall|i: int| 0 <= i < gs.len() ==> gwf(#[trigger] gs[i]) }
/// the groups of a section list
pub open spec fn grp<'a>(s: CheckSection<'a>) -> CheckGroup<'a> recommends s is Group { s->Group_body }
pub open spec fn grps<'a>(ss: Seq<CheckSection<'a>>) -> Seq<CheckGroup<'a>> { Seq::new(ss.len(), |i: int| grp(ss[i])) }
/// the outcome of a list of groups
pub open spec fn passes(sem: bool, o: Ctx<'_>, f: Ctx<'_>, t0: TestResult, t1: TestResult) -> bool {
    sane(f, o) && t1.n() >= t0.n() && (t1.n() == t0.n() <==> sem)
}
/// a list of groups up to the `k`-th
pub open spec fn upto(gs: Seq<CheckGroup<'_>>, o: Ctx<'_>, f: Ctx<'_>, t0: TestResult, t1: TestResult, k: int) -> bool {
    &&& 0 <= k <= gs.len() && sane(f, o) && t1.n() >= t0.n()
    &&& t1.n() == t0.n() ==> gsq(gs, o.b(), 0, o.pos(), o.end()) == gsq(gs, o.b(), k, f.pos(), o.end())
    &&& t1.n() != t0.n() ==> gsq(gs, o.b(), 0, o.pos(), o.end()) is None
}
pub proof fn upto_step(gs: Seq<CheckGroup<'_>>, o: Ctx<'_>, f0: Ctx<'_>, t0: TestResult, t1: TestResult, k: int, f1: Ctx<'_>, t2: TestResult, t3: TestResult, r: GroupResult<'_>)
    requires upto(gs, o, f0, t0, t1, k), o.wf(), k < gs.len(), outcome(gsem(gs[k], f0.b(), f0.pos(), f0.end()), gs[k] is Never, f0, f1, t1, t2, r),
        t3.n() >= t2.n(), t3.n() == t2.n() <==> all_ok(msq(r)),
    ensures upto(gs, o, f1, t0, t3, k + 1)
{ }
/// one after the other
//@@ fn filecheck/src/check/mod.rs :: check_block_section
//@@ sig `pub fn check_block_section<'input>(body: &[CheckGroup<'_>], test_result: &mut TestResult, context: &mut Ctx<'input>)`
//@@ pre `for group in body.iter() { $X }` => `let mut rt_i = 0; while rt_i < body.len() { let group = &body[rt_i]; rt_i += 1; $X }`
//@@ pre `matched.into_iter().for_each(|matches| test_result.append(matches))` => `rt_append_all(test_result, matched)`
//@@ pre `match check_group($a) {` => `let rt_r = check_group($a); let ghost rt_g = rt_r; let ghost rt_t1 = *test_result; match rt_r {`
//@@ spec
    requires old(context).wf(), gs_wf(body@),
    ensures passes(gsq(body@, old(context).b(), 0, old(context).pos(), old(context).end()) is Some, *old(context), *final(context), *old(test_result), *final(test_result)),
//@@ loop 0
    invariant rt_i <= body@.len(), old(context).wf(), gs_wf(body@), upto(body@, *old(context), *context, *old(test_result), *test_result, rt_i as int),
    decreases body@.len() - rt_i,
//@@ at loop 0 start
    let ghost (c0, t0) = (*context, *test_result);
//@@ at loop 0 end
    proof { upto_step(body@, *old(context), c0, *old(test_result), t0, rt_i - 1, *context, rt_t1, *test_result, rt_g); }
//@@ end
//@@ fn filecheck/src/check/mod.rs :: check_group_sections
//@@ sig `pub fn check_group_sections<'input>(body: &[CheckSection<'_>], test_result: &mut TestResult, context: &mut Ctx<'input>)`
//@@ pre `for section in body.iter() { $X }` => `let mut rt_i = 0; while rt_i < body.len() { let section = &body[rt_i]; rt_i += 1; $X }`
//@@ pre `unreachable!()` => `rt_unreachable()`
//@@ pre `matched.into_iter().for_each(|matches| test_result.append(matches))` => `rt_append_all(test_result, matched)`
//@@ pre `match check_group($a) {` => `let rt_r = check_group($a); let ghost rt_g = rt_r; let ghost rt_t1 = *test_result; match rt_r {`
//@@ spec
    requires old(context).wf(), gs_wf(grps(body@)), forall|i: int| 0 <= i < body@.len() ==> (#[trigger] body@[i]) is Group,
    ensures passes(gsq(grps(body@), old(context).b(), 0, old(context).pos(), old(context).end()) is Some, *old(context), *final(context), *old(test_result), *final(test_result)),
//@@ loop 0
    invariant rt_i <= body@.len(), old(context).wf(), gs_wf(grps(body@)), forall|i: int| 0 <= i < body@.len() ==> (#[trigger] body@[i]) is Group,
        upto(grps(body@), *old(context), *context, *old(test_result), *test_result, rt_i as int),
    decreases body@.len() - rt_i,
//@@ at loop 0 start
    let ghost (c0, t0) = (*context, *test_result);
    proof { assert(gwf(grps(body@)[rt_i as int])); }
//@@ at loop 0 end
    proof { upto_step(grps(body@), *old(context), c0, *old(test_result), t0, rt_i - 1, *context, rt_t1, *test_result, rt_g); }
//@@ end

// ---------------------------------------------------------------- the regions of CHECK-LABEL
/// first the groups, then the blocks
pub open spec fn secs_wf(ss: Seq<CheckSection<'_>>, g: int) -> bool {
    &&& 0 <= g <= ss.len()
    &&& forall|i: int| 0 <= i < g ==> (#[trigger] ss[i]) is Group && gwf(grp(ss[i]))
    &&& forall|i: int| g <= i < ss.len() ==> (#[trigger] ss[i]) is Block && gs_wf(ss[i]->Block_body@)
}
pub open spec fn eol(b: Seq<u8>, s: int) -> int { nl(b, false, s, b.len() as int) }
/// the last line feed before `s`, or the start of the text
pub open spec fn bol(b: Seq<u8>, s: int) -> int decreases s { if s <= 0 { 0 } else if lf_at(b, s - 1) { s - 1 } else { bol(b, s - 1) } }
/// where the labels from section `g` on, up to the `k`-th, match: each on a later line than the one before it
pub open spec fn labels(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, k: int) -> Option<Seq<int>> decreases k {
    if k <= 0 { Some(seq![]) } else { match labels(ss, g, b, k - 1) { None => None, Some(v) =>
        if k > 1 && eol(b, v[k - 2]) >= b.len() { None } else { match pm(ss[g + k - 1]->Block_label, b, if k > 1 { eol(b, v[k - 2]) + 1 } else { 0 }, b.len() as int) { None => None, Some((s, _)) => Some(v.push(s)) } } } }
}
pub open spec fn reg_end(b: Seq<u8>, v: Seq<int>, j: int) -> int { if j < v.len() { bol(b, v[j]) } else { b.len() as int } }
/// What a program asks of a text: all labels match, and every section does in its region
pub open spec fn psem(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>) -> bool {
    match labels(ss, g, b, ss.len() - g) {
        None => false,
        Some(v) => {
            &&& gsq(grps(ss.take(g)), b, 0, 0, reg_end(b, v, 0)) is Some
            &&& forall|j: int| 0 <= j < v.len() ==> gsq((#[trigger] ss[g + j])->Block_body@, b, 0, eol(b, v[j]), reg_end(b, v, j + 1)) is Some
        },
    }
}
pub proof fn bol_props(b: Seq<u8>, s: int)
    requires 0 <= s <= b.len()
    ensures 0 <= bol(b, s) <= s, bol(b, s) > 0 ==> lf_at(b, bol(b, s)) && bol(b, s) < s, forall|j: int| bol(b, s) < j < s ==> !lf_at(b, j), bol(b, s) == 0 && s > 0 && !lf_at(b, 0) ==> forall|j: int| 0 <= j < s ==> !lf_at(b, j)
    decreases s
{ if s > 0 && !lf_at(b, s - 1) { bol_props(b, s - 1); } }
pub proof fn bol_is(b: Seq<u8>, s: int, r: Option<usize>)
    requires 0 <= s <= b.len(), match r { Some(i) => is_last_nl(b, false, 0, s, i as int), None => no_nl(b, false, 0, s) }
    ensures (match r { Some(i) => i as int, None => 0 }) == bol(b, s)
{
    bol_props(b, s);
    match r {
        Some(i) => { assert(nl_at(b, false, i as int, s)); if i < bol(b, s) { assert(nl_at(b, false, bol(b, s), s)); } }
        None => { if bol(b, s) > 0 { assert(nl_at(b, false, bol(b, s), s)); } }
    }
}
pub proof fn labels_in(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, k: int)
    requires 0 <= k
    ensures match labels(ss, g, b, k) { None => true, Some(v) => v.len() == k && (forall|j: int| 0 <= j < k ==> 0 <= #[trigger] v[j] <= b.len()) && forall|j: int| 0 <= j < k - 1 ==> eol(b, #[trigger] v[j]) < b.len() && eol(b, v[j]) <= bol(b, v[j + 1]) }
    decreases k
{
    if k > 0 {
        labels_in(ss, g, b, k - 1);
        if let Some(v) = labels(ss, g, b, k - 1) {
            if k > 1 { nl_props(b, false, v[k - 2], b.len() as int); }
            if let Some(w) = labels(ss, g, b, k) {
                assert(w == v.push(w[k - 1]));
                bol_props(b, w[k - 1]);
                assert forall|j: int| 0 <= j < k - 1 implies eol(b, #[trigger] w[j]) < b.len() && eol(b, w[j]) <= bol(b, w[j + 1]) by {
                    assert(w[j] == v[j]);
                    if j < k - 2 { assert(w[j + 1] == v[j + 1]); assert(eol(b, v[j]) < b.len()); } else { let e = eol(b, v[j]); assert(nl_at(b, false, e, b.len() as int)); assert(lf_at(b, e)); assert(e < w[k - 1]); }
                }
            }
        }
    }
}

impl TestFailed { pub fn rt_new(errors: Vec<CheckFailedError>) -> (r: Self) ensures r.errors == errors { TestFailed { errors } } }
impl TestResult {
//@@ fn filecheck/src/test/result.rs :: impl TestResult#0 :: from_error
//@@ ret r
//@@ pre `vec![]` => `Vec::new()`
//@@ spec
    ensures r.n() == error.errors@.len(),
//@@ end
}
/// the text has LF line ends (as seen from its first line)
pub open spec fn lf_text(b: Seq<u8>) -> bool { let i = nl(b, false, 0, b.len() as int); !(0 < i < b.len() && b[i - 1] == 13) }
impl<'input> Ctx<'input> {
    /// the whole text
    pub open spec fn fresh(self, b: Seq<u8>) -> bool { self.cursor.wf() && self.b() == b && self.pos() == 0 && self.end() == b.len() && !self.cursor.crlf && lf_text(b) }
//@@ fn filecheck/src/context.rs :: impl MatchContext :: new
//@@ sig `pub fn rt_new(source_id: SourceId, buffer: &'input [u8]) -> (r: Self)`
//@@ pre! `let env = $e; let source_id = $i; Self { $X cursor: $c, }` => `Ctx { cursor: $c }`
//@@ spec
    requires buffer@.len() <= u32::MAX, lf_text(buffer@),
    ensures r.fresh(buffer@),
//@@ end
//@@ fn filecheck/src/context.rs :: impl MatchContext :: enter_block
//@@ sub? `RangeBounds<usize>` => `RangeBounds`
//@@ pre! `if self.config.options.enable_var_scope { self.env.clear(); }` => ``
//@@ spec
    requires old(self).cursor.wf(), b_ok(range.lo(), range.hi()),
        0 <= b_lo(range.lo(), 0) <= b_hi(range.hi(), old(self).b().len() as int) <= old(self).b().len(),
    ensures final(self).cursor.at(old(self).cursor, b_lo(range.lo(), 0), b_hi(range.hi(), old(self).b().len() as int)),
//@@ end
}
impl BlockInfo {
//@@ fn filecheck/src/check/mod.rs :: impl BlockInfo :: range
//@@ ret r
//@@ pre `Range::new` => `Range::<usize>::new`
//@@ spec
    requires (match self.start { Some(s) => s, None => 0 }) <= (match self.end { Some(e) => e, None => self.eof }),
    ensures r.start == (match self.start { Some(s) => s, None => 0 }), r.end == (match self.end { Some(e) => e, None => self.eof }),
//@@ end
}
/// the block of section `a` to `c`, from `s` to `e` (or the end of the text)
pub open spec fn blk(x: BlockInfo, n: int, a: int, c: int, s: int, e: Option<int>) -> bool {
    &&& x.eof == n && x.sections is Some && x.sections->0.start == a && x.sections->0.end == c && x.start is Some && x.start->0 == s
    &&& match e { Some(i) => x.end is Some && x.end->0 == i, None => x.end is None }
}
pub open spec fn off(g: int, n: int) -> int { if g > 0 || n == 0 { 1 } else { 0 } }
pub open spec fn nxt(b: Seq<u8>, v: Seq<int>, j: int) -> Option<int> { if j < v.len() { Some(bol(b, v[j])) } else { None } }
/// the blocks of the labels found so far
pub open spec fn blocks_ok(bl: Seq<BlockInfo>, n: int, g: int, b: Seq<u8>, v: Seq<int>) -> bool {
    let o = off(g, n);
    &&& bl.len() == o + v.len()
    &&& o == 1 ==> blk(bl[0], b.len() as int, 0, g, 0, nxt(b, v, 0))
    &&& forall|j: int| 0 <= j < v.len() ==> blk(#[trigger] bl[o + j], b.len() as int, g + j, g + j + 1, eol(b, v[j]), nxt(b, v, j + 1))
}
pub fn rt_leading(ss: &Vec<CheckSection<'_>>, Ghost(g): Ghost<int>) -> (r: usize)
    requires secs_wf(ss@, g)
    ensures r == g
{
    let mut i = 0;
    while i < ss.len() && (match ss[i] { CheckSection::Block { .. } => false, _ => true }) invariant i <= g, secs_wf(ss@, g) decreases ss@.len() - i { i += 1; }
    i
}
pub fn rt_first<'b, T>(v: &'b Vec<T>) -> (r: Option<&'b T>) ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 } { if v.len() > 0 { Some(&v[0]) } else { None } }
pub fn rt_last_started(bl: &Vec<BlockInfo>, n: usize) -> (r: Option<usize>)
    requires n <= bl@.len()
    ensures match r { Some(j) => j < n && bl@[j as int].start is Some && forall|k: int| j < k < n ==> (#[trigger] bl@[k]).start is None, None => forall|k: int| 0 <= k < n ==> (#[trigger] bl@[k]).start is None }
{
    let mut j = n;
    while j > 0 invariant j <= n <= bl@.len(), forall|k: int| j <= k < n ==> (#[trigger] bl@[k]).start is None decreases j { j -= 1; if bl[j].start.is_some() { return Some(j); } }
    None
}
/// what is known before section `i`
pub open spec fn disc(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, i: int, bl: Seq<BlockInfo>, nerr: int, nls: Option<usize>) -> bool {
    let k = if i < g { 0 } else { i - g };
    &&& match nls { Some(x) => x <= b.len(), None => true }
    &&& nerr > 0 ==> labels(ss, g, b, k) is None
    &&& nerr == 0 ==> labels(ss, g, b, k) is Some && ({
        let v = labels(ss, g, b, k)->0;
        &&& blocks_ok(bl, ss.len() as int, g, b, v)
        &&& match nls { Some(x) => x == (if k > 0 { eol(b, v[k - 1]) + 1 } else { 0 }), None => k > 0 && eol(b, v[k - 1]) == b.len() }
    })
}
pub proof fn last_started(bl: Seq<BlockInfo>, n: int, g: int, b: Seq<u8>, v: Seq<int>)
    requires blocks_ok(bl, n, g, b, v), bl.len() > 0
    ensures bl.last().start is Some
{ let o = off(g, n); if v.len() > 0 { assert(blk(bl[o + (v.len() - 1)], b.len() as int, g + (v.len() - 1), g + v.len(), eol(b, v[v.len() - 1]), nxt(b, v, v.len() as int))); } }
pub proof fn blocks_push(n: int, g: int, b: Seq<u8>, v: Seq<int>, bl: Seq<BlockInfo>, s: int, bl1: Seq<BlockInfo>)
    requires blocks_ok(bl, n, g, b, v),
        bl1.len() == bl.len() + 1, blk(bl1.last(), b.len() as int, g + v.len(), g + v.len() + 1, eol(b, s), None),
        forall|j: int| 0 <= j < bl.len() - 1 ==> #[trigger] bl1[j] == bl[j],
        bl.len() > 0 ==> ({ let (x, y) = (bl.last(), bl1[bl.len() - 1]); y.sections == x.sections && y.start == x.start && y.eof == x.eof && y.end is Some && y.end->0 == bol(b, s) }),
    ensures blocks_ok(bl1, n, g, b, v.push(s))
{
    hide(bol); hide(eol); hide(nl);
    let k = v.len() as int;
    let w = v.push(s);
    let o = off(g, n);
    assert(w[k] == s);
    if o == 1 {
        assert(bl.len() == 1 + k);
        if k == 0 { assert(nxt(b, w, 0) == Some(bol(b, s))); assert(bl.last() == bl[0]); } else { assert(w[0] == v[0]); assert(nxt(b, w, 0) == nxt(b, v, 0)); assert(bl1[0] == bl[0]); }
        assert(blk(bl1[0], b.len() as int, 0, g, 0, nxt(b, w, 0)));
    }
    assert forall|j: int| 0 <= j < w.len() implies blk(#[trigger] bl1[o + j], b.len() as int, g + j, g + j + 1, eol(b, w[j]), nxt(b, w, j + 1)) by {
        if j < k {
            assert(w[j] == v[j]); let x = bl[o + j];
            assert(blk(x, b.len() as int, g + j, g + j + 1, eol(b, v[j]), nxt(b, v, j + 1)));
            if j + 1 < k { assert(w[j + 1] == v[j + 1]); assert(bl1[o + j] == bl[o + j]); } else { assert(x == bl.last()); }
        } else { assert(bl1[o + j] == bl1.last()); }
    }
}
pub proof fn disc_found(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, i: int, bl: Seq<BlockInfo>, nls: Option<usize>, s: int, e: int, bl1: Seq<BlockInfo>, nls1: Option<usize>)
    requires disc(ss, g, b, i, bl, 0, nls), secs_wf(ss, g), g <= i < ss.len(), nls is Some, pm(ss[i]->Block_label, b, nls->0 as int, b.len() as int) == Some((s, e)),
        bl1.len() == bl.len() + 1, blk(bl1.last(), b.len() as int, i, i + 1, eol(b, s), None),
        forall|j: int| 0 <= j < bl.len() - 1 ==> #[trigger] bl1[j] == bl[j],
        bl.len() > 0 ==> ({ let (x, y) = (bl.last(), bl1[bl.len() - 1]); y.sections == x.sections && y.start == x.start && y.eof == x.eof && y.end is Some && y.end->0 == bol(b, s) }),
        match nls1 { Some(x) => x == eol(b, s) + 1 && x <= b.len(), None => eol(b, s) == b.len() },
    ensures disc(ss, g, b, i + 1, bl1, 0, nls1)
{
    hide(bol); hide(nl); hide(pm); hide(blocks_ok); hide(blk);
    let k = i - g;
    let v = labels(ss, g, b, k)->0;
    let w = v.push(s);
    labels_in(ss, g, b, k);
    assert(v.len() == k);
    blocks_push(ss.len() as int, g, b, v, bl, s, bl1);
    assert(ss[g + (k + 1) - 1] == ss[i]);
    assert(labels(ss, g, b, k + 1) == Some(w));
    assert(w[k] == s);
    assert(nls1 is None ==> eol(b, w[k]) == b.len());
}
pub proof fn disc_lost(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, i: int, bl: Seq<BlockInfo>, nerr: int, nls: Option<usize>, bl1: Seq<BlockInfo>)
    requires disc(ss, g, b, i, bl, nerr, nls), nerr >= 0, secs_wf(ss, g), g <= i < ss.len(), nls is None || pm(ss[i]->Block_label, b, nls->0 as int, b.len() as int) is None
    ensures disc(ss, g, b, i + 1, bl1, nerr + 1, nls)
{ let k = i - g; assert(ss[g + (k + 1) - 1] == ss[i]); labels_in(ss, g, b, k); }
pub proof fn disc_more(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, i: int, bl: Seq<BlockInfo>, nerr: int, nls: Option<usize>, bl1: Seq<BlockInfo>, nls1: Option<usize>)
    requires disc(ss, g, b, i, bl, nerr, nls), nerr > 0, g <= i < ss.len(), match nls1 { Some(x) => x <= b.len(), None => true }
    ensures disc(ss, g, b, i + 1, bl1, nerr, nls1)
{ }
pub fn rt_filter<T>(o: Option<T>, c: bool) -> (r: Option<T>) ensures r == (if c { o } else { None }) { if c { o } else { None } }
//@@ fn filecheck/src/check/mod.rs :: discover_blocks
//@@ sig `pub fn discover_blocks<'input>(program: &CheckProgram<'_>, context: &mut Ctx<'input>, Ghost(g): Ghost<int>) -> (r: Result<Vec<BlockInfo>, TestFailed>)`
//@@ pre `SmallVec::<[BlockInfo; 2]>::default()` => `Vec::<BlockInfo>::new()`
//@@ pre `matches!(program.sections.first(), Some(CheckSection::Block { .. }))` => `(match rt_first(&program.sections) { Some(CheckSection::Block { .. }) => true, _ => false })`
//@@ pre `program.sections.iter().take_while(|s| !matches!(s, CheckSection::Block { .. })).count()` => `rt_leading(&program.sections, Ghost(g))`
//@@ pre `Range::new` => `Range::<usize>::new`
//@@ pre `if context.config.remarks_enabled() && let Ok(loc) = $x { eprintln!($X); }` => ``
//@@ pre `for (i, section) in program.sections.iter().enumerate() { $X } context` => `let mut rt_i = 0; while rt_i < program.sections.len() { let i = rt_i; let section = &program.sections[rt_i]; rt_i += 1; $X } context`
//@@ pre `(next_label_start.unwrap_or(eof)..)` => `(rt_from(next_label_start.unwrap_or(eof)))`
//@@ pre `result.info.filter(|_| $c)` => `rt_filter(result.info, $c)`
//@@ pre `(eol < eof).then(|| $c)` => `if eol < eof { Some($c) } else { None }`
//@@ pre `info.into_static()` => `rt_static(info)`
//@@ pre `if let Some(prev_block) = blocks[..block_id].iter_mut().rev().find(|bi| bi.start.is_some()) { $X }` => `if let Some(rt_j) = rt_last_started(&blocks, block_id) { let prev_block = &mut blocks[rt_j]; $X }`
//@@ pre `CheckFailedError::match_none($X)` => `rt_err()`
//@@ pre `CheckFailedError::MatchNoneForInvalidPattern { $X }` => `rt_err()`
//@@ pre `TestFailed::new(errors, context)` => `TestFailed::rt_new(errors)`
//@@ spec
    requires old(context).fresh(old(context).b()), secs_wf(program.sections@, g),
    ensures final(context).fresh(old(context).b()),
        match r {
            Ok(bl) => labels(program.sections@, g, old(context).b(), program.sections@.len() - g) is Some && blocks_ok(bl@, program.sections@.len() as int, g, old(context).b(), labels(program.sections@, g, old(context).b(), program.sections@.len() - g)->0),
            Err(t) => labels(program.sections@, g, old(context).b(), program.sections@.len() - g) is None && t.errors@.len() > 0,
        },
//@@ at entry
    let ghost b = context.b();
    let ghost ss = program.sections@;
    proof { assert(labels(ss, g, b, 0) == Some(Seq::<int>::empty())); assert(context.cursor.at(context.cursor, 0, b.len() as int)); }
//@@ loop 0
    invariant rt_i <= ss.len(), ss == program.sections@, b == old(context).b(), old(context).fresh(b), secs_wf(ss, g), eof == b.len(),
        context.cursor.same_text(old(context).cursor), context.cursor.wf(), context.end() == b.len(),
        disc(ss, g, b, rt_i as int, blocks@, errors@.len() as int, next_label_start),
    decreases ss.len() - rt_i,
//@@ at loop 0 start
    let ghost (bl0, ne0, nls0, i0) = (blocks@, errors@.len() as int, next_label_start, rt_i as int);
    proof { if rt_i < g { assert(ss[rt_i as int] is Group); } else { assert(ss[rt_i as int] is Block); } }
//@@ at loop 0 end
    proof {
        if i0 >= g {
            if ne0 == 0 && bl0.len() > 0 { last_started(bl0, ss.len() as int, g, b, labels(ss, g, b, i0 - g)->0); }
            let p = pm(ss[i0]->Block_label, b, nls0->0 as int, b.len() as int);
            if nls0 is Some && p is Some {
                if ne0 == 0 { disc_found(ss, g, b, i0, bl0, nls0, (p->0).0, (p->0).1, blocks@, next_label_start); } else { disc_more(ss, g, b, i0, bl0, ne0, nls0, blocks@, next_label_start); }
            } else { disc_lost(ss, g, b, i0, bl0, ne0, nls0, blocks@); }
        }
    }
//@@ at before `cursor.set_start(eol)`
    proof { bol_props(b, match_start as int); bol_is(b, match_start as int, if prev_block_end == 0 && !is_last_nl(b, false, 0, match_start as int, 0) { None } else { Some(prev_block_end) }); nl_props(b, false, match_start as int, b.len() as int); }
//@@ end
/// the region of the `q`-th block holds what its sections ask for
pub open spec fn bsat(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, v: Seq<int>, q: int) -> bool {
    let o = off(g, ss.len() as int);
    if q < o { gsq(grps(ss.take(g)), b, 0, 0, reg_end(b, v, 0)) is Some } else { gsq(ss[g + (q - o)]->Block_body@, b, 0, eol(b, v[q - o]), reg_end(b, v, q - o + 1)) is Some }
}
pub open spec fn sat(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, v: Seq<int>, p: int) -> bool { forall|q: int| 0 <= q < p ==> #[trigger] bsat(ss, g, b, v, q) }
pub proof fn sat_step(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, v: Seq<int>, q: int)
    requires q >= 0
    ensures sat(ss, g, b, v, q + 1) <==> sat(ss, g, b, v, q) && bsat(ss, g, b, v, q)
{ }
pub proof fn none_sat(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, v: Seq<int>, bl: Seq<BlockInfo>)
    requires blocks_ok(bl, ss.len() as int, g, b, v)
    ensures sat(ss, g, b, v, 0), bl.len() == off(g, ss.len() as int) + v.len()
{ }
pub proof fn sat_all(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, v: Seq<int>)
    requires 0 <= g <= ss.len(), labels(ss, g, b, ss.len() - g) == Some(v), v.len() == ss.len() - g
    ensures psem(ss, g, b) <==> sat(ss, g, b, v, off(g, ss.len() as int) + v.len())
{
    let o = off(g, ss.len() as int);
    if sat(ss, g, b, v, o + v.len()) {
        if o == 1 { assert(bsat(ss, g, b, v, 0)); } else { assert(gsq(grps(ss.take(g)), b, 0, 0, reg_end(b, v, 0)) is Some); }
        assert forall|j: int| 0 <= j < v.len() implies gsq((#[trigger] ss[g + j])->Block_body@, b, 0, eol(b, v[j]), reg_end(b, v, j + 1)) is Some by { assert(bsat(ss, g, b, v, o + j)); }
    }
    if psem(ss, g, b) {
        assert forall|q: int| 0 <= q < o + v.len() implies #[trigger] bsat(ss, g, b, v, q) by { if q >= o { let j = q - o; assert(gsq(ss[g + j]->Block_body@, b, 0, eol(b, v[j]), reg_end(b, v, j + 1)) is Some); } }
    }
}
/// where the `q`-th block is
pub proof fn block_at(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, v: Seq<int>, bl: Seq<BlockInfo>, q: int)
    requires secs_wf(ss, g), labels(ss, g, b, ss.len() - g) == Some(v), blocks_ok(bl, ss.len() as int, g, b, v), 0 <= q < bl.len()
    ensures v.len() == ss.len() - g, ({
        let (x, n, o) = (bl[q], b.len() as int, off(g, ss.len() as int));
        let (a, c, s, e) = if q < o { (0, g, 0, reg_end(b, v, 0)) } else { (g + (q - o), g + (q - o) + 1, eol(b, v[q - o]), reg_end(b, v, q - o + 1)) };
        &&& x.eof == n && x.sections is Some && x.sections->0.start == a && x.sections->0.end == c && x.start is Some && x.start->0 == s
        &&& (match x.end { Some(i) => i as int, None => n }) == e
        &&& 0 <= a <= c <= ss.len() && 0 <= s <= e <= n && region_end(b, s, e)
        &&& q >= o ==> c == a + 1 && a >= g
    })
{
    hide(bol); hide(nl); hide(pm); hide(labels); hide(gsq); hide(gs_wf);
    let o = off(g, ss.len() as int);
    labels_in(ss, g, b, ss.len() - g);
    if q < o {
        if v.len() > 0 { bol_props(b, v[0]); }
    } else {
        let j = q - o;
        assert(blk(bl[o + j], b.len() as int, g + j, g + j + 1, eol(b, v[j]), nxt(b, v, j + 1)));
        nl_props(b, false, v[j], b.len() as int);
        if j + 1 < v.len() { assert(eol(b, v[j]) <= bol(b, v[j + 1])); bol_props(b, v[j + 1]); }
    }
}
pub proof fn leading(ss: Seq<CheckSection<'_>>, g: int, b: Seq<u8>, lo: int, hi: int)
    requires secs_wf(ss, g)
    ensures ss.subrange(0, g) == ss.take(g), g == 1 ==> seq![ss[0]] == ss.take(g), g == 0 ==> gsq(grps(ss.take(g)), b, 0, lo, hi) is Some,
        gs_wf(grps(ss.take(g))), forall|i: int| 0 <= i < g ==> (#[trigger] ss.take(g)[i]) is Group, ss.take(g).len() == g, g > 0 ==> ss[0] is Group
{
    assert(ss.subrange(0, g) =~= ss.take(g));
    if g == 1 { assert(seq![ss[0]] =~= ss.take(g)); }
    assert forall|i: int| 0 <= i < g implies (#[trigger] ss.take(g)[i]) is Group && gwf(grp(ss[i])) by { assert(ss.take(g)[i] == ss[i]); }
    assert forall|i: int| 0 <= i < g implies gwf(#[trigger] grps(ss.take(g))[i]) by { assert(ss.take(g)[i] == ss[i]); }
}
#[verifier::external_body]
pub fn rt_from_ref<T>(x: &T) -> (r: &[T]) ensures r@ == seq![*x] { core::slice::from_ref(x) }
//@@ fn filecheck/src/check/mod.rs :: check_blocks
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn check_blocks<'input>(blocks: Vec<BlockInfo>, program: &CheckProgram<'_>, context: &mut Ctx<'input>, Ghost(g): Ghost<int>, Ghost(v): Ghost<Seq<int>>) -> (r: TestResult)`
//@@ pre `TestResult::new(context)` => `TestResult::rt_new()`
//@@ pre `for mut block in blocks.into_iter() { $X } test_result` => `let mut blocks = blocks; while blocks.len() > 0 { let mut block = blocks.remove(0); $X } test_result`
//@@ pre `unsafe { block.sections.unwrap_unchecked() }` => `block.sections.unwrap()`
//@@ pre `&program.sections[$a..$b]` => `slice_subrange(program.sections.as_slice(), $a, $b)`
//@@ pre `core::slice::from_ref(section)` => `rt_from_ref(section)`
//@@ spec
    requires old(context).fresh(old(context).b()), secs_wf(program.sections@, g), labels(program.sections@, g, old(context).b(), program.sections@.len() - g) == Some(v),
        blocks_ok(blocks@, program.sections@.len() as int, g, old(context).b(), v),
    ensures r.n() == 0 <==> psem(program.sections@, g, old(context).b()),
//@@ at entry
    hide(nl); hide(bol); hide(labels); hide(gsq); hide(pm); hide(blk); hide(blocks_ok); hide(sat);
    let ghost (b, ss, all, n) = (context.b(), program.sections@, blocks@, program.sections@.len() as int);
    proof { labels_in(ss, g, b, n - g); sat_all(ss, g, b, v); assert(all.skip(0) == all); none_sat(ss, g, b, v, all); }
//@@ loop 0
    invariant ss == program.sections@, n == ss.len(), b == old(context).b(), old(context).fresh(b), secs_wf(ss, g), labels(ss, g, b, n - g) == Some(v), blocks_ok(all, n, g, b, v),
        v.len() == n - g, blocks@.len() <= all.len(), blocks@ == all.skip(all.len() - blocks@.len()),
        context.cursor.same_text(old(context).cursor), context.cursor.wf(),
        test_result.n() == 0 <==> sat(ss, g, b, v, all.len() - blocks@.len()),
    ensures blocks@.len() == 0,
    decreases blocks@.len(),
//@@ at loop 0 start
    let ghost q = all.len() - blocks@.len();
    proof {
        block_at(ss, g, b, v, all, q); leading(ss, g, b, 0, reg_end(b, v, 0));
        sat_step(ss, g, b, v, q);
        if q >= off(g, n) { assert(ss[g + (q - off(g, n))] is Block); }
    }
//@@ at before `if section_range.is_empty()`
    proof { if section_range.start < section_range.end { assert(inr(section_range, section_range.start as int)); } }
//@@ end
//@@ fn filecheck/src/check/mod.rs :: impl Checker :: check_input
//@@ sig `pub fn check_input<'input>(allow_empty: bool, program: &CheckProgram<'_>, buffer: &'input [u8], source_id: SourceId, Ghost(g): Ghost<int>) -> (r: TestResult)`
//@@ pre! `let buffer = source.as_bytes();` => ``
//@@ pre! `MatchContext::new($X)` => `Ctx::rt_new(source_id, buffer)`
//@@ pre! `self.config.options.allow_empty` => `allow_empty`
//@@ pre `buffer.is_empty()` => `buffer.len() == 0`
//@@ pre `TestFailed::new(vec![CheckFailedError::EmptyInput], &context,)` => `TestFailed::rt_new(rt_one_err())`
//@@ pre `discover_blocks(&self.program, &mut context)` => `discover_blocks(program, &mut context, Ghost(g))`
//@@ pre `check_blocks(blocks, &self.program, &mut context)` => `check_blocks(blocks, program, &mut context, Ghost(g), Ghost(labels(program.sections@, g, buffer@, program.sections@.len() - g)->0))`
//@@ pre `result.attach_input_dump(&context);` => ``
//@@ spec
    requires buffer@.len() <= u32::MAX, lf_text(buffer@), secs_wf(program.sections@, g),
    ensures r.n() == 0 <==> (allow_empty || buffer@.len() > 0) && psem(program.sections@, g, buffer@),
//@@ end
}
fn main() {}
