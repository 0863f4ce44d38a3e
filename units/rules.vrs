//@@ include cursor.vrs
// patterns, match results and the rules that apply a pattern at the cursor
verus! {
// ---------------------------------------------------------------- diagnostics are not modelled
#[verifier::external_body]
pub struct Report { _p: () }
#[verifier::external_body]
pub struct CheckFailedError { _p: () }
#[verifier::external_body]
pub struct CaptureInfo<'a> { _p: &'a () }
#[verifier::external_body]
pub fn rt_err() -> CheckFailedError { unimplemented!() }
#[verifier::external_body]
pub fn rt_match_none(input: &Input<'_>) -> CheckFailedError { unimplemented!() }
impl CheckFailedError {
    #[verifier::external_body]
    pub fn with_note(self, note: &str) -> CheckFailedError { unimplemented!() }
}
pub type DiagResult<T> = Result<T, Report>;

// ---------------------------------------------------------------- match results
//@@ item filecheck/src/pattern/matcher/result.rs :: enum MatchType
//@@ end
//@@ item filecheck/src/pattern/matcher/result.rs :: struct MatchInfo
//@@ end
//@@ item filecheck/src/pattern/matcher/result.rs :: struct MatchResult
//@@ end
impl MatchType {
    pub open spec fn ok(self) -> bool { self is MatchFoundAndExpected || self is MatchNoneAndExcluded }
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchType#0 :: is_ok
//@@ ret r
//@@ pre `matches!(self, Self::MatchFoundAndExpected | Self::MatchNoneAndExcluded)` => `match self { Self::MatchFoundAndExpected | Self::MatchNoneAndExcluded => true, _ => false }`
//@@ spec
    ensures r == self.ok(),
//@@ end
}
impl<'input> MatchInfo<'input> {
    pub open spec fn s(self) -> int { self.span.s() }
    pub open spec fn e(self) -> int { self.span.e() }
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchInfo#0 :: new
//@@ ret r
//@@ spec
    ensures r.span == span, r.pattern_span == pattern_span, r.pattern_id == 0,
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchInfo#0 :: new_with_pattern
//@@ ret r
//@@ spec
    ensures r.span == span, r.pattern_span == pattern_span, r.pattern_id == pattern_id,
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchInfo#0 :: with_pattern
//@@ ret r
//@@ spec
    ensures r.span == self.span, r.pattern_span == self.pattern_span, r.pattern_id == pattern_id,
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchInfo#0 :: matched_range
//@@ ret r
//@@ spec
    requires self.s() <= self.e(),
    ensures r.start == self.s(), r.end == self.e(),
//@@ end
}
impl<'input> MatchResult<'input> {
    pub open spec fn ok_s(self) -> bool { self.ty.ok() }
    /// a successful match of `[s, e)`
    pub open spec fn found(self, s: int, e: int) -> bool { self.ty.ok() && self.info is Some && self.info->0.s() == s && self.info->0.e() == e && s <= e }
    pub open spec fn hit(self) -> bool { self.ty.ok() && self.info is Some && self.info->0.s() <= self.info->0.e() }
    /// a failure; what it says about a match that was found is within the text
    pub open spec fn rt_bad(self, n: int) -> bool { !self.ty.ok() && (self.info is Some ==> self.info->0.s() <= self.info->0.e() <= n) }
    pub open spec fn rng(self) -> (int, int) { (self.info->0.s(), self.info->0.e()) }
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult#0 :: new
//@@ ret r
//@@ spec
    ensures r.ty == ty, r.info == info,
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult#0 :: ok
//@@ ret r
//@@ spec
    ensures r.ty is MatchFoundAndExpected, r.info == Some(info),
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult#0 :: failed
//@@ ret r
//@@ spec
    ensures r.ty is Failed, r.info is None,
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult#0 :: is_ok
//@@ ret r
//@@ spec
    ensures r == self.ok_s(),
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult#0 :: matched_range
//@@ ret r
//@@ pre `self.info.as_ref().map(|info| $x)` => `match &self.info { Some(info) => Some($x), None => None }`
//@@ spec
    requires self.info is Some ==> self.info->0.s() <= self.info->0.e(),
    ensures match r { Some(x) => self.info is Some && x.start == self.info->0.s() && x.end == self.info->0.e(), None => self.info is None },
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult#0 :: unwrap_err
//@@ ret r
//@@ spec
    requires !self.ok_s(),
//@@ end
}
//@@ item filecheck/src/pattern/matches.rs :: struct Matches
//@@ sub `SmallVec<[MatchResult<'input>; 1]>` => `Vec<MatchResult<'input>>`
//@@ end
pub fn rt_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x], r@.len() == 1, r@[0] == x { let mut v = Vec::new(); v.push(x); assert(v@ =~= seq![x]); v }
impl<'input> Matches<'input> {
    pub open spec fn s(self) -> Seq<MatchResult<'input>> { self.0@ }
    pub open spec fn ok_s(self) -> bool { forall|i: int| 0 <= i < self.s().len() ==> (#[trigger] self.s()[i]).ok_s() }
    /// one successful match of `[s, e)`
    pub open spec fn one(self, s: int, e: int) -> bool { self.s().len() == 1 && self.s()[0].found(s, e) }
//@@ fn filecheck/src/pattern/matches.rs :: impl From for Matches#0 :: from
//@@ name rt_from_result
//@@ ret r
//@@ sub? `smallvec![result]` => `rt_vec1(result)`
//@@ spec
    ensures r.s() == seq![result],
//@@ end
//@@ fn filecheck/src/pattern/matches.rs :: impl Matches#0 :: into_results
//@@ sig `pub fn into_results(self) -> (r: Vec<MatchResult<'input>>)`
//@@ spec
    ensures r@ == self.s(),
//@@ end
}
impl<'input> MatchResult<'input> {
    pub fn rt_into(self) -> (r: Matches<'input>) ensures r.s() == seq![self] { Matches::rt_from_result(self) }
}

// ---------------------------------------------------------------- patterns
/// A compiled pattern without variables. What it matches in a region of the text is a function of
/// the two: the leftmost match in the region.
#[verifier::external_body]
pub struct Pattern<'a> { _p: &'a () }
pub uninterp spec fn pm_raw(p: Pattern<'_>, b: Seq<u8>, lo: int, hi: int) -> Option<(int, int)>;
pub open spec fn pm(p: Pattern<'_>, b: Seq<u8>, lo: int, hi: int) -> Option<(int, int)> {
    if lo <= hi { match pm_raw(p, b, lo, hi) { Some((s, e)) => if lo <= s <= e <= hi { Some((s, e)) } else { None }, None => None } } else { None }
}
/// a match that was found further to the right is the leftmost one from there, too
#[verifier::external_body]
pub broadcast proof fn pm_leftmost(p: Pattern<'_>, b: Seq<u8>, lo: int, hi: int, lo2: int)
    requires (#[trigger] pm(p, b, lo, hi)) is Some, lo <= lo2 <= (pm(p, b, lo, hi)->0).0
    ensures #[trigger] pm(p, b, lo2, hi) == pm(p, b, lo, hi)
{ }
impl<'a> Pattern<'a> {
    #[verifier::external_body]
    pub fn span(&self) -> (r: SourceSpan) { unimplemented!() }
    #[verifier::external_body] // the contract of the matchers
    pub fn try_match_mut<'input>(&self, input: Input<'input>, context: &mut Ctx<'input>) -> (r: DiagResult<MatchResult<'input>>)
        requires input.wf(),
        ensures *final(context) == *old(context),
            r is Ok,
            match pm(*self, input.b(), input.lo(), input.hi()) {
                Some((s, e)) => r->Ok_0.ty is MatchFoundAndExpected && r->Ok_0.found(s, e),
                None => r->Ok_0.ty is Failed && r->Ok_0.rt_bad(input.b().len() as int),
            }
    { unimplemented!() }
    #[verifier::external_body] // the contract of the label matchers: a failure has no position
    pub fn try_match<'input>(&self, input: Input<'input>, context: &Ctx<'input>) -> (r: DiagResult<MatchResult<'input>>)
        requires input.wf(),
        ensures r is Ok,
            match pm(*self, input.b(), input.lo(), input.hi()) {
                Some((s, e)) => r->Ok_0.found(s, e),
                None => !r->Ok_0.ty.ok() && r->Ok_0.info is None,
            }
    { unimplemented!() }
}

// ---------------------------------------------------------------- context
/// What the rules use of a `MatchContext`: its cursor. There are no variables.
pub struct Ctx<'input> { pub cursor: Cursor<'input> }
impl<'input> Ctx<'input> {
    pub open spec fn b(self) -> Seq<u8> { self.cursor.b() }
    pub open spec fn pos(self) -> int { self.cursor.lo() }
    pub open spec fn end(self) -> int { self.cursor.hi() }
    /// The cursor is in a region that ends with a line
    pub open spec fn wf(self) -> bool { self.cursor.wf() && !self.cursor.crlf && region_end(self.b(), self.pos(), self.end()) }
    pub open spec fn at(self, o: Self, pos: int) -> bool { self.cursor.at(o.cursor, pos, o.end()) }
    #[verifier::external_body]
    pub fn rt_input_file(&self) -> u32 { unimplemented!() }
    /// a copy of what the guard works on (see CursorGuard below)
    pub fn protect(&self) -> (r: Ctx<'input>) ensures r == *self { Ctx { cursor: self.cursor.clone() } }
//@@ fn filecheck/src/context.rs :: impl Context for MatchContext :: cursor
//@@ ret r
//@@ spec
    ensures *r == self.cursor,
//@@ end
//@@ fn filecheck/src/context.rs :: impl Context for MatchContext :: cursor_mut
//@@ ret r
//@@ spec
    ensures *r == old(self).cursor, final(self).cursor == *final(r),
//@@ end
//@@ fn filecheck/src/context.rs :: trait Context :: search_block
//@@ ret r
//@@ spec
    requires self.cursor.wf(),
    ensures r.wf(), r.buffer == self.cursor.buffer, r.source_id == self.cursor.source_id, r.crlf == self.cursor.crlf, r.lo() == self.pos(), r.hi() == self.end(),
//@@ end
//@@ fn filecheck/src/context.rs :: trait Context :: search_line
//@@ ret r
//@@ spec
    requires self.cursor.wf(),
    ensures r.wf(), r.buffer == self.cursor.buffer, r.source_id == self.cursor.source_id, r.crlf == self.cursor.crlf, r.lo() == self.pos(), r.hi() == nl(self.b(), self.cursor.crlf, self.pos(), self.end()),
//@@ end
//@@ fn filecheck/src/context.rs :: trait ContextExt :: search_range
//@@ ret r
//@@ sub? `RangeBounds<usize>` => `RangeBounds`
//@@ spec
    requires self.cursor.wf(), b_ok(range.lo(), range.hi()),
        0 <= b_lo(range.lo(), 0) <= b_hi(range.hi(), self.b().len() as int) <= self.b().len(),
    ensures r.wf(), r.buffer == self.cursor.buffer, r.source_id == self.cursor.source_id, r.crlf == self.cursor.crlf,
        r.lo() == b_lo(range.lo(), 0), r.hi() == b_hi(range.hi(), self.b().len() as int),
//@@ end
//@@ fn filecheck/src/context.rs :: trait Context :: move_to
//@@ spec
    requires pos.range.start <= pos.range.end <= old(self).b().len() <= u32::MAX, pos.eol == nl(old(self).b(), old(self).cursor.crlf, pos.range.start as int, pos.range.end as int),
    ensures final(self).cursor.at(old(self).cursor, pos.range.start as int, pos.range.end as int),
//@@ end
}
/// A region ends where a line ends, or is empty
pub open spec fn region_end(b: Seq<u8>, lo: int, hi: int) -> bool { hi == b.len() || lo >= hi || lf_at(b, hi) }

// ---------------------------------------------------------------- the rules
/// What a directive asks for
pub enum R<'a> { Plain(Pattern<'a>), Same(Pattern<'a>), Next(Pattern<'a>), Empty }
/// The match of a directive after `pos`, in a region that ends at `end`
pub open spec fn rsem(r: R<'_>, b: Seq<u8>, pos: int, end: int) -> Option<(int, int)> {
    match r {
        R::Plain(p) => pm(p, b, pos, end),
        R::Same(p) => pm(p, b, pos, nl(b, false, pos, end)),
        R::Next(p) => { let i = nl(b, false, pos, end); if i < end { pm(p, b, i + 1, nl(b, false, i + 1, end)) } else { None } },
        R::Empty => if pos < b.len() && lf_at(b, pos) && pos + 1 <= end && (pos + 1 == b.len() || lf_at(b, pos + 1)) { Some((pos + 1, pos + 1)) } else { None },
    }
}
pub proof fn rsem_in(r: R<'_>, b: Seq<u8>, pos: int, end: int)
    requires 0 <= pos <= end <= b.len()
    ensures match rsem(r, b, pos, end) { Some((s, e)) => pos <= s <= e <= end, None => true }
{
    nl_props(b, false, pos, end);
    let i = nl(b, false, pos, end);
    if i < end { nl_props(b, false, i + 1, end); }
}
/// the result of applying a directive: either its match and the cursor behind it, or a failure and the cursor as it was
pub open spec fn applied(r: R<'_>, o: Ctx<'_>, f: Ctx<'_>, res: DiagResult<Matches<'_>>) -> bool {
    match rsem(r, o.b(), o.pos(), o.end()) {
        Some((s, e)) => res is Ok && res->Ok_0.one(s, e) && f.at(o, e),
        None => f.at(o, o.pos()) && res is Ok && res->Ok_0.s().len() == 1 && res->Ok_0.s()[0].rt_bad(o.b().len() as int),
    }
}
//@@ item filecheck/src/rules/plain.rs :: struct CheckPlain
//@@ end
//@@ item filecheck/src/rules/same.rs :: struct CheckSame
//@@ end
//@@ item filecheck/src/rules/next.rs :: struct CheckNext
//@@ end
//@@ item filecheck/src/rules/empty.rs :: struct CheckEmpty
//@@ end
impl<'a> CheckPlain<Pattern<'a>> {
//@@ fn filecheck/src/rules/plain.rs :: impl CheckPlain#0 :: new
//@@ sig `pub fn new(pattern: Pattern<'a>) -> (r: Self)`
//@@ spec
    ensures r.pattern == pattern,
//@@ end
//@@ fn filecheck/src/rules/plain.rs :: impl Rule for CheckPlain :: apply
//@@ sig `pub fn apply<'input>(&self, context: &mut Ctx<'input>) -> (r: DiagResult<Matches<'input>>)`
//@@ pre `.into()` => `.rt_into()`
//@@ pre `} if ty.is_ok() => { $X } _ => (),` => `} => { if ty.is_ok() { $X } } _ => (),`
//@@ spec
    requires old(context).wf(),
    ensures applied(R::Plain(self.pattern), *old(context), *final(context), r),
//@@ end
}
impl<'a> CheckSame<Pattern<'a>> {
//@@ fn filecheck/src/rules/same.rs :: impl CheckSame#0 :: new
//@@ sig `pub fn new(pattern: Pattern<'a>) -> (r: Self)`
//@@ spec
    ensures r.pattern == pattern,
//@@ end
//@@ fn filecheck/src/rules/same.rs :: impl Rule for CheckSame :: apply
//@@ sig `pub fn apply<'input>(&self, context: &mut Ctx<'input>) -> (r: DiagResult<Matches<'input>>)`
//@@ pre `.into()` => `.rt_into()`
//@@ pre `Matches::from` => `Matches::rt_from_result`
//@@ pre `CheckFailedError::MatchFoundButWrongLine { $X }` => `rt_err()`
//@@ spec
    requires old(context).wf(),
    ensures applied(R::Same(self.pattern), *old(context), *final(context), r),
//@@ at entry
    proof { nl_props(context.b(), false, context.pos(), context.end()); }
//@@ end
}
impl<'a> CheckNext<Pattern<'a>> {
//@@ fn filecheck/src/rules/next.rs :: impl CheckNext#0 :: new
//@@ sig `pub fn new(pattern: Pattern<'a>) -> (r: Self)`
//@@ spec
    ensures r.pattern == pattern,
//@@ end
//@@ fn filecheck/src/rules/next.rs :: impl Rule for CheckNext :: apply
//@@ sig `pub fn apply<'input>(&self, context: &mut Ctx<'input>) -> (r: DiagResult<Matches<'input>>)`
//@@ pre `.into()` => `.rt_into()`
//@@ pre `Matches::from` => `Matches::rt_from_result`
//@@ pre `CheckFailedError::match_none(self.pattern.span(), $X, context,)` => `rt_match_none($X)`
//@@ pre `core::cmp::min` => `rt_min`
//@@ pre `} if ty.is_ok() => { $X } _ => (),` => `} => { if ty.is_ok() { $X } } _ => (),`
//@@ spec
    requires old(context).wf(),
    ensures applied(R::Next(self.pattern), *old(context), *final(context), r),
//@@ at entry
    proof { next_facts(context.b(), context.pos(), context.end()); }
//@@ end
}
impl CheckEmpty {
//@@ fn filecheck/src/rules/empty.rs :: impl CheckEmpty#0 :: new
//@@ sig `pub fn new(span: SourceSpan) -> (r: Self)`
//@@ spec
//@@ end
//@@ fn filecheck/src/rules/empty.rs :: impl Rule for CheckEmpty :: apply
//@@ sig `pub fn apply<'input>(&self, context: &mut Ctx<'input>) -> (r: DiagResult<Matches<'input>>)`
//@@ pre `.into()` => `.rt_into()`
//@@ pre `CheckFailedError::match_none(self.span, $X, context,)` => `rt_match_none($X)`
//@@ pre `core::cmp::min` => `rt_min`
//@@ pre `.unwrap_or_else(|| cursor.end_of_file())` => `.unwrap_or(cursor.end_of_file())`
//@@ pre `next_line.is_empty()` => `!(next_line.start < next_line.end)`
//@@ spec
    requires old(context).wf(),
    ensures applied(R::Empty, *old(context), *final(context), r),
//@@ at entry
    proof { next_facts(context.b(), context.pos(), context.end()); }
//@@ end
}
/// where the line after the one at `pos` starts and ends, seen from the text and from the region
pub proof fn next_facts(b: Seq<u8>, pos: int, end: int)
    requires 0 <= pos <= end <= b.len(), region_end(b, pos, end)
    ensures ({
        let (i, n, h) = (nl(b, false, pos, end), next_line(b, pos), b.len() as int);
        &&& pos <= i <= end && pos <= n <= h
        &&& i < end ==> n == i + 1 && lf_at(b, i) && n <= end && nl(b, false, n, h) == nl(b, false, n, end) && n <= nl(b, false, n, end) <= end
        &&& i == end && n <= end ==> n == end
        &&& n <= nl(b, false, n, h) <= h
        &&& nl(b, false, n, h) < h ==> lf_at(b, nl(b, false, n, h))
        &&& pos < h && lf_at(b, pos) ==> n == pos + 1
        &&& (nl(b, false, n, h) == n <==> (n == h || lf_at(b, n)))
    })
{
    let h = b.len() as int;
    let i = nl(b, false, pos, end);
    nl_props(b, false, pos, end);
    nl_props(b, false, pos, h);
    if i < end {
        assert forall|j: int| pos <= j < i implies !nl_at(b, false, j, h) by { assert(!nl_at(b, false, j, end)); }
        nl_is(b, false, pos, h, i);
        let n = i + 1;
        nl_props(b, false, n, end);
        let k = nl(b, false, n, end);
        assert forall|j: int| n <= j < k implies !nl_at(b, false, j, h) by { assert(!nl_at(b, false, j, end)); }
        nl_is(b, false, n, h, k);
    }
    let n = next_line(b, pos);
    nl_props(b, false, n, h);
    if n == h || lf_at(b, n) { nl_is(b, false, n, h, n); }
    if pos < h && lf_at(b, pos) { nl_is(b, false, pos, h, pos); }
    if i == end && n <= end {
        let k = nl(b, false, pos, h);
        if k < h && k < end { assert(nl_at(b, false, k, end)); }
    }
}
}
fn main() {}
