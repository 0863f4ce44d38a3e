//@@ include cursor.vrs
//@@ include expr.vrs
// the matcher of patterns with variables: what a sequence of parts matches, binds and rejects
verus! {
// ---------------------------------------------------------------- the regex crates
/// where something is searched: `b[s..e]`, from `s` on, or only at `s`
pub ghost struct In { pub b: Seq<u8>, pub s: int, pub e: int, pub anch: bool }
pub type Hit = Option<(int, int)>;
/// a hit lies in the searched region, at its start if the search is anchored
pub open spec fn within(h: Hit, i: In) -> bool { h matches Some((a, b)) ==> i.s <= a <= b <= i.e && (i.anch ==> a == i.s) }
pub uninterp spec fn utf8(b: Seq<u8>) -> T; // the text of a sequence of bytes
pub uninterp spec fn enc(s: T) -> Seq<u8>; // and back
pub ghost struct Rx { pub src: T, pub ml: bool, pub ic: bool } // source and options of a regular expression
pub uninterp spec fn rx_builds(x: Rx) -> bool;
pub uninterp spec fn rx_find(x: Rx, i: In) -> Hit; // the leftmost-first match
pub uninterp spec fn rx_group(x: Rx, i: In, g: int) -> Hit; // what a group of it captured
pub broadcast axiom fn ax_rx(x: Rx, i: In) ensures within(#[trigger] rx_find(x, i), i);
pub broadcast axiom fn ax_group(x: Rx, i: In, g: int) ensures #[trigger] rx_group(x, i, g) matches Some((a, b)) ==> i.s <= a <= b <= i.e;
/// the text itself occurs at `k`
pub open spec fn occ(w: Seq<u8>, i: In, k: int) -> bool { i.s <= k && k + w.len() <= i.e && i.e <= i.b.len() && i.b.subrange(k, k + w.len()) == w }
/// the first occurrence of a text
pub open spec fn first_occ(w: Seq<u8>, i: In, h: Hit) -> bool {
    match h {
        Some((a, b)) => occ(w, i, a) && b == a + w.len() && (i.anch ==> a == i.s) && forall|k: int| i.s <= k < a ==> !#[trigger] occ(w, i, k),
        None => forall|k: int| #[trigger] occ(w, i, k) ==> i.anch && k != i.s,
    }
}
pub uninterp spec fn text_find(w: T, ic: bool, i: In) -> Hit; // searches of a text, in any casing if `ic`
pub broadcast axiom fn ax_text(w: T, ic: bool, i: In) ensures within(#[trigger] text_find(w, ic, i), i), !ic ==> first_occ(enc(w), i, text_find(w, ic, i));
pub uninterp spec fn escaped(s: T) -> T;
/// an escaped text matches itself
pub broadcast axiom fn ax_escaped(s: T, ml: bool, ic: bool, i: In) ensures #[trigger] rx_find(Rx { src: escaped(s), ml, ic }, i) == text_find(s, ic, i);
/// a text of digits, letters and signs matches itself, except that it may not start with a plus
pub open spec fn plain(s: T) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] plain_char(s[i]) }
pub open spec fn plain_char(c: char) -> bool { dv(c) < 16 || c == 'x' || c == '-' }
pub broadcast axiom fn ax_plain(s: T, ml: bool, ic: bool, i: In) requires plain(s) ensures #[trigger] rx_find(Rx { src: s, ml, ic }, i) == text_find(s, ic, i);
pub broadcast axiom fn ax_plain_builds(s: T, ml: bool, ic: bool) requires plain(s) ensures #[trigger] rx_builds(Rx { src: s, ml, ic });
/// a number in a format: the leftmost text of the format, extended as far as it goes
pub uninterp spec fn num_find(f: F, i: In) -> Hit;
pub open spec fn num_at(f: F, i: In, a: int, b: int) -> bool { i.s <= a <= b <= i.e && in_format(utf8(i.b.subrange(a, b)), f) }
pub broadcast axiom fn ax_num(f: F, i: In) ensures within(#[trigger] num_find(f, i), i), match num_find(f, i) {
    Some((a, b)) => num_at(f, i, a, b) && (forall|c: int| b < c ==> !#[trigger] num_at(f, i, a, c)) && (forall|k: int, c: int| k < a ==> !#[trigger] num_at(f, i, k, c)),
    None => forall|k: int, c: int| #[trigger] num_at(f, i, k, c) ==> i.anch && k != i.s };
/// the expressions of the num unit match exactly that, whatever their group is called
pub open spec fn re_named(n: Option<T>, f: F) -> T { match n { Some(n) => "(?P<"@ + n + ">"@ + re_src(f) + ")"@, None => "(?:"@ + re_src(f) + ")"@ } }
pub broadcast axiom fn ax_num_src(n: Option<T>, f: F, i: In) ensures #![trigger rx_find(Rx { src: re_named(n, f), ml: false, ic: false }, i)] rx_find(Rx { src: re_named(n, f), ml: false, ic: false }, i) == num_find(f, i);

use core::ops::ControlFlow;
pub mod regex_automata {
    use super::*;
    pub mod util { pub mod syntax { use super::super::super::*;
        pub struct Config { pub ml: bool, pub ic: bool } // unicode mode, greedy
        impl Config {
            pub fn new() -> (r: Self) ensures !r.ml, !r.ic { Config { ml: false, ic: false } }
            pub fn multi_line(self, y: bool) -> (r: Self) ensures r == (Config { ml: y, ..self }) { Config { ml: y, ..self } }
            pub fn case_insensitive(self, y: bool) -> (r: Self) ensures r == (Config { ic: y, ..self }) { Config { ic: y, ..self } }
        }
    } }
    pub mod meta { use super::super::*;
        pub struct Config { pub x: () }
        impl Config { pub fn new() -> Self { Config { x: () } } pub fn match_kind(self, k: super::MatchKind) -> Self requires k is LeftmostFirst { self } }
    }
    pub enum MatchKind { LeftmostFirst, All }
    pub enum Anchored { Yes, No }
    #[verifier::external_body]
    pub struct Input<'h> { h: &'h [u8] }
    impl<'h> Input<'h> {
        pub uninterp spec fn i(&self) -> In;
        #[verifier::external_body]
        pub fn new(h: &'h [u8]) -> (r: Self) ensures r.i() == (In { b: h@, s: 0, e: h@.len() as int, anch: false }) { unimplemented!() }
        #[verifier::external_body]
        pub fn anchored(self, m: Anchored) -> (r: Self) ensures r.i() == (In { anch: m is Yes, ..self.i() }) { unimplemented!() }
        #[verifier::external_body]
        pub fn range(self, x: Range<usize>) -> (r: Self) requires x.start <= x.end + 1, x.end <= self.i().b.len() ensures r.i() == (In { s: x.start as int, e: x.end as int, ..self.i() }) { unimplemented!() }
        #[verifier::external_body] // pattern::search::Input::source_id, only used for diagnostics
        pub fn source_id(&self) -> SourceId { unimplemented!() }
    }
    #[verifier::external_body]
    #[derive(Copy, Clone)]
    pub struct Match { x: usize }
    impl Match {
        pub uninterp spec fn h(&self) -> (int, int);
        #[verifier::external_body]
        pub fn start(&self) -> (r: usize) ensures r == self.h().0 { unimplemented!() }
        #[verifier::external_body]
        pub fn end(&self) -> (r: usize) ensures r == self.h().1 { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self.h().1 - self.h().0 { unimplemented!() }
        #[verifier::external_body]
        pub fn range(&self) -> (r: core::ops::Range<usize>) ensures r.start == self.h().0, r.end == self.h().1 { unimplemented!() }
    }
    #[derive(Copy, Clone)]
    pub struct Group { pub start: usize, pub end: usize } // regex_automata::Span
    impl Group {
        pub fn range(&self) -> (r: core::ops::Range<usize>) ensures r.start == self.start, r.end == self.end { core::ops::Range { start: self.start, end: self.end } }
    }
}
pub mod aho_corasick {
    use super::*;
    pub enum Anchored { Yes, No }
    #[verifier::external_body]
    pub struct Input<'h> { h: &'h [u8] }
    impl<'h> Input<'h> {
        pub uninterp spec fn i(&self) -> In;
        #[verifier::external_body]
        pub fn new(h: &'h [u8]) -> (r: Self) ensures r.i() == (In { b: h@, s: 0, e: h@.len() as int, anch: false }) { unimplemented!() }
        #[verifier::external_body]
        pub fn anchored(self, m: Anchored) -> (r: Self) ensures r.i() == (In { anch: m is Yes, ..self.i() }) { unimplemented!() }
        #[verifier::external_body]
        pub fn range(self, x: Range<usize>) -> (r: Self) requires x.start <= x.end + 1, x.end <= self.i().b.len() ensures r.i() == (In { s: x.start as int, e: x.end as int, ..self.i() }) { unimplemented!() }
    }
}
#[derive(Copy, Clone)]
pub enum StartKind { Both, Unanchored, Anchored }
#[verifier::external_body] // aho_corasick::AhoCorasick of one text, leftmost-longest
pub struct AhoCorasick { x: u8 }
impl AhoCorasick {
    pub uninterp spec fn w(&self) -> T;
    pub uninterp spec fn ic(&self) -> bool;
    pub uninterp spec fn kind(&self) -> StartKind;
    pub open spec fn can(&self, i: In) -> bool { if i.anch { !(self.kind() is Unanchored) } else { !(self.kind() is Anchored) } }
    #[verifier::external_body] // panics when the automaton does not support the kind of search
    pub fn find(&self, i: aho_corasick::Input) -> (r: Option<regex_automata::Match>) requires self.can(i.i()) ensures match r { Some(m) => text_find(self.w(), self.ic(), i.i()) == Some(m.h()), None => text_find(self.w(), self.ic(), i.i()) is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct Regex { x: u8 }
impl Regex {
    pub uninterp spec fn x(&self) -> Rx;
    #[verifier::external_body]
    pub fn rt_find(&self, i: regex_automata::Input) -> (r: Option<regex_automata::Match>) ensures match r { Some(m) => rx_find(self.x(), i.i()) == Some(m.h()), None => rx_find(self.x(), i.i()) is None } { unimplemented!() }
    #[verifier::external_body] // Regex::new
    pub fn rt_new(s: &Cow<'_, str>) -> (r: Self) ensures r.x() == (Rx { src: s.t(), ml: false, ic: false }) { unimplemented!() }
    pub fn builder() -> (r: RegexBuilder) ensures !r.ml, !r.ic { RegexBuilder { ml: false, ic: false } }
    #[verifier::external_body]
    pub fn create_captures(&self) -> Captures { unimplemented!() }
    #[verifier::external_body]
    pub fn search_captures(&self, i: &regex_automata::Input, c: &mut Captures) ensures final(c).hit() == rx_find(self.x(), i.i()), forall|g: int| #[trigger] final(c).grp(g) == (if rx_find(self.x(), i.i()) is Some { rx_group(self.x(), i.i(), g) } else { None }) { unimplemented!() }
}
pub struct RegexBuilder { pub ml: bool, pub ic: bool } // the options that are set below
impl RegexBuilder {
    pub fn syntax(self, c: regex_automata::util::syntax::Config) -> (r: Self) ensures r.ml == c.ml, r.ic == c.ic { RegexBuilder { ml: c.ml, ic: c.ic } }
    pub fn configure(self, c: regex_automata::meta::Config) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn build(self, s: &Cow<'_, str>) -> (r: Result<Regex, Report>) ensures match r { Ok(x) => x.x() == (Rx { src: s.t(), ml: self.ml, ic: self.ic }) && rx_builds(x.x()), Err(_) => !rx_builds(Rx { src: s.t(), ml: self.ml, ic: self.ic }) } { unimplemented!() }
}
#[verifier::external_body] // regex_syntax::escape
pub fn rt_escape(s: &Cow<'_, str>) -> (r: String) ensures r@ == escaped(s.t()) { unimplemented!() }
#[derive(Copy, Clone)]
pub struct PatternID { pub v: usize } // regex_automata::PatternID
impl PatternID {
    pub fn rt_zero() -> (r: Self) ensures r.v == 0 { PatternID { v: 0 } }
    #[verifier::external_body] // overflow is not modelled
    pub fn one_more(&self) -> (r: usize) ensures r == self.v + 1 { unimplemented!() }
    pub fn new_unchecked(v: usize) -> (r: Self) ensures r.v == v { PatternID { v } }
}
#[derive(Copy, Clone)]
pub struct NonMaxUsize { pub v: usize }
impl NonMaxUsize {
    pub fn new(v: usize) -> (r: Option<Self>) ensures v < usize::MAX ==> r == Some(NonMaxUsize { v }) { if v < usize::MAX { Some(NonMaxUsize { v }) } else { None } }
    pub fn get(&self) -> (r: usize) ensures r == self.v { self.v }
}
#[verifier::external_body] // regex_automata::util::captures::GroupInfo
pub struct GroupInfo { x: u8 }
pub ghost struct Gi { pub slots: Map<(int, int), int>, pub n: int }
impl GroupInfo {
    pub uninterp spec fn g(&self) -> Gi;
    #[verifier::external_body]
    pub fn slot(&self, p: PatternID, g: usize) -> (r: Option<usize>) ensures match r { Some(s) => self.g().slots.dom().contains((p.v as int, g as int)) && self.g().slots[(p.v as int, g as int)] == s && s + 1 < self.g().n && s < usize::MAX && s % 2 == 0, None => !self.g().slots.dom().contains((p.v as int, g as int)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn slots(&self, p: PatternID, g: usize) -> (r: Option<(usize, usize)>) ensures match r { Some((s, t)) => self.g().slots.dom().contains((p.v as int, g as int)) && self.g().slots[(p.v as int, g as int)] == s && t == s + 1 && s + 1 < self.g().n && s % 2 == 0, None => !self.g().slots.dom().contains((p.v as int, g as int)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_name(&self, p: PatternID, g: usize) -> Option<&str> { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub broadcast axiom fn ax_slots(g: GroupInfo, k: (int, int)) ensures g.g().slots.dom().contains(k) ==> 0 <= #[trigger] g.g().slots[k] && g.g().slots[k] % 2 == 0 && g.g().slots[k] + 1 < g.g().n;
/// each group has captured a region of the first `n` bytes, or nothing
#[verifier::opaque]
pub open spec fn pairs_ok(s: Seq<Option<NonMaxUsize>>, n: int) -> bool { forall|k: int| 0 <= k && k % 2 == 0 && k + 1 < s.len() ==> #[trigger] pair_ok(s, k, n) }
pub open spec fn both(a: Option<NonMaxUsize>, b: Option<NonMaxUsize>, n: int) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.v <= b.v <= n, _ => false } }
pub open spec fn pair_ok(s: Seq<Option<NonMaxUsize>>, k: int, n: int) -> bool { both(s[k], s[k + 1], n) }
pub proof fn lemma_pairs_none(s: Seq<Option<NonMaxUsize>>, n: int) requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) is None ensures pairs_ok(s, n) { reveal(pairs_ok); }
pub proof fn lemma_pairs_set(s: Seq<Option<NonMaxUsize>>, k: int, a: Option<NonMaxUsize>, b: Option<NonMaxUsize>) requires 0 <= k, k % 2 == 0, k + 1 < s.len()
    ensures forall|n: int| #[trigger] pairs_ok(s, n) && both(a, b, n) ==> pairs_ok(s.update(k, a).update(k + 1, b), n)
{ reveal(pairs_ok); assert forall|n: int| #[trigger] pairs_ok(s, n) && both(a, b, n) implies pairs_ok(s.update(k, a).update(k + 1, b), n) by {
    let t = s.update(k, a).update(k + 1, b);
    assert forall|j: int| 0 <= j && j % 2 == 0 && j + 1 < t.len() implies #[trigger] pair_ok(t, j, n) by { assert(pair_ok(s, j, n)); } } }
#[verifier::external_body] // regex_automata::util::captures::Captures
pub struct Captures { x: u8 }
impl Captures {
    pub uninterp spec fn gi(&self) -> GroupInfo;
    pub uninterp spec fn pat(&self) -> Option<PatternID>;
    pub uninterp spec fn slots(&self) -> Seq<Option<NonMaxUsize>>;
    pub open spec fn has(&self, p: int, g: int) -> bool { self.gi().g().slots.dom().contains((p, g)) }
    pub open spec fn grp(&self, g: int) -> Hit {
        match self.pat() { None => None, Some(p) => if !self.has(p.v as int, g) { None } else {
            let s = self.gi().g().slots[(p.v as int, g)];
            match (self.slots()[s], self.slots()[s + 1]) { (Some(a), Some(b)) => Some((a.v as int, b.v as int)), _ => None } } }
    }
    pub open spec fn hit(&self) -> Hit { self.grp(0) }
    pub open spec fn wf(&self) -> bool { self.slots().len() == self.gi().g().n && self.has(0, 0) }
    #[verifier::external_body]
    pub fn all(g: GroupInfo) -> (r: Self) ensures r.gi() == g, r.pat() is None, r.slots().len() == g.g().n, forall|k: int| 0 <= k < g.g().n ==> (#[trigger] r.slots()[k]) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn group_len(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    pub fn rt_slots(&self) -> (r: &[Option<NonMaxUsize>]) ensures r@ == self.slots() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_pattern(&mut self, p: Option<PatternID>) ensures final(self).gi() == old(self).gi(), final(self).slots() == old(self).slots(), final(self).pat() == p { unimplemented!() }
    #[verifier::external_body]
    pub fn get_match(&self) -> (r: Option<regex_automata::Match>) ensures match r { Some(m) => self.hit() == Some(m.h()), None => self.hit() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_group(&self, g: usize) -> (r: Option<regex_automata::Group>) ensures match r { Some(m) => self.grp(g as int) == Some((m.start as int, m.end as int)), None => self.grp(g as int) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn group_info(&self) -> (r: &GroupInfo) ensures *r == self.gi() { unimplemented!() }
    #[verifier::external_body] // self.slots_mut()[k] = v
    pub fn rt_set(&mut self, k: usize, v: Option<NonMaxUsize>) requires k < old(self).slots().len()
        ensures final(self).gi() == old(self).gi(), final(self).pat() == old(self).pat(), final(self).slots() == old(self).slots().update(k as int, v) { unimplemented!() }
}
//@@ fn filecheck/src/input.rs :: impl From for Input#0 :: from
//@@ sig `pub fn rt_into<'a>(input: Input<'a>) -> (r: regex_automata::Input<'a>)`
//@@ spec
    requires input.wf()
    ensures r.i() == input.i()
//@@ end
//@@ fn filecheck/src/input.rs :: impl From for Input#1 :: from
//@@ sig `pub fn rt_into_ac<'a>(input: Input<'a>) -> (r: aho_corasick::Input<'a>)`
//@@ spec
    requires input.wf()
    ensures r.i() == input.i()
//@@ end
impl<'a> Input<'a> {
    pub open spec fn i(self) -> In { In { b: self.buffer@, s: self.lo(), e: self.hi(), anch: self.anchored } }
//@@ fn filecheck/src/input.rs :: impl Input#0 :: is_anchored
//@@ ret r
//@@ spec
    ensures r == self.anchored
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: set_anchored
//@@ spec
    ensures *final(self) == (Input { anchored, ..*old(self) })
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: source_id
//@@ ret r
//@@ spec
    ensures r == self.source_id
//@@ end
    #[verifier::external_body] // Input::as_slice().is_empty()
    pub fn rt_no_more(&self) -> (r: bool) requires self.wf() ensures r == (self.lo() >= self.hi()) { unimplemented!() }
    #[verifier::external_body] // the text of a range, which has to be valid UTF-8 (see DESIGN.md)
    pub fn as_str(&self, x: core::ops::Range<usize>) -> (r: &'a str) requires x.start <= x.end <= self.buffer@.len() ensures r@ == utf8(self.buffer@.subrange(x.start as int, x.end as int)) { unimplemented!() }
}

// ---------------------------------------------------------------- guards
//@@ item filecheck/src/cursor.rs :: struct CursorGuard
//@@ end
impl<'a, 'input> CursorGuard<'a, 'input> {
//@@ fn filecheck/src/cursor.rs :: impl CursorGuard#0 :: new
//@@ ret r
//@@ spec
    ensures r.cursor == *old(guarded), *r.guarded == *old(guarded), *final(r.guarded) == *final(guarded)
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl CursorGuard#0 :: save
//@@ pre `self.eol` => `self.cursor.eol`
//@@ spec
    ensures *final(self.guarded) == (Cursor { block: self.cursor.block, eol: self.cursor.eol, ..*old(self.guarded) })
//@@ end
}
impl<'a> Cursor<'a> {
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: protect
//@@ sig `pub fn protect<'guard>(&'guard mut self) -> (r: CursorGuard<'guard, 'a>)`
//@@ spec
    ensures r.cursor == *old(self), *r.guarded == *old(self), *final(r.guarded) == *final(self)
//@@ end
}

// ---------------------------------------------------------------- results
#[verifier::external_body] // a diagnostic
pub struct CheckFailedError { x: u8 }
#[verifier::external_body]
pub fn rt_cfe() -> CheckFailedError { unimplemented!() }
//@@ item filecheck/src/pattern/matcher/result.rs :: enum MatchType
//@@ end
//@@ item filecheck/src/pattern/matcher/result.rs :: struct MatchInfo
//@@ end
//@@ item filecheck/src/pattern/matcher/result.rs :: struct MatchResult
//@@ end
impl MatchType {
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchType :: is_ok
//@@ ret r
//@@ spec
    ensures r == !(self is Failed)
//@@ end
}
impl<'input> MatchInfo<'input> {
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchInfo :: new
//@@ ret r
//@@ spec
    ensures r.span == span
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchInfo :: new_with_pattern
//@@ ret r
//@@ spec
    ensures r.span == span
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchInfo :: with_captures
//@@ ret r
//@@ spec
    ensures r.span == self.span
//@@ end
}
impl<'input> MatchResult<'input> {
    pub open spec fn hit(&self) -> Hit { match self.info { Some(i) => Some((i.span.s(), i.span.e())), None => None } }
    pub open spec fn good(&self) -> bool { !(self.ty is Failed) }
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult :: new
//@@ ret r
//@@ spec
    ensures r.ty == ty, r.info == info
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult :: ok
//@@ ret r
//@@ spec
    ensures r.good(), r.ty is MatchFoundAndExpected, r.info == Some(info)
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult :: failed
//@@ ret r
//@@ spec
    ensures !r.good(), r.info is None
//@@ end
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult :: is_ok
//@@ ret r
//@@ spec
    ensures r == self.good()
//@@ end
}
impl<'input> CaptureInfo<'input> {
    #[verifier::external_body] // derived Clone
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---------------------------------------------------------------- parts of a pattern
//@@ item filecheck/src/ast/pattern.rs :: enum Constraint
//@@ derive Copy, Clone
//@@ end
//@@ item filecheck/src/pattern/matcher/matchers/substring.rs :: struct SubstringMatcher
//@@ end
//@@ item filecheck/src/pattern/matcher/matchers/smart/instruction.rs :: struct CaptureGroup
//@@ derive Copy, Clone
//@@ end
//@@ item filecheck/src/pattern/matcher/matchers/smart/instruction.rs :: enum MatchOp
//@@ sub `SmallVec<[CaptureGroup; 1]>` => `Vec<CaptureGroup>`
//@@ end
impl Capture {
    pub open spec fn nm(&self) -> Option<VariableName> { match self { Capture::Implicit(tv) => Some(tv.name), Capture::Mapped { with, .. } => Some(with.name), Capture::Explicit(tv) => Some(tv.name), _ => None } }
    pub open spec fn vt(&self) -> ValueType { match self { Capture::Implicit(tv) => tv.ty, Capture::Mapped { with, .. } => with.ty, Capture::Explicit(tv) => tv.ty, Capture::All(t) => t.spanned, _ => ValueType::String } }
//@@ fn filecheck/src/ast/pattern.rs :: impl Capture :: name
//@@ pre `self.variable_name().map(|v| v.into_inner())` => `(match self.variable_name() { Some(v) => Some(v.into_inner()), None => None })`
//@@ end
//@@ fn filecheck/src/ast/pattern.rs :: impl Capture :: variable_name
//@@ ret r
//@@ spec
    ensures r == self.nm()
//@@ end
//@@ fn filecheck/src/ast/pattern.rs :: impl Capture :: value_type
//@@ ret r
//@@ spec
    ensures r == self.vt()
//@@ end
    pub open spec fn gn(&self) -> Option<T> { match self { Capture::Mapped { group, .. } => Some(group.s()), Capture::Explicit(tv) => Some(tv.name.sy().s()), _ => None } }
    pub open spec fn pushes(&self) -> bool { !(self is Ignore) && !(self is All) }
//@@ fn filecheck/src/ast/pattern.rs :: impl Capture :: group_name
//@@ pre `Self::Ignore(_) | Self::All(_) | Self::Implicit(_) => $x ,` => `Self::Ignore(_) => $x, Self::All(_) => $x, Self::Implicit(_) => $x,`
//@@ pre `Self::Ignore(_) | Self::All(_) | Self::Implicit(_) => $x }` => `Self::Ignore(_) => $x, Self::All(_) => $x, Self::Implicit(_) => $x }`
//@@ ret r
//@@ spec
    ensures match r { Some(s) => self.gn() == Some(s.s()), None => self.gn() is None }
//@@ end
}
/// what a search for a part gives: a hit with the values it captures, none, or an error
pub ghost enum Pt { Hit(int, int, Seq<Av>), Miss, Bad }
pub open spec fn pt(h: Hit) -> Pt { match h { Some((a, b)) => Pt::Hit(a, b, Seq::empty()), None => Pt::Miss } }
/// the values which the groups of a regular expression capture
pub open spec fn caps_of(x: Rx, i: In, gs: Seq<CaptureGroup>) -> Seq<Av> decreases gs.len() {
    if gs.len() == 0 { Seq::empty() } else {
        let r = caps_of(x, i, gs.drop_last());
        match rx_group(x, i, gs.last().group_id as int) { Some((a, b)) if gs.last().info.pushes() => r.push(Av::S(utf8(i.b.subrange(a, b)))), _ => r }
    }
}
pub ghost struct Cf { pub text: Seq<u8>, pub ic: bool }
/// the text an expression is substituted by
pub ghost enum Sb { Text(T), Bad }
pub open spec fn subst(ty: Option<ValueType>, e: Expr, b: B<Av>, c: Cf) -> Sb {
    match ev(e, Cx { b, text: c.text, want: want_of(ty) }, Seq::empty()) {
        R::Bad => Sb::Bad,
        R::S(t) => if rx_builds(Rx { src: escaped(t), ml: true, ic: c.ic }) { Sb::Text(t) } else { Sb::Bad },
        R::N(v, f) => { let g = eff(match want_of(ty) { Some(h) => Some(h), None => f }); if representable(v, g) { Sb::Text(writes(v, g)) } else { Sb::Bad } },
    }
}
pub open spec fn part(op: MatchOp, b: B<Av>, c: Cf, i: In) -> Pt {
    match op {
        MatchOp::Literal(m) => pt(text_find(m.searcher.w(), m.searcher.ic(), i)),
        MatchOp::Regex { pattern, captures, .. } => match rx_find(pattern.x(), i) { Some((x, y)) => Pt::Hit(x, y, caps_of(pattern.x(), i, captures@)), None => Pt::Miss },
        MatchOp::Numeric { format, capture, .. } => num_part(format, capture is Some, i),
        MatchOp::Substitution { ty, expr } => subst_part(ty, expr, (b, c), i),
        _ => Pt::Bad,
    }
}
pub open spec fn num_part(format: Option<F>, capture: bool, i: In) -> Pt {
    if i.s >= i.e { Pt::Miss } else { match num_find(eff(format), i) {
        None => Pt::Miss,
        Some((x, y)) => if !capture { Pt::Hit(x, y, Seq::empty()) } else { match reads(utf8(i.b.subrange(x, y)), eff(format)) {
            Some(v) => Pt::Hit(x, y, seq![Av::N(v, Some(eff(format)))]),
            None => Pt::Miss } } } }
}
pub open spec fn subst_part(ty: Option<ValueType>, expr: Expr, x: (B<Av>, Cf), i: In) -> Pt { match subst(ty, expr, x.0, x.1) { Sb::Text(t) => pt(text_find(t, x.1.ic, i)), Sb::Bad => Pt::Bad } }
pub open spec fn constraint_of(expr: Expr, x: (B<Av>, Cf), top: Av) -> Run {
    match ev(expr, Cx { b: x.0, text: x.1.text, want: None }, Seq::empty()) {
        R::Bad => Run::Bad,
        R::S(_) => Run::Miss,
        R::N(v, f) => match num_of(top, eff(f)) { None => Run::Bad, Some(w) => if w == v { Run::Good(Ms { b: x.0, st: seq![top], p: 0 }) } else { Run::Miss } },
    }
}
pub open spec fn part_of(op: MatchOp, x: (B<Av>, Cf), i: In) -> Pt { part(op, x.0, x.1, i) }
pub open spec fn old_cx(c: &ContextGuard<'_, '_, '_>) -> (B<Av>, Cf) { (bv(c.scope.bindings.b()), c.cfg()) }
pub open spec fn is_part(op: MatchOp) -> bool { op is Literal || op is Regex || op is Numeric || op is Substitution }

// ---------------------------------------------------------------- a sequence of parts
/// while matching: the bindings, the captured values not yet bound, and the position
pub ghost struct Ms { pub b: B<Av>, pub st: Seq<Av>, pub p: int }
pub ghost enum Run { Good(Ms), Miss, Bad }
pub open spec fn step(op: MatchOp, m: Ms, c: Cf, i: In) -> Run {
    match op {
        MatchOp::Constraint { expr, .. } => match constraint_of(expr, (m.b, c), m.st.last()) { Run::Good(_) => Run::Good(m), x => x },
        MatchOp::Bind { name, ty } => {
            let v = m.st.last();
            let d = m.st.drop_last();
            match ty {
                Some(ValueType::Number(f)) => if num_of(v, eff(f)) is Some { Run::Good(Ms { b: ins(m.b, name, as_num(v, f)), st: d, p: m.p }) } else { Run::Bad },
                _ => Run::Good(Ms { b: ins(m.b, name, v), st: d, p: m.p }),
            }
        }
        MatchOp::Drop => Run::Good(Ms { st: m.st.drop_last(), ..m }),
        _ => match part(op, m.b, c, In { s: m.p, anch: true, ..i }) {
            Pt::Hit(_, b, push) => Run::Good(Ms { st: m.st + push, p: b, ..m }),
            Pt::Miss => Run::Miss,
            Pt::Bad => Run::Bad,
        },
    }
}
/// the parts from the `k`th on, each where the one before it ends
pub open spec fn run_ops(ops: Seq<MatchOp>, k: int, m: Ms, c: Cf, i: In) -> Run decreases ops.len() - k {
    if k >= ops.len() { Run::Good(m) } else { match step(ops[k], m, c, i) { Run::Good(n) => run_ops(ops, k + 1, n, c, i), x => x } }
}
/// one attempt: where the first part is found next, and whether the others follow it
pub ghost enum One { Found(int, int, B<Av>), No, Bad, Again(int) }
pub proof fn lemma_run_step(ops: Seq<MatchOp>, k: int, m: Ms, c: Cf, i: In) requires 0 <= k < ops.len()
    ensures run_ops(ops, k, m, c, i) == (match step(ops[k], m, c, i) { Run::Good(n) => run_ops(ops, k + 1, n, c, i), x => x }) { }
pub open spec fn attempt(first: MatchOp, rest: Seq<MatchOp>, b: B<Av>, c: Cf, i: In) -> One {
    match part(first, b, c, i) {
        Pt::Bad => One::Bad,
        Pt::Miss => One::No,
        Pt::Hit(x, y, push) => match run_ops(rest, 0, Ms { b, st: push, p: y }, c, i) {
            Run::Good(m) => One::Found(x, m.p, m.b),
            Run::Bad => One::Bad,
            // a match may start right after the start of the attempt that failed
            Run::Miss => if i.anch || x + 1 > i.e { One::No } else { One::Again(x + 1) },
        },
    }
}
/// the first place where all parts match, with the bindings they lead to
pub open spec fn search(first: MatchOp, rest: Seq<MatchOp>, b: B<Av>, c: Cf, i: In) -> One decreases i.e + 1 - i.s via search_dec {
    match attempt(first, rest, b, c, i) { One::Again(s) => search(first, rest, b, c, In { s, ..i }), x => x }
}
pub proof fn lemma_part(op: MatchOp, b: B<Av>, c: Cf, i: In) ensures match part(op, b, c, i) { Pt::Hit(x, y, _) => within(Some((x, y)), i), _ => true }
{ broadcast use {ax_rx, ax_text, ax_num}; }
#[via_fn]
proof fn search_dec(first: MatchOp, rest: Seq<MatchOp>, b: B<Av>, c: Cf, i: In) { lemma_part(first, b, c, i); }

// ---------------------------------------------------------------- what the builder has to provide
pub open spec fn all_slots(g: GroupInfo, p: int, gs: Seq<CaptureGroup>) -> bool { forall|j: int| 0 <= j < gs.len() ==> g.g().slots.dom().contains((p, (#[trigger] gs[j]).group_id as int)) && gs[j].pattern_id.v == p }
pub open spec fn all_capture(x: Rx, gs: Seq<CaptureGroup>) -> bool { forall|j: int, i: In| 0 <= j < gs.len() && (#[trigger] gs[j]).info.pushes() && (#[trigger] rx_find(x, i)) is Some ==> rx_group(x, i, gs[j].group_id as int) is Some }
/// the slots of a part exist, and its groups capture whenever it matches
pub open spec fn groups_ok(op: MatchOp, g: GroupInfo, p: int) -> bool {
    g.g().slots.dom().contains((p, 0)) && match op {
        MatchOp::Regex { pattern, captures, .. } => all_slots(g, p, captures@) && all_capture(pattern.x(), captures@),
        MatchOp::Numeric { capture: Some(c), .. } => g.g().slots.dom().contains((p, c.group_id as int)) && c.pattern_id.v == p,
        _ => true,
    }
}
pub open spec fn pushed(gs: Seq<CaptureGroup>) -> int decreases gs.len() { if gs.len() == 0 { 0 } else { pushed(gs.drop_last()) + if gs.last().info.pushes() { 1int } else { 0 } } }
/// how many values an operation leaves on the stack
pub open spec fn delta(op: MatchOp) -> int {
    match op { MatchOp::Regex { captures, .. } => pushed(captures@), MatchOp::Numeric { capture, .. } => if capture is Some { 1 } else { 0 }, MatchOp::Bind { .. } => -1, MatchOp::Drop => -1, _ => 0 }
}
pub open spec fn kinds_ok(op: MatchOp, anch: bool) -> bool { op matches MatchOp::Literal(m) ==> if anch { !(m.searcher.kind() is Unanchored) } else { m.searcher.kind() is Both || m.searcher.kind() is Unanchored } }
/// the operations from the `k`th on, with `d` values on the stack and after `p` parts
pub open spec fn ops_ok(ops: Seq<MatchOp>, k: int, d: int, g: GroupInfo, p: int) -> bool decreases ops.len() - k {
    k >= ops.len() || (if is_part(ops[k]) { groups_ok(ops[k], g, p + 1) && kinds_ok(ops[k], true) && ops_ok(ops, k + 1, d + delta(ops[k]), g, p + 1) } else { d > 0 && ops_ok(ops, k + 1, d + delta(ops[k]), g, p) })
}
pub proof fn lemma_ok_step(ops: Seq<MatchOp>, k: int, d: int, g: GroupInfo, p: int) requires 0 <= k < ops.len(), ops_ok(ops, k, d, g, p)
    ensures is_part(ops[k]) ==> groups_ok(ops[k], g, p + 1) && kinds_ok(ops[k], true) && ops_ok(ops, k + 1, d + delta(ops[k]), g, p + 1),
        !is_part(ops[k]) ==> d > 0 && ops_ok(ops, k + 1, d + delta(ops[k]), g, p) { }
pub open spec fn starts_ok(ops: Seq<MatchOp>, g: GroupInfo) -> bool { ops.len() > 0 && start_ok(ops[0], ops.skip(1), g) }
pub open spec fn start_ok(first: MatchOp, rest: Seq<MatchOp>, g: GroupInfo) -> bool {
    is_part(first) && groups_ok(first, g, 1) && (first matches MatchOp::Literal(m) ==> m.searcher.kind() is Both) && ops_ok(rest, 0, delta(first), g, 1) && g.g().slots.dom().contains((0, 0))
}
/// bindings are only added or replaced
pub open spec fn ext(b: B<Av>, c: B<Av>) -> bool { b.sys == c.sys && b.glob.dom().subset_of(c.glob.dom()) && b.loc.dom().subset_of(c.loc.dom()) }
pub proof fn lemma_grows(ops: Seq<MatchOp>, k: int, m: Ms, c: Cf, i: In) ensures run_ops(ops, k, m, c, i) matches Run::Good(n) ==> ext(m.b, n.b) decreases ops.len() - k
{ if k < ops.len() { if let Run::Good(n) = step(ops[k], m, c, i) { lemma_grows(ops, k + 1, n, c, i); } } }
pub proof fn lemma_run_input(ops: Seq<MatchOp>, k: int, m: Ms, c: Cf, i: In, j: In) requires i.b == j.b, i.e == j.e ensures run_ops(ops, k, m, c, i) == run_ops(ops, k, m, c, j) decreases ops.len() - k
{ if k < ops.len() { assert(In { s: m.p, anch: true, ..i } == In { s: m.p, anch: true, ..j }); assert(step(ops[k], m, c, i) == step(ops[k], m, c, j)); if let Run::Good(n) = step(ops[k], m, c, i) { lemma_run_input(ops, k + 1, n, c, i, j); } } }
pub proof fn lemma_merged_ext(b: B<Av>, c: B<Av>) requires ext(b, c) ensures merged(b, c) == c
{ assert(merged(b, c).glob =~= c.glob); assert(merged(b, c).loc =~= c.loc); }
pub open spec fn no_expr(s: Seq<Av>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is E) }
pub proof fn lemma_captured(x: Rx, i: In, gs: Seq<CaptureGroup>)
    requires rx_find(x, i) is Some, forall|j: int| 0 <= j < gs.len() ==> (#[trigger] gs[j]).info.pushes() ==> rx_group(x, i, gs[j].group_id as int) is Some
    ensures caps_of(x, i, gs).len() == pushed(gs), no_expr(caps_of(x, i, gs)) decreases gs.len()
{
    if gs.len() > 0 {
        let d = gs.drop_last();
        assert forall|j: int| 0 <= j < d.len() && (#[trigger] d[j]).info.pushes() implies rx_group(x, i, d[j].group_id as int) is Some by { assert(d[j] == gs[j]); }
        lemma_captured(x, i, d);
        assert(gs.last() == gs[gs.len() - 1]);
    }
}

impl Number {
    pub fn span(&self) -> (r: SourceSpan) ensures r == self.span { self.span } // Spanned::span
}
/// where matching takes place: the bindings and what else an outcome depends on
pub trait Context<'input, 'context>: Sized {
    spec fn bs(&self) -> B<Value<'input>>;
    spec fn cf(&self) -> Cf;
    spec fn cur(&self) -> Cursor<'input>;
    fn cursor(&self) -> (r: &Cursor<'input>) ensures *r == self.cur();
    /// env_mut().insert(..)
    fn rt_insert(&mut self, n: VariableName, v: Value<'input>) ensures final(self).bs() == ins(old(self).bs(), n, v), final(self).cf() == old(self).cf(), final(self).cur() == old(self).cur();
//@@ fn filecheck/src/context.rs :: trait Context :: search
//@@ ret r
//@@ spec
    requires self.cur().wf()
    ensures r.wf(), r.buffer == self.cur().buffer
//@@ end
    fn protect<'guard>(&'guard mut self) -> (r: ContextGuard<'guard, 'input, 'context>)
        ensures r.scope.bindings.b() == old(self).bs(), r.scope.parent.b() == old(self).bs(), r.cfg() == old(self).cf(), final(self).bs() == final(r.scope.parent).b(), final(self).cf() == old(self).cf(),
            r.cursor.cursor == old(self).cur(), *r.cursor.guarded == old(self).cur(), final(self).cur() == *final(r.cursor.guarded);
}
//@@ item filecheck/src/context.rs :: struct MatchContext
//@@ sub `Env<'input>` => `Env<Value<'input>>`
//@@ sub `Arc < SourceFile >` => `SourceRef`
//@@ end
impl<'input, 'context> Context<'input, 'context> for MatchContext<'input, 'context> {
    open spec fn bs(&self) -> B<Value<'input>> { self.env.bindings.b() }
    open spec fn cf(&self) -> Cf { Cf { text: self.match_file.bytes(), ic: self.config.options.ignore_case } }
    open spec fn cur(&self) -> Cursor<'input> { self.cursor }
//@@ fn filecheck/src/context.rs :: impl Context for MatchContext :: cursor
//@@ sig `fn cursor(&self) -> (r: &Cursor<'input>)`
//@@ end
    fn rt_insert(&mut self, n: VariableName, v: Value<'input>) { self.env.insert(n, v) }
//@@ fn filecheck/src/context.rs :: impl Context for MatchContext :: protect
//@@ sig `fn protect<'guard>(&'guard mut self) -> (r: ContextGuard<'guard, 'input, 'context>)`
//@@ end
}
impl<'outer, 'input, 'context> Context<'input, 'context> for ContextGuard<'outer, 'input, 'context> {
    open spec fn bs(&self) -> B<Value<'input>> { self.scope.bindings.b() }
    open spec fn cf(&self) -> Cf { self.cfg() }
    open spec fn cur(&self) -> Cursor<'input> { self.cursor.cursor }
//@@ fn filecheck/src/context.rs :: impl Context for ContextGuard :: cursor
//@@ sig `fn cursor(&self) -> (r: &Cursor<'input>)`
//@@ pre `self.cursor.as_ref()` => `&self.cursor.cursor`
//@@ end
    fn rt_insert(&mut self, n: VariableName, v: Value<'input>) { self.env_mut().insert(n, v) }
//@@ fn filecheck/src/context.rs :: impl Context for ContextGuard :: protect
//@@ sig `fn protect<'guard>(&'guard mut self) -> (r: ContextGuard<'guard, 'input, 'context>)`
//@@ pre `self.cursor.protect()` => `self.cursor.cursor.protect()`
//@@ end
}
impl<'input, 'context> MatchContext<'input, 'context> {
//@@ fn filecheck/src/context.rs :: impl MatchContext#0 :: enter_block
//@@ sub? `RangeBounds<usize>` => `RangeBounds`
//@@ spec
    requires old(self).cursor.wf(), b_ok(range.lo(), range.hi()), 0 <= b_lo(range.lo(), 0) <= b_hi(range.hi(), old(self).cursor.b().len() as int) <= old(self).cursor.b().len()
    ensures final(self).bs() == (if old(self).config.options.enable_var_scope { cleared(old(self).bs()) } else { old(self).bs() })
//@@ end
}
impl<'guard, 'input, 'context> ContextGuard<'guard, 'input, 'context> {
    pub open spec fn cfg(&self) -> Cf { Cf { text: self.match_file.bytes(), ic: self.config.options.ignore_case } }
//@@ fn filecheck/src/context.rs :: impl ContextGuard#0 :: save
//@@ spec
    ensures final(self.scope.parent).b() == merged(old(self.scope.parent).b(), self.scope.bindings.b()),
        *final(self.cursor.guarded) == (Cursor { block: self.cursor.cursor.block, eol: self.cursor.cursor.eol, ..*old(self.cursor.guarded) })
//@@ end
//@@ fn filecheck/src/context.rs :: impl Context for ContextGuard :: env_mut
//@@ sig `pub fn env_mut(&mut self) -> (r: &mut ScopeGuard<'guard, Value<'input>>)`
//@@ spec
    ensures *r == old(self).scope, *final(self) == (ContextGuard { scope: *final(r), ..*old(self) })
//@@ end
//@@ fn filecheck/src/context.rs :: impl Context for ContextGuard :: config
//@@ sig `pub fn config(&self) -> (r: &'context Config)`
//@@ spec
    ensures r == self.config
//@@ end
}
// ---------------------------------------------------------------- the searcher
//@@ item filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: struct SmartSearcher
//@@ end
pub open spec fn stk<'a>(s: Seq<Operand<'a>>) -> Seq<Av> { s.map_values(|o: Operand<'a>| av(o.0.value)) }
pub broadcast proof fn lemma_stk_push<'a>(s: Seq<Operand<'a>>, o: Operand<'a>) ensures #[trigger] stk(s.push(o)) == stk(s).push(av(o.0.value)) { assert(stk(s.push(o)) =~= stk(s).push(av(o.0.value))); }
#[verifier::external_body] // ToString: what Display writes (see the num unit)
pub fn rt_num_string(n: &Number) -> (r: String) ensures representable(n.value as int, eff(n.format)) ==> r@ == writes(n.value as int, eff(n.format)) { unimplemented!() }
pub proof fn lemma_plain(v: int, f: F) requires representable(v, f), fits(v) ensures plain(writes(v, f))
{
    let s = writes(v, f); let a = if v < 0 { -v } else { v };
    reveal_strlit("0x");
    lemma_zpad(a, 10, false, prec(f));
    match f {
        NumberFormat::Unsigned { .. } => { assert forall|i: int| 0 <= i < s.len() implies #[trigger] plain_char(s[i]) by { assert(dv(s[i]) < 10); } }
        NumberFormat::Signed { .. } => { let d = zpad(ndig(a, 10, false), prec(f)); assert forall|i: int| 0 <= i < s.len() implies #[trigger] plain_char(s[i]) by { let k = if v < 0 { i - 1 } else { i }; if k >= 0 { assert(s[i] == d[k]); assert(dv(d[k]) < 10); } } }
        NumberFormat::Hex { require_prefix, casing, .. } => {
            lemma_zpad(v, 16, upper(casing), prec(f));
            let d = zpad(ndig(v, 16, upper(casing)), prec(f)); assert forall|i: int| 0 <= i < s.len() implies #[trigger] plain_char(s[i]) by { let k = if require_prefix { i - 2 } else { i }; if k >= 0 { assert(s[i] == d[k]); assert(dv(d[k]) < 16); } else { assert(s[i] == ox()[i]); assert(dv('0') == 0); } }
        }
    }
}
pub proof fn lemma_stk_pop<'a>(s: Seq<Operand<'a>>) ensures s.len() > 0 ==> stk(s.drop_last()) == stk(s).drop_last() && stk(s).last() == av(s.last().0.value), stk(s).len() == s.len() { if s.len() > 0 { assert(stk(s.drop_last()) =~= stk(s).drop_last()); } }
#[verifier::prophetic]
pub open spec fn same_guard<'g, 'i, 'c>(a: &ContextGuard<'g, 'i, 'c>, b: &ContextGuard<'g, 'i, 'c>) -> bool { *a.scope.parent == *b.scope.parent && *final(a.scope.parent) == *final(b.scope.parent) && a.cfg() == b.cfg()
    && a.cursor.cursor == b.cursor.cursor && *a.cursor.guarded == *b.cursor.guarded && *final(a.cursor.guarded) == *final(b.cursor.guarded) }
/// a part leaves as many values as it captures, none of them an unevaluated expression
pub proof fn lemma_delta(op: MatchOp, b: B<Av>, c: Cf, i: In, g: GroupInfo, p: int) requires is_part(op) ==> groups_ok(op, g, p)
    ensures is_part(op) ==> (part(op, b, c, i) matches Pt::Hit(_, _, push) ==> push.len() == delta(op) && no_expr(push))
{
    if op is Regex { let x = op->pattern.x(); if rx_find(x, i) is Some { assert forall|j: int| 0 <= j < op->captures@.len() && (#[trigger] op->captures@[j]).info.pushes() implies rx_group(x, i, op->captures@[j].group_id as int) is Some by { } lemma_captured(x, i, op->captures@); } }
}
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: fn set_capturing_group_span
//@@ pre `let slots = captures.slots_mut();` => ` `
//@@ pre `slots[$k] = $v ;` => `captures.rt_set($k, $v);`
//@@ pre `.expect($x)` => `.unwrap()`
//@@ at entry
    proof { if captures.has(pid.v as int, gid as int) { let k = captures.gi().g().slots[(pid.v as int, gid as int)]; if 0 <= k && k % 2 == 0 && k + 1 < captures.slots().len() { lemma_pairs_set(captures.slots(), k, Some(NonMaxUsize { v: start }), Some(NonMaxUsize { v: end })); } } }
//@@ spec
    requires old(captures).wf(), old(captures).has(pid.v as int, gid as int), start <= u32::MAX, end <= u32::MAX
    ensures final(captures).wf(), final(captures).gi() == old(captures).gi(), final(captures).pat() == old(captures).pat(),
        old(captures).pat() == Some(pid) ==> final(captures).grp(gid as int) == Some((start as int, end as int)),
        ({ let s = old(captures).gi().g().slots[(pid.v as int, gid as int)]; final(captures).slots()[s] == Some(NonMaxUsize { v: start }) && final(captures).slots()[s + 1] == Some(NonMaxUsize { v: end }) }),
        forall|n: int| #[trigger] pairs_ok(old(captures).slots(), n) && start <= end <= n ==> pairs_ok(final(captures).slots(), n)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: fn unset_capturing_group_span
//@@ pre `let slots = captures.slots_mut();` => ` `
//@@ pre `slots[$k] = $v ;` => `captures.rt_set($k, $v);`
//@@ pre `.expect($x)` => `.unwrap()`
//@@ at entry
    proof { if captures.has(pid.v as int, gid as int) { let k = captures.gi().g().slots[(pid.v as int, gid as int)]; if 0 <= k && k % 2 == 0 && k + 1 < captures.slots().len() { lemma_pairs_set(captures.slots(), k, None, None); } } }
//@@ spec
    requires old(captures).wf(), old(captures).has(pid.v as int, gid as int)
    ensures final(captures).wf(), final(captures).gi() == old(captures).gi(), final(captures).pat() == old(captures).pat(),
        forall|n: int| #[trigger] pairs_ok(old(captures).slots(), n) ==> pairs_ok(final(captures).slots(), n)
//@@ end
impl<'a> SubstringMatcher<'a> {
//@@ fn filecheck/src/pattern/matcher/matchers/substring.rs :: impl Matcher for SubstringMatcher :: try_match
//@@ sig `pub fn try_match<'input, 'context, C: Context<'input, 'context>>(&self, input: Input<'input>, context: &C) -> (r: DiagResult<MatchResult<'input>>)`
//@@ pre `self.searcher.find(input)` => `self.searcher.find(rt_into_ac(input))`
//@@ pre `CheckFailedError::match_none($x)` => `rt_cfe()`
//@@ at entry
    proof { broadcast use ax_text; }
//@@ spec
    requires input.wf(), self.searcher.can(input.i())
    ensures r matches Ok(m) && m.hit() == text_find(self.searcher.w(), self.searcher.ic(), input.i()) && m.good() == (m.info is Some)
//@@ end
}
impl<'a, 'input> SmartSearcher<'a, 'input> {
    pub open spec fn wf(&self) -> bool {
        self.input.wf() && self.cursor.wf() && self.cursor.buffer == self.input.buffer && self.cursor.hi() == self.input.hi()
        && self.captures.wf() && pairs_ok(self.captures.slots(), self.input.buffer@.len() as int) && no_expr(stk(self.stack@)) && self.match_end <= u32::MAX && self.match_start <= self.match_end
    }
    /// everything but the captures, the stack and the number of the part
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool {
        self.input == o.input && self.cursor == o.cursor && self.match_start == o.match_start && self.match_end == o.match_end && self.frame(o)
    }
    #[verifier::prophetic]
    pub open spec fn frame(&self, o: &Self) -> bool {
        self.input == o.input && *final(self.captures) == *final(o.captures) && self.captures.gi() == o.captures.gi() && self.captures.wf()
    }
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: new
//@@ pre `PatternID::ZERO` => `PatternID::rt_zero()`
//@@ pre `vec![]` => `Vec::new()`
//@@ ret r
//@@ spec
    requires input.wf(), old(captures).wf(), pairs_ok(old(captures).slots(), input.buffer@.len() as int)
    ensures r.wf(), r.input == input, r.cursor == input, r.stack@.len() == 0, r.match_pattern_id.v == 0, *r.captures == *old(captures), *final(r.captures) == *final(captures), r.match_end == input.lo(), r.match_start == input.lo()
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: reset
//@@ pre `PatternID::ZERO` => `PatternID::rt_zero()`
//@@ spec
    requires old(self).wf()
    ensures final(self).frame(old(self)), final(self).captures.pat() is None, final(self).captures.slots() == old(self).captures.slots(),
        start <= old(self).input.hi() ==> final(self).wf() && final(self).cursor.i() == (In { s: start as int, ..old(self).input.i() }) && final(self).stack@.len() == 0 && final(self).match_pattern_id.v == 0 && final(self).match_end == start && final(self).match_start == start
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: part_matched
//@@ sub? `RangeBounds<usize>` => `RangeBounds`
//@@ pre `range::range_from_bounds_with_defaults` => `range_from_bounds_with_defaults`
//@@ spec
    requires old(self).wf(), b_ok(range.lo(), range.hi()), old(self).match_start as int <= b_lo(range.lo(), old(self).match_start as int) <= b_hi(range.hi(), old(self).cursor.hi()) <= old(self).cursor.hi()
    ensures final(self).wf(), final(self).frame(old(self)), final(self).stack == old(self).stack, final(self).match_pattern_id == old(self).match_pattern_id,
        *final(self).captures == *old(self).captures,
        final(self).match_start == b_lo(range.lo(), old(self).match_start as int), final(self).match_end == b_hi(range.hi(), old(self).cursor.hi()),
        final(self).cursor.i() == (In { s: final(self).match_end as int, ..old(self).cursor.i() })
//@@ end

    /// what a search for a part has to give back and leave behind
    pub open spec fn gives(&self, o: &Self, r: DiagResult<MatchResult<'input>>, p: Pt) -> bool {
        match p {
            Pt::Bad => r is Err,
            Pt::Miss => r matches Ok(m) && m.info is None && !m.good() && stk(self.stack@) == stk(o.stack@),
            Pt::Hit(a, b, push) => r matches Ok(m) && m.hit() == Some((a, b)) && m.good() && stk(self.stack@) == stk(o.stack@) + push,
        }
    }
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: match_literal
//@@ ret r
//@@ at entry
    proof { broadcast use ax_text; assert(stk(self.stack@) + Seq::<Av>::empty() =~= stk(self.stack@)); }
//@@ spec
    requires old(self).wf(), old(self).captures.has(old(self).match_pattern_id.v as int, 0), matcher.searcher.can(old(self).cursor.i())
    ensures final(self).same(old(self)), final(self).captures.pat() == old(self).captures.pat(), final(self).wf(), final(self).match_pattern_id == old(self).match_pattern_id,
        final(self).gives(old(self), r, pt(text_find(matcher.searcher.w(), matcher.searcher.ic(), old(self).cursor.i())))
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: match_regex
//@@ pre `pattern.find(self.cursor)` => `pattern.rt_find(rt_into(self.cursor))`
//@@ pre `CheckFailedError::match_none($x)` => `rt_cfe()`
//@@ ret r
//@@ at entry
    proof { broadcast use ax_rx; assert(stk(self.stack@) + Seq::<Av>::empty() =~= stk(self.stack@)); }
//@@ spec
    requires old(self).wf(), old(self).captures.has(old(self).match_pattern_id.v as int, 0)
    ensures final(self).same(old(self)), final(self).captures.pat() == old(self).captures.pat(), final(self).wf(), final(self).match_pattern_id == old(self).match_pattern_id,
        final(self).gives(old(self), r, pt(rx_find(pattern.x(), old(self).cursor.i())))
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: match_regex_with_captures
//@@ pre `self.cursor.into()` => `rt_into(self.cursor)`
//@@ pre `CheckFailedError::match_none($x)` => `rt_cfe()`
//@@ pre `for capture_group in capture_groups.iter() { $X }` => `let mut rt_i = 0; while rt_i < capture_groups.len() { let capture_group = &capture_groups[rt_i]; rt_i += 1; $X }`
//@@ ret r
//@@ at entry
    proof { broadcast use {ax_rx, ax_group, lemma_stk_push}; assert(stk(self.stack@) + Seq::<Av>::empty() =~= stk(self.stack@)); assert(capture_groups@.take(capture_groups@.len() as int) =~= capture_groups@); assert(capture_groups@.take(0) =~= Seq::<CaptureGroup>::empty()); }
    let ghost i0 = self.cursor.i(); let ghost x0 = pattern.x(); let ghost s0 = stk(self.stack@); let ghost o0 = *self; let ghost gs = capture_groups@;
//@@ loop 0
    invariant rt_i <= capture_groups@.len(), capture_groups@ == gs, self.same(&o0), self.captures.pat() == o0.captures.pat(), self.wf(), self.match_pattern_id == o0.match_pattern_id, i0 == o0.cursor.i(), 
        rx_find(x0, i0) is Some, forall|g: int| #[trigger] captures.grp(g) == rx_group(x0, i0, g),
        all_slots(self.captures.gi(), self.match_pattern_id.v as int, gs),
        stk(self.stack@) == s0 + caps_of(x0, i0, gs.take(rt_i as int)),
    decreases capture_groups@.len() - rt_i
//@@ at loop 0 start
    proof { broadcast use {ax_rx, ax_group, lemma_stk_push}; let t = gs.take(rt_i + 1); assert(t.drop_last() =~= gs.take(rt_i as int)); assert(t.last() == gs[rt_i as int]);
        assert forall|v: Av| #[trigger] (s0 + caps_of(x0, i0, t.drop_last()).push(v)) == (s0 + caps_of(x0, i0, t.drop_last())).push(v) by { assert(s0 + caps_of(x0, i0, t.drop_last()).push(v) =~= (s0 + caps_of(x0, i0, t.drop_last())).push(v)); } }
//@@ spec
    requires old(self).wf(), old(self).captures.has(old(self).match_pattern_id.v as int, 0), all_slots(old(self).captures.gi(), old(self).match_pattern_id.v as int, capture_groups@)
    ensures final(self).same(old(self)), final(self).captures.pat() == old(self).captures.pat(), final(self).wf(), final(self).match_pattern_id == old(self).match_pattern_id,
        final(self).gives(old(self), r, match rx_find(pattern.x(), old(self).cursor.i()) { Some((x, y)) => Pt::Hit(x, y, caps_of(pattern.x(), old(self).cursor.i(), capture_groups@)), None => Pt::Miss })
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: match_number
//@@ pre `format.unwrap_or_default()` => `rt_or_default(format)`
//@@ pre `self.cursor.as_slice().is_empty()` => `self.cursor.rt_no_more()`
//@@ pre `CheckFailedError::match_none($x).with_note($y)` => `rt_cfe()`
//@@ pre `CheckFailedError::match_none($x)` => `rt_cfe()`
//@@ pre `CheckFailedError::MatchFoundConstraintFailed { $x }` => `rt_cfe()`
//@@ pre `capture_group.as_ref().and_then(|cg| $x)` => `(match capture_group.as_ref() { Some(cg) => $x, None => None })`
//@@ pre `Regex::new(&source).expect($x)` => `Regex::rt_new(&source)`
//@@ pre `self.cursor.into()` => `rt_into(self.cursor)`
//@@ pre `pattern.find(input)` => `pattern.rt_find(input)`
//@@ pre `Range::from($x)` => `$x`
//@@ pre `vec![captured]` => `{ let mut rt_v = Vec::new(); rt_v.push(captured); rt_v }`
//@@ ret r
//@@ at entry
    proof { broadcast use {ax_rx, ax_num, ax_num_src, lemma_stk_push}; assert(stk(self.stack@) + Seq::<Av>::empty() =~= stk(self.stack@)); reveal_strlit("digits");
        assert forall|v: Av| #[trigger] (stk(self.stack@) + seq![v]) == stk(self.stack@).push(v) by { assert(stk(self.stack@) + seq![v] =~= stk(self.stack@).push(v)); }
        assert forall|n: T, f: F, i: In| #[trigger] rx_find(Rx { src: "(?P<"@ + n + ">"@ + re_src(f) + ")"@, ml: false, ic: false }, i) == num_find(f, i) by { assert(re_named(Some(n), f) == "(?P<"@ + n + ">"@ + re_src(f) + ")"@); }
        assert forall|f: F, i: In| #[trigger] rx_find(Rx { src: "(?:"@ + re_src(f) + ")"@, ml: false, ic: false }, i) == num_find(f, i) by { assert(re_named(None, f) == "(?:"@ + re_src(f) + ")"@); } }
//@@ spec
    requires old(self).wf(), old(self).captures.has(old(self).match_pattern_id.v as int, 0), capture_group matches Some(c) ==> old(self).captures.has(old(self).match_pattern_id.v as int, c.group_id as int)
    ensures final(self).same(old(self)), final(self).captures.pat() == old(self).captures.pat(), final(self).wf(), final(self).match_pattern_id == old(self).match_pattern_id,
        final(self).gives(old(self), r, num_part(format, capture_group is Some, old(self).cursor.i()))
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: evaluate_constraint
//@@ pre `assert_eq!(constraint, Constraint::Eq);` => `rt_assert(match constraint { Constraint::Eq => true });`
//@@ pre `self.stack.last().expect($x)` => `(&self.stack[self.stack.len() - 1])`
//@@ pre `CheckFailedError::MatchFoundConstraintFailed { $x }` => `rt_cfe()`
//@@ ret r
//@@ spec
    requires old(self).wf(), old(self).stack@.len() > 0
    ensures *final(self) == *old(self), match constraint_of(*expr, old_cx(context), stk(old(self).stack@).last()) { Run::Bad => r is Err, Run::Miss => r matches Ok(m) && !m.good(), _ => r matches Ok(m) && m.good() }
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: match_substitution
//@@ pre `Err(Report::new($x))` => `Err(rt_err())`
//@@ pre `num.to_string()` => `rt_num_string(&num)`
//@@ pre `regex_syntax::escape(s.as_ref())` => `rt_escape(&s)`
//@@ pre `.map_err(|error| $x)?` => `?`
//@@ pre `Some(pattern_source.as_ref())` => `None`
//@@ ret r
//@@ at entry
    proof { broadcast use {ax_rx, ax_escaped, ax_plain, ax_plain_builds}; assert forall|v: int, f: F| representable(v, f) && fits(v) implies plain(#[trigger] writes(v, f)) by { lemma_plain(v, f); } }
//@@ spec
    requires old(self).wf(), old(self).captures.has(old(self).match_pattern_id.v as int, 0)
    ensures final(self).same(old(self)), final(self).captures.pat() == old(self).captures.pat(), final(self).wf(), final(self).match_pattern_id == old(self).match_pattern_id,
        final(self).gives(old(self), r, subst_part(ty, *expr, old_cx(context), old(self).cursor.i()))
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: match_part
//@@ pre `Some(source.inner())` => `None`
//@@ ret r
//@@ at entry
    proof { assert(part is Regex ==> (part->captures@.len() == 0 ==> caps_of(part->pattern.x(), self.cursor.i(), part->captures@) == Seq::<Av>::empty())); }
//@@ spec
    requires old(self).wf(), is_part(*part), groups_ok(*part, old(self).captures.gi(), old(self).match_pattern_id.v + 1), part matches MatchOp::Literal(m) ==> m.searcher.can(old(self).cursor.i())
    ensures final(self).same(old(self)), final(self).captures.pat() == old(self).captures.pat(), final(self).wf(), final(self).match_pattern_id.v == old(self).match_pattern_id.v + 1,
        final(self).gives(old(self), r, part_of(*part, old_cx(context), old(self).cursor.i()))
//@@ end

//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: match_parts
//@@ opt #[verifier::rlimit(100)]
//@@ opt #[verifier::spinoff_prover]
//@@ pre `for part in parts.iter() { $X }` => `let mut rt_i = 0; while rt_i < parts.len() { let part = &parts[rt_i]; rt_i += 1; $X }`
//@@ pre `value.as_numeric($a).map(Expr::Num).map(Value::Num).map_err($b)?` => `(match value.as_numeric($a) { Ok(rt_v) => Value::Num(Expr::Num(rt_v)), Err(rt_e) => return Err(rt_e) })`
//@@ pre `self.stack.pop().expect($x)` => `self.stack.pop().unwrap()`
//@@ pre `..matched.span.end().to_usize()` => `rt_to(matched.span.end().to_usize())`
//@@ pre `PatternID::ZERO` => `PatternID::rt_zero()`
//@@ ret r
//@@ at entry
    let ghost o0 = *self; let ghost i0 = self.input.i(); let ghost c0 = context.cfg(); let ghost x0 = *context; let ghost mut m = Ms { b: bv(context.scope.bindings.b()), st: stk(self.stack@), p: self.match_end as int };
    let ghost all = run_ops(parts@, 0, m, c0, i0);
//@@ loop 0
    invariant rt_i <= parts@.len(), self.wf(), self.frame(&o0), i0 == o0.input.i(), c0 == context.cfg(), run_ops(parts@, rt_i as int, m, c0, i0) == all,
        m.b == bv(context.scope.bindings.b()), m.st == stk(self.stack@), m.p == self.match_end, self.cursor.i() == (In { s: m.p, anch: true, ..i0 }), self.match_start == o0.match_start,
        ops_ok(parts@, rt_i as int, m.st.len() as int, self.captures.gi(), self.match_pattern_id.v as int),
        same_guard(&x0, context), o0 == *old(self), x0 == *old(context), no_expr(m.st),
        all == run_ops(parts@, 0, Ms { b: bv(x0.scope.bindings.b()), st: stk(o0.stack@), p: o0.match_end as int }, c0, i0),
    decreases parts@.len() - rt_i
//@@ at loop 0 start
    proof { broadcast use {ax_rx, ax_text, ax_num, lemma_bv_ins}; lemma_run_step(parts@, rt_i as int, m, c0, i0); lemma_ok_step(parts@, rt_i as int, m.st.len() as int, self.captures.gi(), self.match_pattern_id.v as int); lemma_stk_pop(self.stack@); lemma_part(parts@[rt_i as int], m.b, c0, In { s: m.p, anch: true, ..i0 }); lemma_delta(parts@[rt_i as int], m.b, c0, In { s: m.p, anch: true, ..i0 }, self.captures.gi(), self.match_pattern_id.v + 1); }
    let ghost nx = step(parts@[rt_i as int], m, c0, i0);
//@@ at loop 0 end
    proof { m = nx->Good_0; }
//@@ spec
    requires old(self).wf(), old(self).cursor.i() == (In { s: old(self).match_end as int, anch: true, ..old(self).input.i() }), ops_ok(parts@, 0, old(self).stack@.len() as int, old(self).captures.gi(), old(self).match_pattern_id.v as int)
    ensures final(self).wf(), final(self).frame(old(self)), same_guard(old(context), final(context)),
        match run_ops(parts@, 0, Ms { b: bv(old(context).scope.bindings.b()), st: stk(old(self).stack@), p: old(self).match_end as int }, old(context).cfg(), old(self).input.i()) {
            Run::Bad => r is Err,
            Run::Miss => r matches Ok(m) && !m.good(),
            Run::Good(n) => r matches Ok(m) && m.good() && final(self).captures.hit() == Some((old(self).match_start as int, n.p)) && bv(final(context).scope.bindings.b()) == n.b && final(self).match_end == n.p,
        }
//@@ end
    /// ready for an attempt at the start of the cursor
    pub open spec fn ready(&self) -> bool {
        self.wf() && self.stack@.len() == 0 && self.match_pattern_id.v == 0 && self.match_start == self.match_end && self.cursor.i() == (In { s: self.match_end as int, ..self.input.i() }) && self.captures.pat() is None
    }
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: search_captures_guarded
//@@ sub? `std :: ops :: ControlFlow` => `ControlFlow`
//@@ ret r
//@@ at entry
    let ghost b0 = bv(guard.scope.bindings.b()); let ghost c0 = guard.cfg(); let ghost i0 = self.cursor.i(); let ghost o0 = *self; let ghost g0 = guard;
    proof { broadcast use lemma_bv_merged; lemma_part(*prefix, b0, c0, i0); lemma_delta(*prefix, b0, c0, i0, self.captures.gi(), 1);
        let x = part(*prefix, b0, c0, i0); let m = Ms { b: b0, st: x->Hit_2, p: x->Hit_1 };
        lemma_run_input(rest@, 0, m, c0, i0, self.input.i()); lemma_grows(rest@, 0, m, c0, i0); let n = run_ops(rest@, 0, m, c0, i0)->Good_0; if ext(b0, n.b) { lemma_merged_ext(b0, n.b); }
        assert(stk(self.stack@) + x->Hit_2 =~= x->Hit_2); }
//@@ spec
    requires old(self).ready(), start_ok(*prefix, rest@, old(self).captures.gi()), old(guard.scope.parent).b() == guard.scope.bindings.b(), *old(guard.cursor.guarded) == guard.cursor.cursor,
    ensures final(self).frame(old(self)), final(self).captures.wf(), pairs_ok(final(self).captures.slots(), old(self).input.buffer@.len() as int), *final(guard.cursor.guarded) == *old(guard.cursor.guarded),
        match attempt(*prefix, rest@, bv(guard.scope.bindings.b()), guard.cfg(), old(self).cursor.i()) {
            One::Bad => r matches ControlFlow::Break(x) && x is Err && final(guard.scope.parent).b() == old(guard.scope.parent).b(),
            One::No => r matches ControlFlow::Break(x) && x is Ok && final(self).captures.hit() is None && final(guard.scope.parent).b() == old(guard.scope.parent).b(),
            One::Again(s) => r is Continue && final(self).ready() && final(self).match_end == s && final(guard.scope.parent).b() == old(guard.scope.parent).b(),
            One::Found(x, y, n) => r matches ControlFlow::Break(z) && z is Ok && final(self).captures.hit() == Some((x, y)) && bv(final(guard.scope.parent).b()) == n,
        }
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: impl SmartSearcher#0 :: search_captures
//@@ sig `pub fn search_captures<'context, C: Context<'input, 'context>>(self, ops: &[MatchOp<'a>], context: &mut C) -> (r: DiagResult<()>)`
//@@ pre `ops.split_first().expect($x)` => `rt_split(ops)`
//@@ pre `break result` => `return result`
//@@ loop 0
    invariant rt_self.frame(&s0), rt_self.ready(), start_ok(*prefix, rest@, s0.captures.gi()), i0 == s0.input.i(), s0 == self,
        context.bs() == b0, context.cf() == c0, context.cur() == u0, u0 == old(context).cur(), b0 == old(context).bs(), c0 == old(context).cf(), ops@[0] == *prefix, ops@.skip(1) == rest@,
        search(*prefix, rest@, bv(b0), c0, In { s: rt_self.match_end as int, ..i0 }) == search(*prefix, rest@, bv(b0), c0, i0),
    decreases i0.e + 1 - rt_self.match_end
//@@ at loop 0 start
    proof { lemma_part(*prefix, bv(b0), c0, In { s: rt_self.match_end as int, ..i0 }); }
//@@ at entry
    let ghost s0 = self; let ghost b0 = context.bs(); let ghost c0 = context.cf(); let ghost u0 = context.cur(); let ghost i0 = self.input.i();
//@@ spec
    requires self.ready(), starts_ok(ops@, self.captures.gi()), self.input.lo() == self.match_end
    ensures (*final(self.captures)).gi() == old(self.captures).gi(), (*final(self.captures)).wf(), pairs_ok((*final(self.captures)).slots(), self.input.buffer@.len() as int), final(context).cf() == old(context).cf(), final(context).cur() == old(context).cur(),
        match search(ops@[0], ops@.skip(1), bv(old(context).bs()), old(context).cf(), self.input.i()) {
            One::Bad => r is Err && final(context).bs() == old(context).bs(),
            One::Found(x, y, n) => r is Ok && (*final(self.captures)).hit() == Some((x, y)) && bv(final(context).bs()) == n,
            _ => r is Ok && (*final(self.captures)).hit() is None && final(context).bs() == old(context).bs(),
        }
//@@ end
}
#[verifier::external_body] // <[_]>::split_first
fn rt_split<'b, 'a>(x: &'b [MatchOp<'a>]) -> (r: (&'b MatchOp<'a>, &'b [MatchOp<'a>])) requires x@.len() > 0 ensures *r.0 == x@[0], r.1@ == x@.skip(1) { unimplemented!() }

// ---------------------------------------------------------------- a whole pattern
/// what a captured text becomes
pub open spec fn conv(t: T, ty: ValueType) -> Option<Av> { match ty { ValueType::String => Some(Av::S(t)), ValueType::Number(f) => match reads(t, eff(f)) { Some(v) => Some(Av::N(v, Some(eff(f)))), None => None } } }
//@@ fn filecheck/src/pattern/matcher/matchers/regex.rs :: fn try_convert_capture_to_type
//@@ sig `pub fn try_convert_capture_to_type<'input, 'context, C: Context<'input, 'context>>(pattern_id: PatternID, group_id: usize, pattern_span: SourceSpan, overall_span: SourceSpan, captured: Span<&'input str>, capture: Capture, captures: &Captures, context: &C) -> (r: Result<CaptureInfo<'input>, CheckFailedError>)`
//@@ pre `CheckFailedError::MatchFoundConstraintFailed { $x }` => `rt_cfe()`
//@@ pre `format.unwrap_or_default()` => `rt_or_default(format)`
//@@ spec
    ensures match conv(captured.spanned@, capture.vt()) { Some(v) => r matches Ok(c) && av(c.value) == v && c.capture == capture, None => r is Err }
//@@ end
impl<'a> MatchOp<'a> {
    pub open spec fn groups(&self) -> Seq<CaptureGroup> { match self { MatchOp::Regex { captures, .. } => captures@, MatchOp::Numeric { capture: Some(c), .. } => seq![*c], _ => Seq::empty() } }
}
pub open spec fn own_groups(op: MatchOp, g: GroupInfo) -> bool { forall|j: int| 0 <= j < op.groups().len() ==> g.g().slots.dom().contains(((#[trigger] op.groups()[j]).pattern_id.v as int, op.groups()[j].group_id as int)) }
pub proof fn lemma_own(ops: Seq<MatchOp>, k: int, d: int, g: GroupInfo, p: int) requires 0 <= k, ops_ok(ops, k, d, g, p) ensures forall|j: int| k <= j < ops.len() ==> own_groups(#[trigger] ops[j], g) decreases ops.len() - k
{ if k < ops.len() { lemma_ok_step(ops, k, d, g, p); lemma_own(ops, k + 1, d + delta(ops[k]), g, if is_part(ops[k]) { p + 1 } else { p });  } }
//@@ fn filecheck/src/pattern/matcher/matchers/smart.rs :: fn capture_group_to_capture_info
//@@ sig `fn capture_group_to_capture_info<'input, 'context, C: Context<'input, 'context>>(overall_span: SourceSpan, pattern_span: SourceSpan, group: &CaptureGroup, captures: &Captures, slots: &[Option<NonMaxUsize>], context: &C, input: &Input<'input>) -> (r: Result<Option<CaptureInfo<'input>>, CheckFailedError>)`
//@@ pre `.expect($x)` => `.unwrap()`
//@@ pre `slots[a].map(|offset| $x)` => `(match slots[a] { Some(offset) => Some($x), None => None })`
//@@ pre `super::regex::try_convert_capture_to_type($x).map(Some)` => `(match try_convert_capture_to_type($x) { Ok(rt_v) => Ok(Some(rt_v)), Err(rt_e) => Err(rt_e) })`
//@@ at entry
    proof { broadcast use ax_slots; reveal(pairs_ok); let k = captures.gi().g().slots[(group.pattern_id.v as int, group.group_id as int)]; assert(pair_ok(slots@, k, input.buffer@.len() as int)); }
//@@ spec
    requires input.wf(), captures.wf(), slots@ == captures.slots(), pairs_ok(slots@, input.buffer@.len() as int), captures.has(group.pattern_id.v as int, group.group_id as int)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart.rs :: fn extract_captures_from_match
//@@ sig `fn extract_captures_from_match<'a, 'input, 'context, C: Context<'input, 'context>>(pattern_span: SourceSpan, matched: regex_automata::Match, captures: &Captures, patterns: &[MatchOp<'a>], context: &C) -> (r: DiagResult<MatchResult<'input>>)`
//@@ pre `captures.slots()` => `captures.rt_slots()`
//@@ pre `use crate::ast::Capture;` => ` `
//@@ pre `for op in patterns { $X }` => `let mut rt_i = 0; while rt_i < patterns.len() { let op = &patterns[rt_i]; rt_i += 1; $X }`
//@@ pre `for group in group_captures.iter() { $X }` => `let mut rt_j = 0; while rt_j < group_captures.len() { let group = &group_captures[rt_j]; rt_j += 1; $X }`
//@@ ret r
//@@ loop 0
    invariant rt_i <= patterns@.len(), forall|j: int| 0 <= j < patterns@.len() ==> own_groups(#[trigger] patterns@[j], captures.gi()), captures.wf(), slots@ == captures.slots(), input.wf(), pairs_ok(slots@, input.buffer@.len() as int), overall_span.s() == matched.h().0, overall_span.e() == matched.h().1
    decreases patterns@.len() - rt_i
//@@ at loop 0 start
    proof { let o = patterns@[rt_i as int]; assert(own_groups(o, captures.gi())); if o is Numeric && o->Numeric_capture is Some { assert(o.groups()[0] == o->Numeric_capture->0); } }
//@@ loop 1
    invariant rt_j <= group_captures@.len(), rt_i > 0, rt_i <= patterns@.len(), op == patterns@[rt_i - 1], op is Regex, op.groups() == group_captures@, own_groups(*op, captures.gi()), captures.wf(), slots@ == captures.slots(), input.wf(), pairs_ok(slots@, input.buffer@.len() as int),
    decreases group_captures@.len() - rt_j
//@@ at loop 1 start
    proof { assert(op.groups()[rt_j as int] == group_captures@[rt_j as int]); }
//@@ spec
    requires context.cur().wf(), matched.h().0 <= matched.h().1 <= u32::MAX, captures.wf(), pairs_ok(captures.slots(), context.cur().buffer@.len() as int), forall|j: int| 0 <= j < patterns@.len() ==> own_groups(#[trigger] patterns@[j], captures.gi())
    ensures r matches Ok(m) && (m.good() ==> m.hit() == Some(matched.h()))
//@@ end
//@@ item filecheck/src/pattern/matcher/matchers/smart.rs :: struct SmartMatcher
//@@ end
impl<'a> SmartMatcher<'a> {
//@@ fn filecheck/src/pattern/matcher/matchers/smart.rs :: impl SmartMatcher :: group_info
//@@ ret r
//@@ spec
    ensures *r == self.group_info
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart.rs :: impl MatcherMut for SmartMatcher :: try_match_mut
//@@ sig `fn try_match_mut<'input, 'context, C: Context<'input, 'context>>(&self, input: Input<'input>, context: &mut C) -> (r: DiagResult<MatchResult<'input>>)`
//@@ pre `self.group_info().clone()` => `GroupInfo::clone(self.group_info())`
//@@ at before `if let Some(matched)`
    proof { broadcast use ax_slots; reveal(pairs_ok); let k = self.group_info.g().slots[(captures.pat()->0.v as int, 0)]; if captures.hit() is Some { assert(pair_ok(captures.slots(), k, input.buffer@.len() as int)); } }
//@@ pre `CheckFailedError::match_none($x)` => `rt_cfe()`
//@@ at entry
    proof { lemma_own(self.parts@.skip(1), 0, delta(self.parts@[0]), self.group_info, 1); assert forall|j: int| 0 <= j < self.parts@.len() implies own_groups(#[trigger] self.parts@[j], self.group_info) by { if j > 0 { assert(self.parts@.skip(1)[j - 1] == self.parts@[j]); } };
       assert forall|c: Captures, n: int| (forall|k: int| 0 <= k < c.slots().len() ==> (#[trigger] c.slots()[k]) is None) implies #[trigger] pairs_ok(c.slots(), n) by { lemma_pairs_none(c.slots(), n); } }
//@@ spec
    requires input.wf(), old(context).cur().wf(), old(context).cur().buffer == input.buffer, starts_ok(self.parts@, self.group_info)
    ensures final(context).cf() == old(context).cf(), final(context).cur() == old(context).cur(),
        match search(self.parts@[0], self.parts@.skip(1), bv(old(context).bs()), old(context).cf(), input.i()) {
            One::Bad => r is Err && final(context).bs() == old(context).bs(),
            One::Found(x, y, n) => r matches Ok(m) && (m.good() ==> m.hit() == Some((x, y))) && bv(final(context).bs()) == n,
            _ => r matches Ok(m) && !m.good() && m.info is None && final(context).bs() == old(context).bs(),
        }
//@@ end
}
}
fn main() {}
