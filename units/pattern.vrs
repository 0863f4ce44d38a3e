//@@ include smart.vrs
// from the parts of a directive to what is searched for
verus! {
use regex_automata::util::syntax;
// ---------------------------------------------------------------- the regex crates, continued
pub uninterp spec fn rx_names(x: Rx) -> Seq<Option<T>>; // the names of the groups, in order
pub broadcast axiom fn ax_names(x: Rx) ensures #[trigger] rx_names(x).len() > 0, rx_names(x)[0] is None, forall|i: int, j: int| 0 <= i < j < rx_names(x).len() && rx_names(x)[i] is Some ==> rx_names(x)[i] != rx_names(x)[j];
pub broadcast axiom fn ax_whole(x: Rx, i: In) ensures #[trigger] rx_group(x, i, 0) == rx_find(x, i);
impl GroupInfo {
    pub uninterp spec fn names(&self) -> Seq<Seq<Option<T>>>; // per pattern
    #[verifier::external_body]
    pub fn group_len(&self, p: PatternID) -> (r: usize) requires p.v < self.names().len() ensures r == self.names()[p.v as int].len() { unimplemented!() }
    #[verifier::external_body]
    pub fn pattern_len(&self) -> (r: usize) ensures r == self.names().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_index(&self, p: PatternID, n: &str) -> (r: Option<usize>) requires p.v < self.names().len()
        ensures match r { Some(g) => g < self.names()[p.v as int].len() && self.names()[p.v as int][g as int] == Some(n@), None => !self.names()[p.v as int].contains(Some(n@)) } { unimplemented!() }
    #[verifier::external_body] // pattern_names
    pub fn rt_names(&self, p: PatternID) -> (r: Vec<Option<&str>>) requires p.v < self.names().len()
        ensures r@.len() == self.names()[p.v as int].len(), forall|i: int| 0 <= i < r@.len() ==> (match #[trigger] r@[i] { Some(s) => Some(s@), None => None }) == self.names()[p.v as int][i] { unimplemented!() }
    #[verifier::external_body] // names of one pattern differ: not checked here, see DESIGN.md
    pub fn new(raw: Vec<Vec<Option<Symbol>>>) -> (r: Result<GroupInfo, ()>) requires forall|p: int| 0 <= p < raw@.len() ==> (#[trigger] raw@[p])@.len() > 0 && raw@[p]@[0] is None
        ensures r is Ok, info_of(r->Ok_0, lens(raw@)) { unimplemented!() }
}
impl Regex {
    #[verifier::external_body]
    pub fn group_info(&self) -> (r: &GroupInfo) ensures r.names() == seq![rx_names(self.x())] { unimplemented!() }
}
impl PatternID { pub fn as_usize(&self) -> (r: usize) ensures r == self.v { self.v } }
pub open spec fn lens<X>(raw: Seq<Vec<X>>) -> Seq<int> { raw.map_values(|v: Vec<X>| v@.len() as int) }
pub open spec fn info_of(g: GroupInfo, l: Seq<int>) -> bool { forall|p: int, k: int| #[trigger] g.g().slots.dom().contains((p, k)) == (0 <= p < l.len() && 0 <= k < l[p]) }
#[verifier::external_body] // &mut v[i]
pub fn rt_row<X>(v: &mut Vec<X>, i: usize) -> (r: &mut X) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body] // vec![x; n]
pub fn rt_vec(x: Capture, n: usize) -> (r: Vec<Capture>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }

// ---------------------------------------------------------------- texts
pub open spec fn blank(c: char) -> bool { c == '\t' || c == '\u{00A0}' || c == '\u{1680}' || ('\u{2000}' <= c <= '\u{200A}') || c == '\u{202F}' || c == '\u{205F}' || c == '\u{3000}' }
/// every horizontal whitespace is a space
pub open spec fn canon(s: T, strict: bool) -> T { if strict { s } else { s.map_values(|c: char| if blank(c) { ' ' } else { c }) } }
impl<'a> Cow<'a, str> {
    #[verifier::external_body] // contains(is_non_canonical_horizontal_whitespace)
    pub fn rt_any_blank(&self) -> (r: bool) ensures r == (exists|i: int| 0 <= i < self.t().len() && blank(#[trigger] self.t()[i])) { unimplemented!() }
    #[verifier::external_body] // replace(is_non_canonical_horizontal_whitespace, " ")
    pub fn rt_blanks(&self, by: &str) -> (r: String) requires by@.len() == 1 ensures r@ == self.t().map_values(|c: char| if blank(c) { by@[0] } else { c }) { unimplemented!() }
    #[verifier::external_body] // Deref to str
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.t().len() == 0) { unimplemented!() }
}
//@@ fn core/src/text/mod.rs :: fn is_non_canonical_horizontal_whitespace
//@@ ret r
//@@ spec
    ensures r == blank(c)
//@@ end
//@@ fn core/src/text/mod.rs :: fn canonicalize_horizontal_whitespace
//@@ pre `s.contains(is_non_canonical_horizontal_whitespace)` => `s.rt_any_blank()`
//@@ pre `s.replace(is_non_canonical_horizontal_whitespace, $x)` => `s.rt_blanks($x)`
//@@ ret r
//@@ at entry
    proof { reveal_strlit(" "); if forall|i: int| 0 <= i < s.t().len() ==> !blank(#[trigger] s.t()[i]) { assert(canon(s.t(), false) =~= s.t()); } }
//@@ spec
    ensures r.t() == canon(s.t(), strict_whitespace)
//@@ end
pub open spec fn cfg_of(c: &Config, text: Seq<u8>) -> Cf { Cf { text, ic: c.options.ignore_case } }

// ---------------------------------------------------------------- literals
pub enum MatchKind { Standard, LeftmostFirst, LeftmostLongest } // the same for a single text
pub enum AhoCorasickKind { NoncontiguousNFA, ContiguousNFA, DFA }
pub struct AhoCorasickBuilder { pub k: StartKind, pub ic: bool }
impl AhoCorasickBuilder {
    pub fn new() -> (r: Self) ensures r.k is Unanchored, !r.ic { AhoCorasickBuilder { k: StartKind::Unanchored, ic: false } }
    pub fn match_kind(self, k: MatchKind) -> (r: Self) ensures r == self { self }
    pub fn kind(self, k: Option<AhoCorasickKind>) -> (r: Self) ensures r == self { self }
    pub fn start_kind(self, k: StartKind) -> (r: Self) ensures r == (AhoCorasickBuilder { k, ..self }) { AhoCorasickBuilder { k, ..self } }
    pub fn ascii_case_insensitive(self, ic: bool) -> (r: Self) ensures r == (AhoCorasickBuilder { ic, ..self }) { AhoCorasickBuilder { ic, ..self } }
    #[verifier::external_body] // build of one text; too large ones are refused
    pub fn build(self, s: &Cow<'_, str>) -> (r: Result<AhoCorasick, Report>) ensures r matches Ok(a) ==> a.w() == s.t() && a.ic() == self.ic && a.kind() == self.k { unimplemented!() }
}
impl<'a> SubstringMatcher<'a> {
    pub open spec fn of(&self, t: T, k: StartKind, c: &Config) -> bool { self.searcher.w() == canon(t, c.options.strict_whitespace) && self.searcher.ic() == c.options.ignore_case && self.searcher.kind() == k }
//@@ fn filecheck/src/pattern/matcher/matchers/substring.rs :: impl SubstringMatcher :: new
//@@ ret r
//@@ spec
    requires pattern.spanned.t().len() > 0
    ensures r matches Ok(m) ==> m.of(pattern.spanned.t(), StartKind::Unanchored, config)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/substring.rs :: impl SubstringMatcher :: new_with_start_kind
//@@ pre `!pattern.is_empty()` => `!pattern.spanned.is_empty()`
//@@ pre `pattern.map(|p| $x)` => `({ let (rt_s, p) = pattern.into_parts(); Span::new(rt_s, $x) })`
//@@ pre `text::canonicalize_horizontal_whitespace` => `canonicalize_horizontal_whitespace`
//@@ pre `.build([pattern.as_ref()]).map_err(|err| $x)?` => `.build(&pattern)?`
//@@ ret r
//@@ spec
    requires pattern.spanned.t().len() > 0
    ensures r matches Ok(m) ==> m.of(pattern.spanned.t(), start_kind, config)
//@@ end
}

// ---------------------------------------------------------------- regular expressions
//@@ item filecheck/src/ast/pattern.rs :: struct RegexPattern
//@@ sub `SmallVec<[Capture; 1]>` => `Vec<Capture>`
//@@ end
//@@ item filecheck/src/pattern/matcher/matchers/regex.rs :: struct RegexMatcher
//@@ end
impl<'a> RegexPattern<'a> {
    pub open spec fn x(&self, c: &Config) -> Rx { Rx { src: self.pattern.spanned.t(), ml: true, ic: c.options.ignore_case } }
    /// its captures stand for groups of their own
    pub open spec fn caps_ok(&self, c: &Config) -> bool {
        rx_builds(self.x(c)) ==> forall|j: int| 0 <= j < self.captures@.len() ==> cap_ok(#[trigger] self.captures@[j], self.x(c))
    }
//@@ fn filecheck/src/ast/pattern.rs :: impl RegexPattern :: new
//@@ pre `smallvec![]` => `Vec::new()`
//@@ ret r
//@@ spec
    ensures r.pattern == pattern, r.captures@.len() == 0
//@@ end
}
pub open spec fn cap_ok(c: Capture, x: Rx) -> bool { c is Ignore || (c.gn() matches Some(n) && rx_names(x).contains(Some(n)) && forall|g: int, i: In| 0 <= g < rx_names(x).len() && #[trigger] rx_names(x)[g] == Some(n) && (#[trigger] rx_find(x, i)) is Some ==> rx_group(x, i, g) is Some) }
pub open spec fn same_groups(a: Seq<Capture>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n && (#[trigger] a[i]).gn() is Some ==> a[i].gn() != (#[trigger] a[j]).gn() }
/// which capture each group of a regular expression belongs to
pub open spec fn table(t: Seq<Capture>, caps: Seq<Capture>, n: int, names: Seq<Option<T>>) -> bool {
    t.len() == names.len()
    && (forall|g: int| 0 <= g < t.len() ==> (#[trigger] t[g]) is Ignore || (exists|j: int| 0 <= j < n && #[trigger] caps[j] == t[g] && caps[j].gn() == names[g]))
    && (forall|j: int| 0 <= j < n && !((#[trigger] caps[j]) is Ignore) ==> exists|g: int| 0 <= g < t.len() && #[trigger] t[g] == caps[j] && names[g] == caps[j].gn())
}
pub proof fn lemma_table(t: Seq<Capture>, caps: Seq<Capture>, k: int, names: Seq<Option<T>>)
    requires table(t, caps, k, names), 0 <= k < caps.len(), same_groups(caps, caps.len() as int), forall|i: int, j: int| 0 <= i < j < names.len() && #[trigger] names[i] is Some ==> names[i] != #[trigger] names[j],
        forall|j: int| 0 <= j < caps.len() ==> (#[trigger] caps[j]) is Ignore || caps[j].gn() is Some
    ensures caps[k] is Ignore ==> table(t, caps, k + 1, names), forall|g: int| 0 <= g < t.len() && names[g] == caps[k].gn() && !(caps[k] is Ignore) ==> table(#[trigger] t.update(g, caps[k]), caps, k + 1, names)
{
    assert forall|g: int| 0 <= g < t.len() && names[g] == caps[k].gn() && !(caps[k] is Ignore) implies table(#[trigger] t.update(g, caps[k]), caps, k + 1, names) by {
        let u = t.update(g, caps[k]);
        assert forall|h: int| 0 <= h < u.len() && !((#[trigger] u[h]) is Ignore) implies exists|j: int| 0 <= j < k + 1 && #[trigger] caps[j] == u[h] && caps[j].gn() == names[h] by {
            if h == g { assert(caps[k] == u[h]); } else { assert(u[h] == t[h]); let j = choose|j: int| 0 <= j < k && #[trigger] caps[j] == t[h] && caps[j].gn() == names[h]; assert(caps[j] == u[h]); }
        }
        assert forall|j: int| 0 <= j < k + 1 && !((#[trigger] caps[j]) is Ignore) implies exists|h: int| 0 <= h < u.len() && #[trigger] u[h] == caps[j] && names[h] == caps[j].gn() by {
            if j == k { assert(u[g] == caps[j]); } else { let h = choose|h: int| 0 <= h < t.len() && #[trigger] t[h] == caps[j] && names[h] == caps[j].gn(); assert(caps[j].gn() is Some); assert(caps[j].gn() != caps[k].gn()); assert(h != g); assert(u[h] == caps[j]); }
        }
    }
    if caps[k] is Ignore {
        assert forall|h: int| 0 <= h < t.len() && !((#[trigger] t[h]) is Ignore) implies exists|j: int| 0 <= j < k + 1 && #[trigger] caps[j] == t[h] && caps[j].gn() == names[h] by {
            let j = choose|j: int| 0 <= j < k && #[trigger] caps[j] == t[h] && caps[j].gn() == names[h]; assert(caps[j] == t[h]); }
    }
}
impl<'a> RegexMatcher<'a> {
//@@ fn filecheck/src/pattern/matcher/matchers/regex.rs :: impl RegexMatcher :: new
//@@ pre `.build(pattern.as_ref()).map_err(|error| $x)?` => `.build(&pattern.pattern.spanned)?`
//@@ pre `pattern.span()` => `pattern.pattern.span()`
//@@ pre `PatternID::ZERO` => `PatternID::rt_zero()`
//@@ pre `vec![$x; $n]` => `rt_vec($x, $n)`
//@@ pre `for capture in pattern.captures.into_iter() { $X }` => `let mut rt_i = 0; while rt_i < pattern.captures.len() { let capture = pattern.captures[rt_i]; rt_i += 1; $X }`
//@@ pre `.unwrap_or_else(|| $x)` => `.unwrap()`
//@@ pre `captures[group_id] = capture` => `captures.set(group_id, capture)`
//@@ pre `assert_eq!($x);` => ` `
//@@ pre `captures[0] = capture` => `captures.set(0, capture)`
//@@ ret r
//@@ loop 0
    invariant rt_i <= pattern.captures@.len(), groups.names() == seq![rx_names(x)], x == pattern.x(config), rx_builds(x), pattern.caps_ok(config), same_groups(pattern.captures@, pattern.captures@.len() as int), table(captures@, pattern.captures@, rt_i as int, rx_names(x)), x == regex.x()
    decreases pattern.captures@.len() - rt_i
//@@ at loop 0 start
    proof { broadcast use ax_names; assert forall|j: int| 0 <= j < pattern.captures@.len() implies (#[trigger] pattern.captures@[j]) is Ignore || pattern.captures@[j].gn() is Some by { assert(cap_ok(pattern.captures@[j], x)); }; lemma_table(captures@, pattern.captures@, rt_i as int, rx_names(x)); }
//@@ at entry
    let ghost x = pattern.x(config);
    proof { broadcast use ax_names; }
//@@ spec
    requires pattern.caps_ok(config), rx_builds(pattern.x(config)) ==> same_groups(pattern.captures@, pattern.captures@.len() as int)
    ensures match r { Ok(m) => m.regex.x() == pattern.x(config) && rx_builds(m.regex.x()) && table(m.captures@, pattern.captures@, pattern.captures@.len() as int, rx_names(m.regex.x())), Err(_) => !rx_builds(pattern.x(config)) }
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/regex.rs :: impl RegexMatcher :: new_nocapture
//@@ pre `.build(pattern.inner().as_ref()).map_err(|error| $x)?` => `.build(&pattern.spanned)?`
//@@ pre `PatternID::ZERO` => `PatternID::rt_zero()`
//@@ pre `vec![$x; $n]` => `rt_vec($x, $n)`
//@@ ret r
//@@ at entry
    proof { broadcast use ax_names; }
//@@ spec
    ensures ({ let x = Rx { src: pattern.spanned.t(), ml: true, ic: config.options.ignore_case }; match r { Ok(m) => m.regex.x() == x && rx_builds(x) && table(m.captures@, Seq::empty(), 0, rx_names(x)), Err(_) => !rx_builds(x) } })
//@@ end
}
/// what the groups of a regular expression bind, in order, or none if a text is not of its type
pub open spec fn rx_binds(t: Seq<Capture>, x: Rx, i: In, b: B<Av>, n: int) -> Option<B<Av>> decreases n {
    if n <= 0 { Some(b) } else { match rx_binds(t, x, i, b, n - 1) {
        None => None,
        Some(c) => match rx_val(t[n - 1], x, i, n - 1) { Gv::Nothing => Some(c), Gv::Bad => None, Gv::Is(v) => Some(match t[n - 1].nm() { Some(name) => ins(c, name, v), None => c }) },
    } }
}
pub open spec fn bound<'a>(b: B<Value<'a>>, c: Seq<CaptureInfo<'a>>) -> B<Value<'a>> decreases c.len() { if c.len() == 0 { b } else { let d = bound(b, c.drop_last()); match c.last().capture.nm() { Some(n) => ins(d, n, c.last().value), None => d } } }
pub open spec fn binds_are<'a>(c: Seq<CaptureInfo<'a>>, t: Seq<Capture>, x: Rx, i: In, n: int) -> bool { forall|b: B<Value<'a>>| #![trigger bound(b, c)] rx_binds(t, x, i, bv(b), n) == Some(bv(bound(b, c))) }
pub open spec fn no_binds(t: Seq<Capture>, x: Rx, i: In, n: int) -> bool { forall|b: B<Value>| #[trigger] rx_binds(t, x, i, bv(b), n) is None }
pub proof fn lemma_no_binds(t: Seq<Capture>, x: Rx, i: In, k: int, n: int) requires no_binds(t, x, i, k), k <= n ensures no_binds(t, x, i, n) decreases n - k
{ if k < n { lemma_no_binds(t, x, i, k, n - 1); assert forall|b: B<Value>| #[trigger] rx_binds(t, x, i, bv(b), n) is None by { assert(rx_binds(t, x, i, bv(b), n - 1) is None); if n <= 0 { assert(rx_binds(t, x, i, bv(b), k) is None); } } } }
/// what a group of a regular expression captures
pub ghost enum Gv { Nothing, Bad, Is(Av) }
pub open spec fn rx_val(c: Capture, x: Rx, i: In, g: int) -> Gv { match rx_group(x, i, g) { None => Gv::Nothing, Some((s, e)) => match conv(utf8(i.b.subrange(s, e)), c.vt()) { None => Gv::Bad, Some(v) => Gv::Is(v) } } }
pub proof fn lemma_binds_step<'a>(c: Seq<CaptureInfo<'a>>, t: Seq<Capture>, x: Rx, i: In, n: int)
    requires 0 <= n < t.len(), binds_are(c, t, x, i, n)
    ensures rx_val(t[n], x, i, n) is Nothing ==> binds_are(c, t, x, i, n + 1),
        rx_val(t[n], x, i, n) is Bad ==> no_binds(t, x, i, n + 1),
        forall|v: CaptureInfo<'a>| rx_val(t[n], x, i, n) == Gv::Is(av(v.value)) && v.capture == t[n] ==> binds_are(#[trigger] c.push(v), t, x, i, n + 1),
{
    broadcast use lemma_bv_ins;
    assert forall|b: B<Value<'a>>| true implies rx_binds(t, x, i, bv(b), n + 1) == (match rx_val(t[n], x, i, n) { Gv::Nothing => Some(bv(bound(b, c))), Gv::Bad => None, Gv::Is(v) => Some(match t[n].nm() { Some(name) => ins(bv(bound(b, c)), name, v), None => bv(bound(b, c)) }) }) by { assert(rx_binds(t, x, i, bv(b), n) == Some(bv(bound(b, c)))); }
    assert forall|v: CaptureInfo<'a>| rx_val(t[n], x, i, n) == Gv::Is(av(v.value)) && v.capture == t[n] implies binds_are(#[trigger] c.push(v), t, x, i, n + 1) by {
        assert forall|b: B<Value<'a>>| rx_binds(t, x, i, bv(b), n + 1) == Some(bv(#[trigger] bound(b, c.push(v)))) by { assert(c.push(v).drop_last() =~= c); assert(bound(b, c.push(v)) == (match v.capture.nm() { Some(m) => ins(bound(b, c), m, v.value), None => bound(b, c) })); }
    }
}
impl<'input> MatchResult<'input> {
//@@ fn filecheck/src/pattern/matcher/result.rs :: impl MatchResult :: bind_captures_in
//@@ sig `pub fn bind_captures_in<'context, C: Context<'input, 'context>>(&self, context: &mut C)`
//@@ pre `if $a && let Some(info) = self.info.as_ref() { $X }` => `if $a { if let Some(info) = self.info.as_ref() { $X } }`
//@@ pre `for capture in info.captures.iter() { $X }` => `let mut rt_i = 0; while rt_i < info.captures.len() { let capture = &info.captures[rt_i]; rt_i += 1; $X }`
//@@ pre `context.env_mut().insert(` => `context.rt_insert(`
//@@ at entry
    let ghost b0 = context.bs(); let ghost x0 = *context;
//@@ loop 0
    invariant rt_i <= info.captures@.len(), self.info == Some(*info), context.bs() == bound(b0, info.captures@.take(rt_i as int)), context.cf() == old(context).cf(), context.cur() == old(context).cur()
    decreases info.captures@.len() - rt_i
//@@ at loop 0 end
    proof { assert(info.captures@.take(rt_i as int).drop_last() =~= info.captures@.take(rt_i - 1)); }
//@@ at end
    proof { if self.info is Some { let c = self.info->0.captures@; assert(c.take(c.len() as int) =~= c); } }
//@@ spec
    ensures final(context).cf() == old(context).cf(), final(context).cur() == old(context).cur(),
        final(context).bs() == (if self.ty is MatchFoundAndExpected && self.info is Some { bound(old(context).bs(), self.info->0.captures@) } else { old(context).bs() })
//@@ end
}
impl<'a> RegexMatcher<'a> {
//@@ fn filecheck/src/pattern/matcher/matchers/regex.rs :: impl Matcher for RegexMatcher :: try_match
//@@ sig `pub fn try_match<'input, 'context, C: Context<'input, 'context>>(&self, input: Input<'input>, context: &C) -> (r: DiagResult<MatchResult<'input>>)`
//@@ pre `input.into()` => `rt_into(input)`
//@@ pre `for (index, (maybe_capture_span, capture)) in captures.iter().zip(self.captures.iter().copied()).enumerate() { $X }` => `let mut rt_i = 0; while rt_i < self.captures.len() { let index = rt_i; let maybe_capture_span = captures.get_group(rt_i); let capture = self.captures[rt_i]; rt_i += 1; $X }`
//@@ pre `matched.pattern()` => `PatternID::rt_zero()`
//@@ pre `CheckFailedError::match_none($x)` => `rt_cfe()`
//@@ at entry
    let ghost x = self.regex.x(); let ghost i = input.i(); let ghost n = self.captures@.len() as int;
    proof { broadcast use {ax_rx, ax_group}; }
//@@ loop 0
    invariant rt_i <= n, n == self.captures@.len(), x == self.regex.x(), i == input.i(), input.wf(), rx_find(x, i) == Some(matched.h()), span.s() == matched.h().0, span.e() == matched.h().1, matched.h().1 <= u32::MAX,
        forall|g: int| #[trigger] captures.grp(g) == rx_group(x, i, g), binds_are(capture_infos@, self.captures@, x, i, rt_i as int)
    decreases n - rt_i
//@@ at loop 0 start
    proof { broadcast use {ax_rx, ax_group}; lemma_binds_step(capture_infos@, self.captures@, x, i, rt_i as int); if no_binds(self.captures@, x, i, rt_i + 1) { lemma_no_binds(self.captures@, x, i, rt_i + 1, n); } }
//@@ ret r
//@@ spec
    requires input.wf(), self.captures@.len() == rx_names(self.regex.x()).len()
    ensures r is Ok,
        r->Ok_0.good() ==> r->Ok_0.ty is MatchFoundAndExpected && r->Ok_0.hit() == rx_find(self.regex.x(), input.i()) && r->Ok_0.info is Some,
        !r->Ok_0.good() ==> r->Ok_0.info is None,
        rx_find(self.regex.x(), input.i()) is None ==> !r->Ok_0.good(),
        rx_find(self.regex.x(), input.i()) is Some && r->Ok_0.good() ==> binds_are(r->Ok_0.info->0.captures@, self.captures@, self.regex.x(), input.i(), self.captures@.len() as int),
        rx_find(self.regex.x(), input.i()) is Some && !r->Ok_0.good() ==> no_binds(self.captures@, self.regex.x(), input.i(), self.captures@.len() as int)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/regex.rs :: impl MatcherMut for RegexMatcher :: try_match_mut
//@@ sig `pub fn try_match_mut<'input, 'context, C: Context<'input, 'context>>(&self, input: Input<'input>, context: &mut C) -> (r: DiagResult<MatchResult<'input>>)`
//@@ spec
    requires input.wf(), self.captures@.len() == rx_names(self.regex.x()).len()
    ensures final(context).cf() == old(context).cf(), final(context).cur() == old(context).cur(),
        match rx_find(self.regex.x(), input.i()) {
            Some(h) => match rx_binds(self.captures@, self.regex.x(), input.i(), bv(old(context).bs()), self.captures@.len() as int) {
                Some(c) => r matches Ok(m) && m.good() && m.hit() == Some(h) && bv(final(context).bs()) == c,
                None => r matches Ok(m) && !m.good() && m.info is None && final(context).bs() == old(context).bs() },
            None => r matches Ok(m) && !m.good() && m.info is None && final(context).bs() == old(context).bs(),
        }
//@@ end
}

// ---------------------------------------------------------------- what the builder keeps true
pub open spec fn depth(ops: Seq<MatchOp>) -> int decreases ops.len() { if ops.len() == 0 { 0 } else { depth(ops.drop_last()) + delta(ops.last()) } }
pub open spec fn parts_in(ops: Seq<MatchOp>) -> int decreases ops.len() { if ops.len() == 0 { 0 } else { parts_in(ops.drop_last()) + if is_part(ops.last()) { 1int } else { 0 } } }
/// the groups of the `p`th part are registered, and capture whenever it matches
pub open spec fn groups_in(op: MatchOp, l: Seq<int>, p: int) -> bool {
    0 <= p < l.len() && l[p] > 0 && match op {
        MatchOp::Regex { pattern, captures, .. } => (forall|j: int| 0 <= j < captures@.len() ==> (#[trigger] captures@[j]).group_id < l[p] && captures@[j].pattern_id.v == p) && all_capture(pattern.x(), captures@),
        MatchOp::Numeric { capture: Some(c), .. } => c.group_id < l[p] && c.pattern_id.v == p,
        _ => true,
    }
}
pub open spec fn op_fits(ops: Seq<MatchOp>, j: int, l: Seq<int>) -> bool {
    if is_part(ops[j]) { groups_in(ops[j], l, parts_in(ops.take(j)) + 1) && (ops[j] matches MatchOp::Literal(m) ==> if j == 0 { m.searcher.kind() is Both } else { !(m.searcher.kind() is Unanchored) }) } else { j > 0 && depth(ops.take(j)) > 0 }
}
pub open spec fn fit(ops: Seq<MatchOp>, l: Seq<int>) -> bool { forall|j: int| 0 <= j < ops.len() ==> #[trigger] op_fits(ops, j, l) }
pub open spec fn longer(l: Seq<int>, m: Seq<int>) -> bool { l.len() <= m.len() && forall|p: int| 0 <= p < l.len() ==> l[p] <= #[trigger] m[p] }
pub broadcast proof fn lemma_fit_part(ops: Seq<MatchOp>, l: Seq<int>, op: MatchOp, m: Seq<int>)
    requires #[trigger] fit(ops, l), #[trigger] longer(l, m), is_part(op), groups_in(op, m, parts_in(ops) + 1), op matches MatchOp::Literal(x) ==> if ops.len() == 0 { x.searcher.kind() is Both } else { !(x.searcher.kind() is Unanchored) }
    ensures fit(#[trigger] ops.push(op), m), depth(ops.push(op)) == depth(ops) + delta(op), parts_in(ops.push(op)) == parts_in(ops) + 1
{
    let n = ops.push(op);
    assert(n.drop_last() =~= ops);
    assert forall|j: int| 0 <= j < n.len() implies #[trigger] op_fits(n, j, m) by {
        if j < ops.len() { assert(op_fits(ops, j, l)); assert(n.take(j) =~= ops.take(j)); let p = parts_in(ops.take(j)) + 1; if is_part(ops[j]) { assert(l[p] <= m[p]); } }
        else { assert(n.take(j) =~= ops); }
    }
}
pub broadcast proof fn lemma_fit_op(ops: Seq<MatchOp>, l: Seq<int>, op: MatchOp)
    requires #[trigger] fit(ops, l), !is_part(op), depth(ops) > 0
    ensures fit(#[trigger] ops.push(op), l), depth(ops.push(op)) == depth(ops) + delta(op), parts_in(ops.push(op)) == parts_in(ops)
{
    let n = ops.push(op);
    assert(n.drop_last() =~= ops);
    assert forall|j: int| 0 <= j < n.len() implies #[trigger] op_fits(n, j, l) by {
        if j < ops.len() { assert(op_fits(ops, j, l)); assert(n.take(j) =~= ops.take(j)); } else { assert(n.take(j) =~= ops); }
    }
}
pub proof fn lemma_fit_ok(ops: Seq<MatchOp>, l: Seq<int>, g: GroupInfo, k: int)
    requires fit(ops, l), info_of(g, l), 0 < k <= ops.len(), is_part(ops[0])
    ensures ops_ok(ops.skip(1), k - 1, depth(ops.take(k)), g, parts_in(ops.take(k))) decreases ops.len() - k
{
    if k < ops.len() {
        let r = ops.skip(1);
        assert(op_fits(ops, k, l));
        assert(r[k - 1] == ops[k]);
        assert(ops.take(k + 1).drop_last() =~= ops.take(k)); assert(ops.take(k + 1).last() == ops[k]);
        lemma_fit_ok(ops, l, g, k + 1);
    }
}
/// what has been registered makes a matcher which its search accepts
pub proof fn lemma_built(ops: Seq<MatchOp>, l: Seq<int>, g: GroupInfo) requires fit(ops, l), info_of(g, l), ops.len() > 0, l.len() > 0, l[0] > 0 ensures starts_ok(ops, g)
{
    assert(op_fits(ops, 0, l)); assert(ops.take(0) =~= Seq::<MatchOp>::empty());
    assert(ops.take(1).drop_last() =~= Seq::<MatchOp>::empty()); assert(ops.take(1).last() == ops[0]);
    assert(depth(ops.take(0)) == 0 && parts_in(ops.take(0)) == 0);
    lemma_fit_ok(ops, l, g, 1);
}
//@@ item filecheck/src/pattern/matcher/matchers/smart/builder.rs :: struct SmartMatcherBuilder
//@@ end
pub open spec fn raw_ok(raw: Seq<Vec<Option<Symbol>>>) -> bool { forall|p: int| 0 <= p < raw.len() ==> (#[trigger] raw[p])@.len() > 0 && raw[p]@[0] is None }
impl<'a> SmartMatcher<'a> {
//@@ fn filecheck/src/pattern/matcher/matchers/smart.rs :: impl SmartMatcher :: new
//@@ pre `.expect($x)` => `.unwrap()`
//@@ ret r
//@@ spec
    requires raw_ok(group_info@)
    ensures r.parts == parts, info_of(r.group_info, lens(group_info@))
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart.rs :: impl SmartMatcher :: build
//@@ ret r
//@@ spec
    ensures r.wf(), r.parts@.len() == 0, r.config == config
//@@ end
}
/// what captures a group each, in order
pub open spec fn kept(c: Seq<Capture>) -> Seq<Capture> decreases c.len() { if c.len() == 0 { c } else if c.last() is Ignore { kept(c.drop_last()) } else { kept(c.drop_last()).push(c.last()) } }
pub open spec fn stands_for(gs: Seq<CaptureGroup>, c: Seq<Capture>, x: Rx) -> bool { gs.len() == c.len() && forall|j: int| 0 <= j < gs.len() ==> (#[trigger] gs[j]).info == c[j] && gs[j].group_id < rx_names(x).len() && rx_names(x)[gs[j].group_id as int] == c[j].gn() }
pub open spec fn named(gs: Seq<CaptureGroup>) -> bool { forall|j: int| 0 <= j < gs.len() ==> (#[trigger] gs[j]).info.gn() is Some }
pub open spec fn unstacked(gs: Seq<CaptureGroup>) -> Seq<MatchOp<'static>> decreases gs.len() {
    if gs.len() == 0 { Seq::empty() } else { match gs.last().info.nm() { Some(n) => seq![MatchOp::Bind { name: n, ty: Some(gs.last().info.vt()) }] + unstacked(gs.drop_last()), None => unstacked(gs.drop_last()) } }
}
pub open spec fn typed(n: VariableName, ty: ValueType) -> Capture { Capture::Explicit(TypedVariable { name: n, ty }) }
// what each kind of block becomes
pub open spec fn low_subst(ops: Seq<MatchOp>, e: Expr, ty: Option<ValueType>) -> bool { ops.len() == 1 && ops[0] == (MatchOp::Substitution { expr: e, ty }) }
pub open spec fn num_op(op: MatchOp, f: Option<F>, c: Option<Capture>) -> bool { op matches MatchOp::Numeric { format, capture, .. } && format == f && match (c, capture) { (None, None) => true, (Some(x), Some(g)) => g.info == x, _ => false } }
pub open spec fn low_numeric(ops: Seq<MatchOp>, f: Option<F>) -> bool { ops.len() == 1 && num_op(ops[0], f, None) }
pub open spec fn con_op(op: MatchOp, c: Constraint, e: Expr) -> bool { op matches MatchOp::Constraint { constraint, expr, .. } && constraint == c && expr == e }
pub open spec fn low_anon(ops: Seq<MatchOp>, f: Option<F>, c: Constraint, e: Expr) -> bool { ops.len() == 3 && (ops[0] matches MatchOp::Numeric { format, capture: Some(_), .. } && format == f) && con_op(ops[1], c, e) && ops[2] is Drop }
pub open spec fn low_capture(ops: Seq<MatchOp>, n: VariableName, f: Option<F>) -> bool { ops.len() == 2 && num_op(ops[0], f, Some(typed(n, ValueType::Number(f)))) && ops[1] == (MatchOp::Bind { name: n, ty: Some(ValueType::Number(f)) }) }
pub open spec fn low_constrained(ops: Seq<MatchOp>, n: VariableName, f: Option<F>, c: Constraint, e: Expr) -> bool { ops.len() == 3 && num_op(ops[0], f, Some(typed(n, ValueType::Number(f)))) && con_op(ops[1], c, e) && ops[2] == (MatchOp::Bind { name: n, ty: Some(ValueType::Number(f)) }) }
pub open spec fn low_literal(ops: Seq<MatchOp>, t: T, c: &Config) -> bool { ops.len() == 1 && (ops[0] matches MatchOp::Literal(m) && m.searcher.w() == canon(t, c.options.strict_whitespace) && m.searcher.ic() == c.options.ignore_case) }
pub open spec fn low_regex(ops: Seq<MatchOp>, x: Rx, caps: Seq<Capture>) -> bool { ops.len() > 0 && (ops[0] matches MatchOp::Regex { pattern, captures, .. } && pattern.x() == x && stands_for(captures@, kept(caps), x) && ops.skip(1) == unstacked(captures@)) }
pub open spec fn group_src(n: VariableName, t: T) -> T { "(?P<"@ + n.sy().s() + ">"@ + t + ")"@ }
/// a regular expression by itself, as every block has to be
pub uninterp spec fn whole(t: T) -> bool;
/// a group around a whole pattern is named as given, and captures what the pattern matches
pub broadcast axiom fn ax_grouped(n: VariableName, t: T, ml: bool, ic: bool) ensures #![trigger rx_builds(Rx { src: group_src(n, t), ml, ic })] ({ let x = Rx { src: group_src(n, t), ml, ic };
    rx_builds(x) ==> rx_names(x).contains(Some(n.sy().s())) && (whole(t) ==> forall|g: int, i: In| 0 <= g < rx_names(x).len() && #[trigger] rx_names(x)[g] == Some(n.sy().s()) ==> #[trigger] rx_group(x, i, g) == rx_find(x, i)) });
pub open spec fn low_group(ops: Seq<MatchOp>, n: VariableName, t: T, c: &Config) -> bool {
    ops.len() == 2 && (ops[0] matches MatchOp::Regex { pattern, captures, .. } && pattern.x() == (Rx { src: group_src(n, t), ml: true, ic: c.options.ignore_case }) && stands_for(captures@, seq![typed(n, ValueType::String)], pattern.x())) && ops[1] == (MatchOp::Bind { name: n, ty: None })
}
//@@ item filecheck/src/ast/pattern.rs :: enum Match
//@@ end
impl<'a> Match<'a> { pub open spec fn block_ok(&self) -> bool { self matches Match::Substitution { pattern: Some(p), .. } ==> whole(p.spanned.t()) } }
/// the operations of a `[[...]]` block
pub open spec fn low_match(ops: Seq<MatchOp>, m: Match, c: &Config) -> bool {
    match m {
        Match::Substitution { name, pattern: None, .. } => low_subst(ops, Expr::Var(name), None),
        Match::Substitution { name, pattern: Some(p), .. } => low_group(ops, name, p.spanned.t(), c),
        Match::Numeric { format, capture: None, expr: None, .. } => low_numeric(ops, format),
        Match::Numeric { format, capture: None, expr: Some(e), .. } => low_subst(ops, e, Some(ValueType::Number(format))),
        Match::Numeric { format, capture: Some(n), expr: None, .. } => low_capture(ops, n, format),
        Match::Numeric { format, capture: Some(n), constraint, expr: Some(e), .. } => low_constrained(ops, n, format, constraint, e),
    }
}
pub broadcast proof fn lemma_pushed1(g: CaptureGroup) ensures #[trigger] pushed(seq![g]) == (if g.info.pushes() { 1int } else { 0 }) { assert(seq![g].drop_last() =~= Seq::<CaptureGroup>::empty()); assert(pushed(Seq::<CaptureGroup>::empty()) == 0); }
pub broadcast proof fn lemma_gs_all(c: Seq<CaptureGroup>) ensures #[trigger] c.take(c.len() as int) == c { assert(c.take(c.len() as int) =~= c); }
pub open spec fn all_bind(b: Seq<MatchOp>) -> bool { forall|j: int| 0 <= j < b.len() ==> (#[trigger] b[j]) is Bind }
pub proof fn lemma_binds(gs: Seq<CaptureGroup>) requires named(gs) ensures unstacked(gs).len() == pushed(gs), all_bind(unstacked(gs)) decreases gs.len()
{ if gs.len() > 0 { let d = gs.drop_last(); assert(gs.last() == gs[gs.len() - 1]); assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).info.gn() is Some by { assert(d[j] == gs[j]); }; lemma_binds(d);
    assert forall|j: int| 0 <= j < unstacked(gs).len() implies (#[trigger] unstacked(gs)[j]) is Bind by { if j > 0 { assert(unstacked(gs)[j] == unstacked(d)[j - 1]); } } } }
pub proof fn lemma_fit_binds<'a>(ops: Seq<MatchOp<'a>>, l: Seq<int>, b: Seq<MatchOp<'a>>) requires fit(ops, l), all_bind(b), depth(ops) >= b.len() ensures fit(ops + b, l), depth(ops + b) == depth(ops) - b.len(), parts_in(ops + b) == parts_in(ops) decreases b.len()
{
    if b.len() == 0 { assert(ops + b =~= ops); } else {
        let d = b.drop_last(); assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]) is Bind by { assert(d[j] == b[j]); };
        lemma_fit_binds(ops, l, d); assert(b.last() == b[b.len() - 1]); assert(ops + b =~= (ops + d).push(b.last())); lemma_fit_op(ops + d, l, b.last());
    }
}
pub proof fn lemma_group_src(n: VariableName, t: T) ensures Seq::<char>::empty() + "(?P<"@ + n.sy().s() + ">"@ + t + ")"@ == group_src(n, t) { assert(Seq::<char>::empty() + "(?P<"@ =~= "(?P<"@); }
pub broadcast proof fn lemma_take<'a>(a: Seq<MatchOp<'a>>, op: MatchOp<'a>, k: int) requires 0 <= k <= a.len() ensures #[trigger] a.push(op).take(k) == a.take(k) { assert(a.push(op).take(k) =~= a.take(k)); }
pub broadcast proof fn lemma_skip<'a>(a: Seq<MatchOp<'a>>, op: MatchOp<'a>, k: int) requires 0 <= k <= a.len() ensures #[trigger] a.push(op).skip(k) == a.skip(k).push(op) { assert(a.push(op).skip(k) =~= a.skip(k).push(op)); }
pub broadcast proof fn lemma_take0<'a>(a: Seq<MatchOp<'a>>, k: int) requires k == a.len() ensures #[trigger] a.take(k) == a { assert(a.take(k) =~= a); }
pub broadcast proof fn lemma_skip0<'a>(a: Seq<MatchOp<'a>>, k: int) requires k == a.len() ensures #[trigger] a.skip(k) == Seq::<MatchOp<'a>>::empty() { assert(a.skip(k) =~= Seq::<MatchOp<'a>>::empty()); }
pub broadcast group lemma_tail { lemma_take, lemma_skip, lemma_take0, lemma_skip0, lemma_fit_part, lemma_fit_op }
impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
    pub open spec fn l(&self) -> Seq<int> { lens(self.raw_group_info@) }
    pub open spec fn wf(&self) -> bool { raw_ok(self.raw_group_info@) && self.l().len() > 0 && self.l().len() == 1 + parts_in(self.parts@) && fit(self.parts@, self.l()) && depth(self.parts@) == 0 }
    /// one more part is registered, with that many groups
    pub open spec fn next(&self, o: &Self, n: int) -> bool { self.parts == o.parts && self.config == o.config && raw_ok(self.raw_group_info@) && self.l() == o.l().push(n) && longer(o.l(), self.l()) }
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: new
//@@ pre `vec![vec![None]]` => `rt_vec1(rt_vec1(None))`
//@@ pre `vec![]` => `Vec::new()`
//@@ ret r
//@@ at entry
    proof { assert(parts_in(Seq::<MatchOp>::empty()) == 0); assert(depth(Seq::<MatchOp>::empty()) == 0); }
//@@ spec
    ensures r.wf(), r.parts@.len() == 0, r.config == config
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: build
//@@ ret r
//@@ at entry
    proof { assert forall|g: GroupInfo| info_of(g, self.l()) && self.parts@.len() > 0 implies starts_ok(self.parts@, g) by { assert(self.raw_group_info@[0]@.len() > 0); lemma_built(self.parts@, self.l(), g); } }
//@@ spec
    requires self.wf()
    ensures r.parts == self.parts, r.parts@.len() > 0 ==> starts_ok(r.parts@, r.group_info)
//@@ end
    pub open spec fn grown(&self, o: &Self) -> bool { self.wf() && self.config == o.config && self.parts@.len() >= o.parts@.len() && self.parts@.take(o.parts@.len() as int) == o.parts@ }
    /// the operations that were added
    pub open spec fn added(&self, o: &Self) -> Seq<MatchOp<'a>> { self.parts@.skip(o.parts@.len() as int) }
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: numeric
//@@ ret r
//@@ at entry
    proof { broadcast use lemma_tail; }
//@@ spec
    requires old(self).wf()
    ensures *final(self) == *final(r), r.grown(old(self)), low_numeric(r.added(old(self)), format)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: numeric_with_constraint
//@@ ret r
//@@ at entry
    proof { broadcast use lemma_tail; }
//@@ spec
    requires old(self).wf()
    ensures *final(self) == *final(r), r.grown(old(self)), low_anon(r.added(old(self)), format, constraint, expr)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: substitution
//@@ ret r
//@@ at entry
    proof { broadcast use lemma_tail; }
//@@ spec
    requires old(self).wf()
    ensures *final(self) == *final(r), r.grown(old(self)), low_subst(r.added(old(self)), expr, None)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: substitution_with_format
//@@ ret r
//@@ at entry
    proof { broadcast use lemma_tail; }
//@@ spec
    requires old(self).wf()
    ensures *final(self) == *final(r), r.grown(old(self)), low_subst(r.added(old(self)), expr, Some(ty))
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: capture_numeric
//@@ ret r
//@@ at entry
    proof { broadcast use lemma_tail; }
//@@ spec
    requires old(self).wf()
    ensures *final(self) == *final(r), r.grown(old(self)), low_capture(r.added(old(self)), name, format)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: capture_numeric_with_constraint
//@@ pre `expr.span()` => `rt_span()`
//@@ ret r
//@@ at entry
    proof { broadcast use lemma_tail; }
//@@ spec
    requires old(self).wf()
    ensures *final(self) == *final(r), r.grown(old(self)), low_constrained(r.added(old(self)), name, format, constraint, expr)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: lower_match
//@@ pre `use crate::ast::Match;` => ` `
//@@ sub? `crate::ast::Match` => `Match`
//@@ ret r
//@@ spec
    requires old(self).wf(), part.block_ok()
    ensures r matches Ok(b) ==> *final(self) == *final(b) && b.grown(old(self)) && low_match(b.added(old(self)), part, old(self).config)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: literal
//@@ pre `self.parts.is_empty()` => `(self.parts.len() == 0)`
//@@ pre `aho_corasick::StartKind` => `StartKind`
//@@ ret r
//@@ at entry
    proof { broadcast use lemma_tail; }
//@@ spec
    requires old(self).wf(), pattern.spanned.t().len() > 0
    ensures r matches Ok(b) ==> *final(self) == *final(b) && b.grown(old(self)) && low_literal(b.added(old(self)), pattern.spanned.t(), old(self).config)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: regex
//@@ ret r
//@@ spec
    requires old(self).wf()
    ensures r matches Ok(b) ==> *final(self) == *final(b) && b.grown(old(self)) && low_regex(b.added(old(self)), Rx { src: source.spanned.t(), ml: true, ic: old(self).config.options.ignore_case }, Seq::empty())
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: regex_pattern
//@@ pre `.build(source.as_ref()).map_err(|error| $x)?` => `.build(&source.pattern.spanned)?`
//@@ pre `regex_automata::util::syntax` => `syntax`
//@@ pre `SmallVec::<[CaptureGroup; 1]>::default()` => `Vec::<CaptureGroup>::new()`
//@@ pre `PatternID::ZERO` => `PatternID::rt_zero()`
//@@ pre `for capture in source.captures.into_iter() { $X }` => `let mut rt_i = 0; while rt_i < source.captures.len() { let capture = source.captures[rt_i]; rt_i += 1; $X }`
//@@ pre `.unwrap_or_else(|| $x)` => `.unwrap()`
//@@ pre `captures.iter().rev().filter_map(|capture| $m).collect::<SmallVec<[_; 2]>>()` => `({ let mut rt_b: Vec<MatchOp<'a>> = Vec::new(); let mut rt_k = captures.len(); while rt_k > 0 { rt_k -= 1; let capture = &captures[rt_k]; if let Some(rt_x) = $m { rt_b.push(rt_x); } } rt_b })`
//@@ pre `self.parts.extend(binds);` => `let mut rt_e = binds; rt_vappend(&mut self.parts, &mut rt_e);`
//@@ ret r
//@@ at entry
    let ghost o = *self; let ghost caps = source.captures@; let ghost x = source.x(self.config);
    proof { broadcast use {lemma_tail, ax_names, lemma_gs_all}; assert(caps.take(caps.len() as int) =~= caps); }
//@@ at before `Ok(self)`
    proof {
        let g = self.parts@[o.parts@.len() as int]->Regex_captures@; let b = unstacked(g); let q = o.parts@.push(self.parts@[o.parts@.len() as int]);
        lemma_binds(g); lemma_fit_binds(q, self.l(), b);
        assert(self.parts@ =~= q + b); assert(self.parts@.take(o.parts@.len() as int) =~= o.parts@); assert(self.added(&o).skip(1) =~= b);
    }
//@@ loop 0
    invariant rt_i <= source.captures@.len(), caps == source.captures@, groups.names() == seq![rx_names(x)], x == source.x(self.config), rx_builds(x), source.caps_ok(self.config),
        stands_for(captures@, kept(caps.take(rt_i as int)), x), all_capture(x, captures@), forall|j: int| 0 <= j < captures@.len() ==> (#[trigger] captures@[j]).pattern_id == pattern_id, named(captures@)
    decreases source.captures@.len() - rt_i
//@@ at loop 0 start
    proof { broadcast use ax_names; assert(cap_ok(caps[rt_i as int], x)); assert(caps.take(rt_i + 1).drop_last() =~= caps.take(rt_i as int)); }
//@@ loop 1
    invariant rt_k <= captures@.len(), unstacked(captures@) == rt_b@ + unstacked(captures@.take(rt_k as int)), named(captures@)
    decreases rt_k
//@@ at loop 1 start
    proof { let c = captures@.take(rt_k as int); assert(c.drop_last() =~= captures@.take(rt_k - 1)); assert(c.last() == captures@[rt_k - 1]); }
//@@ spec
    requires old(self).wf(), source.caps_ok(old(self).config)
    ensures r matches Ok(b) ==> *final(self) == *final(b) && b.grown(old(self)) && low_regex(b.added(old(self)), source.x(old(self).config), source.captures@)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: capture
//@@ fmt
//@@ pre `smallvec![$x]` => `rt_vec1($x)`
//@@ pre `.build(&source).map_err(|error| $x)?` => `.rt_build(&source)?`
//@@ pre `regex_automata::util::syntax` => `syntax`
//@@ pre `PatternID::ZERO` => `PatternID::rt_zero()`
//@@ pre `.unwrap_or_else(|| $x)` => `.unwrap()`
//@@ ret r
//@@ at entry
    proof { broadcast use {lemma_tail, ax_names, ax_grouped, lemma_pushed1}; lemma_group_src(name, source.spanned.t()); }
//@@ spec
    requires old(self).wf(), whole(source.spanned.t())
    ensures r matches Ok(b) ==> *final(self) == *final(b) && b.grown(old(self)) && low_group(b.added(old(self)), name, source.spanned.t(), old(self).config)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: register_pattern_group
//@@ pre `assert_eq!($x);` => ` `
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `for group_name in group_info.pattern_names(PatternID::ZERO) { $X }` => `let rt_n = group_info.rt_names(PatternID::rt_zero()); let mut rt_i = 0; while rt_i < rt_n.len() { let group_name = rt_n[rt_i]; rt_i += 1; $X }`
//@@ ret r
//@@ loop 0
    invariant rt_i <= rt_n@.len(), groups@.len() == rt_i, rt_i > 0 ==> groups@[0] is None, rt_n@.len() > 0 ==> rt_n@[0] is None
    decreases rt_n@.len() - rt_i
//@@ at after `self.raw_group_info.push(groups);`
    proof { assert(self.l() =~= old(self).l().push(group_info.names()[0].len() as int)); }
//@@ spec
    requires raw_ok(old(self).raw_group_info@), group_info.names().len() == 1, group_info.names()[0].len() > 0, group_info.names()[0][0] is None
    ensures r.v == old(self).l().len(), final(self).next(old(self), group_info.names()[0].len() as int)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: register_empty_pattern_group
//@@ pre `vec![None]` => `rt_vec1(None)`
//@@ ret r
//@@ at after `self.raw_group_info.push(rt_vec1(None));`
    proof { assert(self.l() =~= old(self).l().push(1)); }
//@@ spec
    requires raw_ok(old(self).raw_group_info@)
    ensures r.v == old(self).l().len(), final(self).next(old(self), 1)
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: register_unnamed_group
//@@ pre `&mut self.raw_group_info[$k]` => `rt_row(&mut self.raw_group_info, $k)`
//@@ ret r
//@@ at after `pattern_group.push(None);`
    proof { assert(self.l() =~= old(self).l().update(pid.v as int, old(self).l()[pid.v as int] + 1)); }
//@@ spec
    requires raw_ok(old(self).raw_group_info@), pid.v < old(self).l().len()
    ensures r.pattern_id == pid, r.group_id == old(self).l()[pid.v as int], r.info == Capture::All(capture_type), final(self).parts == old(self).parts, final(self).config == old(self).config, raw_ok(final(self).raw_group_info@),
        final(self).l() == old(self).l().update(pid.v as int, old(self).l()[pid.v as int] + 1), forall|k: Seq<int>| #[trigger] longer(k, old(self).l()) ==> longer(k, final(self).l())
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/builder.rs :: impl SmartMatcherBuilder :: register_named_group
//@@ pre `&mut self.raw_group_info[$k]` => `rt_row(&mut self.raw_group_info, $k)`
//@@ ret r
//@@ at after `pattern_groups.push(Some(group_name));`
    proof { assert(self.l() =~= old(self).l().update(pid.v as int, old(self).l()[pid.v as int] + 1)); }
//@@ spec
    requires raw_ok(old(self).raw_group_info@), pid.v < old(self).l().len(), capture.gn() is Some
    ensures r.pattern_id == pid, r.group_id == old(self).l()[pid.v as int], r.info == capture, final(self).parts == old(self).parts, final(self).config == old(self).config, raw_ok(final(self).raw_group_info@),
        final(self).l() == old(self).l().update(pid.v as int, old(self).l()[pid.v as int] + 1), forall|k: Seq<int>| #[trigger] longer(k, old(self).l()) ==> longer(k, final(self).l())
//@@ end
}
// Display of a spanned text: the text
impl<'a> Show for Span<Cow<'a, str>> { open spec fn show(&self, alt: bool, zero: bool, width: int, kind: int) -> T { self.spanned.t().show_as(alt, zero, width, kind) } }
pub trait ShowAs { spec fn show_as(self, alt: bool, zero: bool, width: int, kind: int) -> T; }
impl ShowAs for Seq<char> { open spec fn show_as(self, alt: bool, zero: bool, width: int, kind: int) -> T { if width == 0 && kind == 0 { self } else { str_text(self, alt, zero, width, kind) } } }
#[verifier::external_body] // extend
pub fn rt_vappend<'a>(a: &mut Vec<MatchOp<'a>>, b: &mut Vec<MatchOp<'a>>) ensures final(a)@ == old(a)@ + old(b)@ { unimplemented!() }
impl RegexBuilder {
    #[verifier::external_body] // build
    pub fn rt_build(self, s: &String) -> (r: Result<Regex, Report>) ensures match r { Ok(x) => x.x() == (Rx { src: s@, ml: self.ml, ic: self.ic }) && rx_builds(x.x()), Err(_) => !rx_builds(Rx { src: s@, ml: self.ml, ic: self.ic }) } { unimplemented!() }
}
#[verifier::external_body] // vec![x]
pub fn rt_vec1<X>(x: X) -> (r: Vec<X>) ensures r@ == seq![x] { unimplemented!() }
impl Symbol {
    #[verifier::external_body] // Symbol::intern (P12)
    pub fn intern(s: &str) -> (r: Symbol) ensures r.s() == s@ { unimplemented!() }
}
}
fn main() {}
