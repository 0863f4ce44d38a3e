//@@ include pattern.vrs
// from the text of a directive, cut into parts, to the pattern that is searched for
verus! {
// ---------------------------------------------------------------- runs of parts that need no variable
//@@ item filecheck/src/ast/pattern.rs :: enum CheckPatternPart
//@@ end
//@@ item filecheck/src/ast/pattern.rs :: enum CheckPattern
//@@ end
//@@ item filecheck/src/pattern/prefix.rs :: enum PatternPrefix
//@@ end
pub type Part<'a> = CheckPatternPart<'a>;
pub open spec fn fixed(p: Part) -> bool { match p { Part::Match(Match::Substitution { pattern, .. }) => pattern is Some, Part::Match(Match::Numeric { expr, .. }) => expr is None, _ => true } }
/// an alternation is kept apart from its surroundings
pub open spec fn apart(t: T) -> T { if t.contains('|') { "(?:"@ + t + ")"@ } else { t } }
/// the regular expression of a part
pub open spec fn src(p: Part) -> T {
    match p {
        Part::Literal(s) => escaped(s.spanned.t()),
        Part::Regex(r) => apart(r.pattern.spanned.t()),
        Part::Match(Match::Substitution { name, pattern: Some(t), .. }) => group_src(name, t.spanned.t()),
        Part::Match(Match::Numeric { capture: None, expr: None, format, .. }) => re_named(None, eff(format)),
        Part::Match(Match::Numeric { capture: Some(n), expr: None, format, .. }) => re_named(Some(n.sy().s()), eff(format)),
        _ => Seq::empty(),
    }
}
/// what it captures
pub open spec fn caps(p: Part) -> Seq<Capture> {
    match p {
        Part::Regex(r) => r.captures@,
        Part::Match(Match::Substitution { name, pattern: Some(t), .. }) => seq![typed(name, ValueType::String)],
        Part::Match(Match::Numeric { capture: Some(n), expr: None, format, .. }) => seq![typed(n, ValueType::Number(format))],
        _ => Seq::empty(),
    }
}
pub open spec fn words(ps: Seq<Part>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]) is Literal }
pub open spec fn lit(p: Part) -> T { match p { Part::Literal(s) => s.spanned.t(), _ => Seq::empty() } }
pub open spec fn text(ps: Seq<Part>) -> T decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { text(ps.drop_last()) + lit(ps.last()) } }
pub open spec fn srcs(ps: Seq<Part>) -> T decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { srcs(ps.drop_last()) + src(ps.last()) } }
pub open spec fn capss(ps: Seq<Part>) -> Seq<Capture> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { capss(ps.drop_last()) + caps(ps.last()) } }
pub broadcast axiom fn ax_escaped_cat(a: T, b: T) ensures #[trigger] escaped(a + b) == escaped(a) + escaped(b);
pub broadcast axiom fn ax_escaped_none() ensures #[trigger] escaped(Seq::empty()) == Seq::<char>::empty();
// ---------------------------------------------------------------- what is left of a pattern
pub ghost enum Ap<'a> { Lit(T), Re(T, Seq<Capture>), M(Match<'a>) }
pub ghost enum Cp<'a> { Empty, Lit(T), Re(T, Seq<Capture>), Parts(Seq<Ap<'a>>) }
pub open spec fn ap<'a>(p: Part<'a>) -> Ap<'a> { match p { Part::Literal(s) => Ap::Lit(s.spanned.t()), Part::Regex(r) => Ap::Re(r.pattern.spanned.t(), r.captures@), Part::Match(m) => Ap::M(m) } }
pub open spec fn aps<'a>(ps: Seq<Part<'a>>) -> Seq<Ap<'a>> { ps.map_values(|p: Part<'a>| ap(p)) }
pub open spec fn cp<'a>(p: CheckPattern<'a>) -> Cp<'a> {
    match p { CheckPattern::Empty(_) => Cp::Empty, CheckPattern::Literal(s) => Cp::Lit(s.spanned.t()), CheckPattern::Regex(r) => Cp::Re(r.pattern.spanned.t(), r.captures@), CheckPattern::Match(ps) => Cp::Parts(aps(ps.spanned@)) }
}
/// a run of fixed parts is one text or one regular expression
pub open spec fn joined<'a>(ps: Seq<Part<'a>>) -> Seq<Ap<'a>> {
    if words(ps) { if text(ps).len() == 0 { Seq::empty() } else { seq![Ap::Lit(text(ps))] } }
    else if srcs(ps).len() == 0 { Seq::empty() } else { seq![Ap::Re(srcs(ps), capss(ps))] }
}
/// the fixed parts at the end
pub open spec fn tail<'a>(ps: Seq<Part<'a>>) -> Seq<Part<'a>> decreases ps.len() { if ps.len() == 0 || !fixed(ps.last()) { Seq::empty() } else { tail(ps.drop_last()).push(ps.last()) } }
/// what comes before them
pub open spec fn head<'a>(ps: Seq<Part<'a>>) -> Seq<Ap<'a>> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else if fixed(ps.last()) { head(ps.drop_last()) } else { (head(ps.drop_last()) + joined(tail(ps.drop_last()))).push(ap(ps.last())) }
}
pub open spec fn parts_of<'a>(p: CheckPattern<'a>) -> Seq<Part<'a>> { match p { CheckPattern::Match(s) => s.spanned@, _ => Seq::empty() } }
pub open spec fn compacted<'a>(p: CheckPattern<'a>) -> Cp<'a> {
    match p {
        CheckPattern::Match(s) => { let ps = s.spanned@;
            if ps.len() == 0 { Cp::Empty } else if head(ps).len() > 0 { Cp::Parts(head(ps) + joined(tail(ps))) } else if words(ps) { Cp::Lit(text(ps)) } else { Cp::Re(srcs(ps), capss(ps)) } },
        _ => cp(p),
    }
}
pub proof fn lemma_all_fixed(ps: Seq<Part>) requires head(ps).len() == 0 ensures tail(ps) == ps decreases ps.len()
{ if ps.len() > 0 { if fixed(ps.last()) { lemma_all_fixed(ps.drop_last()); assert(tail(ps) =~= ps); } } else { assert(tail(ps) =~= ps); } }
pub proof fn lemma_words(ps: Seq<Part>, p: Part) ensures words(ps.push(p)) == (words(ps) && p is Literal), text(ps.push(p)) == text(ps) + lit(p), srcs(ps.push(p)) == srcs(ps) + src(p), capss(ps.push(p)) == capss(ps) + caps(p)
{ let q = ps.push(p); assert(q.drop_last() =~= ps); assert(q.last() == p); if words(q) { assert(q[ps.len() as int] is Literal); assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]) is Literal by { assert(q[i] == ps[i]); } } }
pub proof fn lemma_words_srcs(ps: Seq<Part>) requires words(ps) ensures srcs(ps) == escaped(text(ps)), capss(ps) == Seq::<Capture>::empty() decreases ps.len()
{ broadcast use {ax_escaped_cat, ax_escaped_none}; if ps.len() > 0 { assert(ps.last() == ps[ps.len() - 1]); assert forall|i: int| 0 <= i < ps.drop_last().len() implies (#[trigger] ps.drop_last()[i]) is Literal by { assert(ps.drop_last()[i] == ps[i]); }; lemma_words_srcs(ps.drop_last()); assert(capss(ps) =~= Seq::<Capture>::empty()); } }
pub broadcast proof fn lemma_aps_push<'a>(a: Seq<Part<'a>>, p: Part<'a>) ensures #[trigger] aps(a.push(p)) == aps(a).push(ap(p)) { assert(aps(a.push(p)) =~= aps(a).push(ap(p))); }
pub broadcast proof fn lemma_gt(x: T) ensures #[trigger] x.push('>') == x + ">"@ { reveal_strlit(">"); assert(x.push('>') =~= x + ">"@); }
pub broadcast proof fn lemma_par(x: T) ensures #[trigger] x.push(')') == x + ")"@ { reveal_strlit(")"); assert(x.push(')') =~= x + ")"@); }
pub broadcast proof fn lemma_one<X>(a: Seq<X>, x: X) ensures #[trigger] (a + Seq::<X>::empty().push(x)) == a.push(x) { assert(a + Seq::<X>::empty().push(x) =~= a.push(x)); }
pub broadcast proof fn lemma_none<X>(a: Seq<X>) ensures #[trigger] (a + Seq::<X>::empty()) == a { assert(a + Seq::<X>::empty() =~= a); }
pub broadcast group lemma_parts { lemma_aps_push, lemma_gt, lemma_par, ax_assoc, lemma_one, lemma_none }
pub proof fn lemma_step(all: Seq<Part>, n: int) requires 0 <= n < all.len() ensures ({ let d = all.take(n); let p = all[n]; let e = all.take(n + 1);
    &&& fixed(p) ==> tail(e) == tail(d).push(p) && head(e) == head(d) && words(tail(e)) == (words(tail(d)) && p is Literal) && text(tail(e)) == text(tail(d)) + lit(p) && srcs(tail(e)) == srcs(tail(d)) + src(p) && capss(tail(e)) == capss(tail(d)) + caps(p)
    &&& !fixed(p) ==> tail(e).len() == 0 && head(e) == (head(d) + joined(tail(d))).push(ap(p)) && words(tail(e)) && text(tail(e)) == Seq::<char>::empty() && capss(tail(e)) == Seq::<Capture>::empty()
    &&& words(tail(d)) ==> srcs(tail(d)) == escaped(text(tail(d))) && capss(tail(d)) == Seq::<Capture>::empty() })
{
    let d = all.take(n); let p = all[n]; let e = all.take(n + 1);
    assert(e.drop_last() =~= d); assert(e.last() == p);
    if fixed(p) { lemma_words(tail(d), p); }
    if words(tail(d)) { lemma_words_srcs(tail(d)); }
}
/// the state of the loop after the parts `done`
pub open spec fn at_part<'a>(out: Seq<Part<'a>>, done: Seq<Part<'a>>, pattern: T, captures: Seq<Capture>, literal: bool) -> bool {
    let t = tail(done); aps(out) == head(done) && literal == words(t) && pattern == (if literal { text(t) } else { srcs(t) }) && captures == capss(t)
}
impl VariableName {
//@@ fn core/src/variables/mod.rs :: impl VariableName :: as_str
//@@ pre `s.as_str()` => `s.spanned.as_str()`
//@@ ret r
//@@ spec
    ensures r@ == self.sy().s()
//@@ end
}
impl<'a> CheckPattern<'a> {
//@@ fn filecheck/src/ast/pattern.rs :: impl CheckPattern :: compact :: convert_to_regex
//@@ pre `buffer.chars().map(|c| $x).sum::<usize>()` => `rt_weight(&*buffer)`
//@@ pre `core::mem::replace(` => `rt_replace(`
//@@ pre `String::with_capacity($x)` => `rt_new()`
//@@ pre `escape_into(&prev,` => `escape_into(prev.as_str(),`
//@@ at entry
    proof { assert(Seq::<char>::empty() + escaped(old(buffer)@) =~= escaped(old(buffer)@)); }
//@@ spec
    requires padding <= 0x7000_0000_0000_0000
    ensures final(buffer)@ == escaped(old(buffer)@)
//@@ end
//@@ fn filecheck/src/ast/pattern.rs :: impl CheckPattern :: compact
//@@ opt #[verifier::rlimit(100)]
//@@ opt #[verifier::spinoff_prover]
//@@ pre `use std::collections::VecDeque;` => ` `
//@@ pre `fn convert_to_regex($x) { $X }` => ` `
//@@ pre `convert_to_regex(` => `Self::convert_to_regex(`
//@@ pre `Self::Match(empty) if $x => { $X } Self::Match(compacted) => { $Y }` => `Self::Match(compacted) => { let empty = &*compacted; if $x { $X } else { $Y } }`
//@@ pre `empty.is_empty()` => `(empty.spanned.len() == 0)`
//@@ pre `empty.span()` => `rt_span()`
//@@ pre `VecDeque::from(core::mem::take(&mut **compacted))` => `rt_deque(&mut compacted.spanned)`
//@@ pre `while let Some(mut part) = parts.pop_front() { $X }` => `loop { let part = match parts.pop_front() { Some(rt_p) => rt_p, None => break }; $X }`
//@@ pre `captures: ref mut part_captures` => `captures: mut part_captures`
//@@ pre `captures.append(part_captures)` => `captures.append(&mut part_captures)`
//@@ pre `SmallVec::<[Capture; 1]>::new()` => `Vec::<Capture>::new()`
//@@ pre `String::new()` => `rt_new()`
//@@ pre `SourceSpan::new($x)` => `rt_span()`
//@@ pre `format.unwrap_or_default()` => `rt_or_default(format)`
//@@ pre `part.contains($x)` => `rt_has(&part, $x)`
//@@ pre `part.inner().as_ref()` => `part.spanned.rt_str()`
//@@ pre `part.as_ref()` => `part.rt_str()`
//@@ pre `part.len()` => `part.rt_len()`
//@@ pre `format_pattern.len()` => `format_pattern.rt_len()`
//@@ pre `group_name.len()` => `rt_strlen(group_name)`
//@@ pre `pattern.push_str(&format_pattern)` => `rt_lit(&mut pattern, format_pattern.rt_str())`
//@@ pre `pattern.push_str($x)` => `rt_lit(&mut pattern, $x)`
//@@ pre `pattern.push($x)` => `rt_push(&mut pattern, $x)`
//@@ pre `pattern.is_empty()` => `rt_none(&pattern)`
//@@ pre `pattern.clear()` => `rt_clear(&mut pattern)`
//@@ pre `core::mem::take(` => `rt_take(`
//@@ pre `part.span()` => `rt_span()`
//@@ pre `compacted.push(` => `compacted.spanned.push(`
//@@ pre `compacted.is_empty()` => `(compacted.spanned.len() == 0)`
//@@ at entry
    let ghost all = parts_of(*self);
    proof { broadcast use lemma_parts; assert(all.take(0) =~= Seq::<Part>::empty()); assert(aps(Seq::empty()) =~= Seq::<Ap>::empty()); assert(all.take(all.len() as int) =~= all); assert(all.skip(0) =~= all); if head(all).len() == 0 { lemma_all_fixed(all); } }
//@@ loop 0
    invariant_except_break all.len() > 0, parts@.len() <= all.len(), parts@ == all.skip(all.len() - parts@.len()), at_part(compacted.spanned@, all.take(all.len() - parts@.len()), pattern@, captures@, is_literal_mode)
    ensures parts@.len() == 0, at_part(compacted.spanned@, all, pattern@, captures@, is_literal_mode)
    decreases parts@.len()
//@@ at loop 0 start
    proof { broadcast use lemma_parts; let n = all.len() - parts@.len(); assert(all.take(all.len() as int) =~= all); if parts@.len() > 0 { lemma_step(all, n); assert(parts@.skip(1) =~= all.skip(n + 1)); assert(parts@[0] == all[n]); } }
//@@ spec
    ensures cp(*final(self)) == compacted(*old(self))
//@@ end
}
// ---------------------------------------------------------------- the parts as parsed
/// each block is a regular expression by itself, and captures nothing by a group of its own
pub open spec fn part_ok(p: Part) -> bool { match p { Part::Literal(_) => true, Part::Regex(r) => whole(r.pattern.spanned.t()) && r.captures@.len() == 0, Part::Match(m) => m.block_ok() } }
pub open spec fn parts_ok(ps: Seq<Part>) -> bool { forall|i: int| 0 <= i < ps.len() ==> part_ok(#[trigger] ps[i]) }
pub open spec fn re_ok(t: T, c: Seq<Capture>) -> bool { forall|ml: bool, ic: bool| #[trigger] rx_builds(Rx { src: t, ml, ic }) ==> caps_fit(c, Rx { src: t, ml, ic }) }
pub open spec fn caps_fit(c: Seq<Capture>, x: Rx) -> bool { same_groups(c, c.len() as int) && forall|j: int| 0 <= j < c.len() ==> cap_ok(#[trigger] c[j], x) }
/// a sequence of such expressions has the groups of all of them, each captures whenever the whole matches, and no two have a name in common
pub axiom fn ax_groups(ps: Seq<Part>) requires parts_ok(ps) ensures re_ok(srcs(ps), capss(ps));
pub open spec fn ap_ok(a: Ap) -> bool { match a { Ap::Lit(t) => t.len() > 0, Ap::Re(t, c) => re_ok(t, c), Ap::M(m) => m.block_ok() } }
pub open spec fn aps_ok(a: Seq<Ap>) -> bool { forall|i: int| 0 <= i < a.len() ==> ap_ok(#[trigger] a[i]) }
pub open spec fn cp_ok(c: Cp) -> bool { match c { Cp::Re(t, c) => re_ok(t, c), Cp::Parts(ps) => ps.len() > 0 && aps_ok(ps), _ => true } }
pub open spec fn pattern_ok(p: CheckPattern) -> bool { match p { CheckPattern::Regex(r) => re_ok(r.pattern.spanned.t(), r.captures@), CheckPattern::Match(ps) => parts_ok(ps.spanned@), _ => true } }
pub proof fn lemma_joined_ok(ps: Seq<Part>) requires parts_ok(ps) ensures aps_ok(joined(ps)) { ax_groups(ps); }
pub proof fn lemma_head_ok(ps: Seq<Part>) requires parts_ok(ps) ensures aps_ok(head(ps)), parts_ok(tail(ps)) decreases ps.len()
{
    if ps.len() > 0 {
        let d = ps.drop_last(); assert(ps.last() == ps[ps.len() - 1]);
        assert forall|i: int| 0 <= i < d.len() implies part_ok(#[trigger] d[i]) by { assert(d[i] == ps[i]); }
        lemma_head_ok(d);
        if fixed(ps.last()) { assert forall|i: int| 0 <= i < tail(ps).len() implies part_ok(#[trigger] tail(ps)[i]) by { if i < tail(d).len() { assert(tail(ps)[i] == tail(d)[i]); } } }
        else { lemma_joined_ok(tail(d)); let q = head(d) + joined(tail(d)); assert forall|i: int| 0 <= i < head(ps).len() implies ap_ok(#[trigger] head(ps)[i]) by { if i < head(d).len() { assert(head(ps)[i] == head(d)[i]); } else if i < q.len() { assert(head(ps)[i] == joined(tail(d))[i - head(d).len()]); } else { assert(head(ps)[i] == ap(ps.last())); } } }
    }
}
pub proof fn lemma_compacted_ok(p: CheckPattern) requires pattern_ok(p), p is Match ensures cp_ok(compacted(p))
{
    let ps = parts_of(p); lemma_head_ok(ps); lemma_joined_ok(tail(ps)); ax_groups(ps);
    let q = head(ps) + joined(tail(ps)); assert forall|i: int| 0 <= i < q.len() implies ap_ok(#[trigger] q[i]) by { if i < head(ps).len() { assert(q[i] == head(ps)[i]); } else { assert(q[i] == joined(tail(ps))[i - head(ps).len()]); } }
}
// ---------------------------------------------------------------- compiled patterns
pub open spec fn low_ap(ops: Seq<MatchOp>, a: Ap, c: &Config) -> bool {
    match a { Ap::Lit(t) => low_literal(ops, t, c), Ap::Re(t, k) => low_regex(ops, Rx { src: t, ml: true, ic: c.options.ignore_case }, k), Ap::M(m) => low_match(ops, m, c) }
}
/// the operations of a sequence of parts are those of each, in order
pub open spec fn low_parts(ops: Seq<MatchOp>, a: Seq<Ap>, c: &Config) -> bool decreases a.len() {
    if a.len() == 0 { ops.len() == 0 } else { exists|k: int| 0 <= k < ops.len() && low_parts(#[trigger] ops.take(k), a.drop_last(), c) && low_ap(ops.skip(k), a.last(), c) }
}
pub proof fn lemma_low_push<'a>(o: Seq<MatchOp<'a>>, n: Seq<MatchOp<'a>>, a: Seq<Ap>, x: Ap, c: &Config)
    requires low_parts(o, a, c), n.len() >= o.len(), n.take(o.len() as int) == o, low_ap(n.skip(o.len() as int), x, c) ensures low_parts(n, a.push(x), c)
{ assert(a.push(x).drop_last() =~= a); assert(n.skip(o.len() as int).len() > 0); assert(low_parts(n.take(o.len() as int), a.push(x).drop_last(), c)); }
//@@ item filecheck/src/pattern/matcher/matchers/always.rs :: struct AlwaysMatch
//@@ end
//@@ item filecheck/src/pattern/matcher/matchers/whitespace.rs :: struct AsciiWhitespaceMatcher
//@@ end
//@@ item filecheck/src/pattern/mod.rs :: enum Pattern
//@@ end
//@@ item filecheck/src/pattern/matcher/matchers/simple.rs :: enum SimpleMatcher
//@@ end
pub uninterp spec fn blanks_only(t: T) -> bool; // nothing but whitespace
pub uninterp spec fn ascii_only(t: T) -> bool; // nothing but ASCII whitespace
pub open spec fn re_of(m: &RegexMatcher, t: T, k: Seq<Capture>, c: &Config) -> bool {
    m.regex.x() == (Rx { src: t, ml: true, ic: c.options.ignore_case }) && rx_builds(m.regex.x()) && table(m.captures@, k, k.len() as int, rx_names(m.regex.x()))
}
/// what a compiled pattern stands for
pub open spec fn compiled(p: Pattern, d: Cp, c: &Config) -> bool {
    match (p, d) {
        (Pattern::Empty(_), Cp::Empty) => true,
        (Pattern::Substring(m), Cp::Lit(t)) => t.len() > 0 && !blanks_only(t) && m.of(t, StartKind::Unanchored, c),
        (Pattern::Whitespace(_), Cp::Lit(t)) => t.len() > 0 && blanks_only(t) && ascii_only(t),
        (Pattern::Regex(m), Cp::Lit(t)) => t.len() > 0 && blanks_only(t) && !ascii_only(t) && re_of(&m, r"\s+"@, Seq::empty(), c),
        (Pattern::Regex(m), Cp::Re(t, k)) => re_of(&m, t, k, c),
        (Pattern::Smart(m), Cp::Parts(a)) => low_parts(m.parts@, a, c) && starts_ok(m.parts@, m.group_info),
        _ => false,
    }
}
pub open spec fn pre_cp(p: PatternPrefix) -> Cp { match p { PatternPrefix::Literal { prefix, .. } => Cp::Lit(prefix.spanned.t()), PatternPrefix::Substring { prefix, .. } => Cp::Lit(prefix.spanned.t()), PatternPrefix::Regex { prefix, .. } => Cp::Re(prefix.pattern.spanned.t(), prefix.captures@), PatternPrefix::Dynamic { prefix, .. } => Cp::Parts(seq![Ap::M(owned(prefix))]) } }
pub uninterp spec fn owned<'a>(m: Cow<'a, Match<'a>>) -> Match<'a>;
#[verifier::external_body] // Cow::into_owned
pub fn rt_owned<'a>(m: Cow<'a, Match<'a>>) -> (r: Match<'a>) ensures r == owned(m) { unimplemented!() }
impl AlwaysMatch {
//@@ fn filecheck/src/pattern/matcher/matchers/always.rs :: impl AlwaysMatch :: new
//@@ end
}
impl AsciiWhitespaceMatcher {
//@@ fn filecheck/src/pattern/matcher/matchers/whitespace.rs :: impl AsciiWhitespaceMatcher :: new
//@@ end
}
impl<'a> Pattern<'a> {
//@@ fn filecheck/src/pattern/mod.rs :: impl Pattern :: from_prefix
//@@ pre `prefix.is_empty()` => `prefix.spanned.is_empty()`
//@@ pre `prefix.trim().is_empty()` => `rt_white(&prefix)`
//@@ pre `prefix.chars().all(|c| c.is_ascii_whitespace())` => `rt_ascii_white(&prefix)`
//@@ pre `Report::from(InvalidCheckFileError::EmptyPattern($x))` => `rt_err()`
//@@ pre `prefix.captures.is_empty()` => `(prefix.captures.len() == 0)`
//@@ pre `prefix.span()` => `rt_span()`
//@@ pre `builder.lower_match(prefix.into_owned())?` => `builder.lower_match(rt_owned(prefix))?`
//@@ at entry
    let ghost d = pre_cp(prefix);
    proof { if d is Parts { assert(ap_ok(d->Parts_0[0])); } if d is Re { assert(d->Re_1.len() == 0 ==> d->Re_1 =~= Seq::<Capture>::empty()); } }
//@@ at before `Ok(Self::Smart(builder.build()))`
    proof { let n = builder.parts@; let e = Seq::<MatchOp>::empty(); assert(n.take(0) =~= e); assert(n.skip(0) =~= n); lemma_low_push(e, n, Seq::<Ap>::empty(), d->Parts_0[0], config); assert(d->Parts_0 =~= Seq::<Ap>::empty().push(d->Parts_0[0])); }
//@@ ret r
//@@ spec
    requires cp_ok(pre_cp(prefix))
    ensures r matches Ok(p) ==> compiled(p, pre_cp(prefix), config)
//@@ end
//@@ fn filecheck/src/pattern/mod.rs :: impl Pattern :: compile
//@@ pre `for part in parts.into_iter() { $X }` => `let mut parts = parts; let mut rt_d = rt_deque(&mut parts); loop { let part = match rt_d.pop_front() { Some(rt_p) => rt_p, None => break }; $X }`
//@@ at entry
    let ghost p0 = pattern; let ghost d = compacted(pattern);
    proof { if p0 is Match { lemma_compacted_ok(p0); } }
//@@ loop 0
    invariant_except_break rt_d@.len() <= d->Parts_0.len(), d is Parts, aps_ok(d->Parts_0), aps(rt_d@) == d->Parts_0.skip(d->Parts_0.len() - rt_d@.len()), builder.wf(), builder.config == config, low_parts(builder.parts@, d->Parts_0.take(d->Parts_0.len() - rt_d@.len()), config)
    ensures builder.wf(), builder.config == config, low_parts(builder.parts@, d->Parts_0, config)
    decreases rt_d@.len()
//@@ at loop 0 start
    let ghost k = d->Parts_0.len() - rt_d@.len(); let ghost bo = builder.parts@;
    proof { let a = d->Parts_0; assert(a.take(a.len() as int) =~= a); if rt_d@.len() > 0 { assert(ap_ok(a[k])); assert(aps(rt_d@)[0] == a.skip(k)[0]); assert(aps(rt_d@.skip(1)) =~= aps(rt_d@).skip(1)); assert(aps(rt_d@).skip(1) =~= a.skip(k + 1)); assert(a.take(k + 1) =~= a.take(k).push(a[k])); } }
//@@ at loop 0 end
    proof { lemma_low_push(bo, builder.parts@, d->Parts_0.take(k), d->Parts_0[k], config); }
//@@ ret r
//@@ spec
    requires pattern_ok(pattern)
    ensures r matches Ok(p) ==> compiled(p, compacted(pattern), config)
//@@ end
}
impl<'a> Pattern<'a> {
//@@ fn filecheck/src/pattern/mod.rs :: impl Pattern :: compile_static
//@@ pre `let diag = $X; Err(Report::new(diag))` => `Err(rt_err())`
//@@ pre `regex.captures.is_empty()` => `(regex.captures.len() == 0)`
//@@ ret r
//@@ at entry
    proof { if pattern is Match { lemma_compacted_ok(pattern); } }
//@@ spec
    requires pattern_ok(pattern), !(compacted(pattern) is Empty), compacted(pattern) matches Cp::Lit(t) ==> t.len() > 0
    ensures match (r, compacted(pattern)) {
        (Ok(SimpleMatcher::Substring(m)), Cp::Lit(t)) => m.of(t, StartKind::Unanchored, config),
        (Ok(SimpleMatcher::Regex(m)), Cp::Re(t, k)) => k.len() == 0 && re_of(&m, t, k, config),
        (Ok(_), _) => false, (Err(_), _) => true }
//@@ end
//@@ fn filecheck/src/pattern/mod.rs :: impl Pattern :: compile_literal
//@@ ret r
//@@ spec
    requires pattern is Literal, cp(pattern)->Lit_0.len() > 0
    ensures r matches Ok(p) ==> p is Substring && p->Substring_0.of(cp(pattern)->Lit_0, StartKind::Unanchored, config)
//@@ end
}
// ---------------------------------------------------------------- searches
pub uninterp spec fn ascii_blank(b: u8) -> bool; // u8::is_ascii_whitespace
pub broadcast axiom fn ax_newline() ensures #[trigger] ascii_blank(10u8);
/// the blanks at the start, up to the end of the line
pub open spec fn blanks_from(b: Seq<u8>, k: int, e: int) -> int decreases e - k { if k < e && b[k] != 10 && ascii_blank(b[k]) { blanks_from(b, k + 1, e) } else { k } }
pub open spec fn blanks_at(i: In) -> Hit { if i.s < i.e && ascii_blank(i.b[i.s]) { Some((i.s, blanks_from(i.b, i.s, i.e))) } else { None } }
impl AlwaysMatch {
//@@ fn filecheck/src/pattern/matcher/matchers/always.rs :: impl Matcher for AlwaysMatch :: try_match
//@@ sig `pub fn try_match<'input, 'context, C: Context<'input, 'context>>(&self, input: Input<'input>, _context: &C) -> (r: DiagResult<MatchResult<'input>>)`
//@@ spec
    requires input.wf()
    ensures r matches Ok(m) && m.good() && m.hit() == Some((input.lo() as int, input.lo() as int))
//@@ end
}
impl AsciiWhitespaceMatcher {
//@@ fn filecheck/src/pattern/matcher/matchers/whitespace.rs :: impl Matcher for AsciiWhitespaceMatcher :: try_match
//@@ sig `pub fn try_match<'input, 'context, C: Context<'input, 'context>>(&self, input: Input<'input>, context: &C) -> (r: DiagResult<MatchResult<'input>>)`
//@@ pre `CheckFailedError::match_none($x)` => `rt_cfe()`
//@@ pre `input.as_slice()` => `input.rt_slice()`
//@@ pre `.is_ascii_whitespace()` => `.rt_blank()`
//@@ pre `for c in buffer.iter() { match c { $X } }` => `let mut rt_i = 0; while rt_i < buffer.len() { let c = buffer[rt_i]; rt_i += 1; match c { $X } }`
//@@ loop 0
    invariant_except_break rt_i == len
    invariant len <= rt_i <= buffer@.len(), start == input.lo(), buffer@ == input.buffer@.subrange(input.lo() as int, input.hi() as int), blanks_from(input.buffer@, input.lo() as int, input.hi() as int) == blanks_from(input.buffer@, input.lo() + len, input.hi() as int), input.lo() < input.hi() <= input.buffer@.len() <= u32::MAX
    ensures blanks_from(input.buffer@, input.lo() as int, input.hi() as int) == input.lo() + len
    decreases buffer@.len() - rt_i
//@@ spec
    requires input.wf()
    ensures r matches Ok(m) && m.hit() == blanks_at(input.i()) && m.good() == (m.info is Some)
//@@ end
}
/// what a pattern matches, and binds
pub open spec fn finds(p: Pattern, b: B<Av>, c: Cf, i: In) -> One {
    match p {
        Pattern::Substring(m) => match text_find(m.searcher.w(), m.searcher.ic(), i) { Some((x, y)) => One::Found(x, y, b), None => One::No },
        Pattern::Regex(m) => match rx_find(m.regex.x(), i) { Some((x, y)) => match rx_binds(m.captures@, m.regex.x(), i, b, m.captures@.len() as int) { Some(n) => One::Found(x, y, n), None => One::No }, None => One::No },
        Pattern::Smart(m) => search(m.parts@[0], m.parts@.skip(1), b, c, i),
        Pattern::Whitespace(_) => match blanks_at(i) { Some((x, y)) => One::Found(x, y, b), None => One::No },
        Pattern::Empty(_) => One::Found(i.s, i.s, b),
    }
}
pub open spec fn usable(p: Pattern, i: In) -> bool {
    match p { Pattern::Substring(m) => m.searcher.can(i), Pattern::Regex(m) => m.captures@.len() == rx_names(m.regex.x()).len(), Pattern::Smart(m) => starts_ok(m.parts@, m.group_info), _ => true }
}
/// a compiled pattern can be searched for
pub proof fn lemma_usable(p: Pattern, d: Cp, c: &Config, i: In) requires compiled(p, d, c), !i.anch ensures usable(p, i) { }
impl<'a> Pattern<'a> {
//@@ fn filecheck/src/pattern/mod.rs :: impl MatcherMut for Pattern :: try_match_mut
//@@ sig `pub fn try_match_mut<'input, 'context, C: Context<'input, 'context>>(&self, input: Input<'input>, context: &mut C) -> (r: DiagResult<MatchResult<'input>>)`
//@@ spec
    requires input.wf(), old(context).cur().wf(), old(context).cur().buffer == input.buffer, usable(*self, input.i())
    ensures final(context).cf() == old(context).cf(), final(context).cur() == old(context).cur(),
        match finds(*self, bv(old(context).bs()), old(context).cf(), input.i()) {
            One::Bad => r is Err && final(context).bs() == old(context).bs(),
            One::Found(x, y, n) => r matches Ok(m) && (m.good() ==> m.hit() == Some((x, y))) && (!(self is Smart) ==> m.good()) && bv(final(context).bs()) == n,
            _ => r matches Ok(m) && !m.good() && m.info is None && final(context).bs() == old(context).bs(),
        }
//@@ end
}
impl<'a> SimpleMatcher<'a> {
//@@ fn filecheck/src/pattern/matcher/matchers/simple.rs :: impl Matcher for SimpleMatcher :: try_match
//@@ sig `pub fn try_match<'input, 'context, C: Context<'input, 'context>>(&self, input: Input<'input>, context: &C) -> (r: DiagResult<MatchResult<'input>>)`
//@@ spec
    requires input.wf(), match self { SimpleMatcher::Substring(m) => m.searcher.can(input.i()), SimpleMatcher::Regex(m) => m.captures@.len() == rx_names(m.regex.x()).len() }
    ensures r matches Ok(m) && m.good() == (m.info is Some) && (m.good() ==> m.hit() == match self { SimpleMatcher::Substring(s) => text_find(s.searcher.w(), s.searcher.ic(), input.i()), SimpleMatcher::Regex(s) => rx_find(s.regex.x(), input.i()) })
//@@ end
}
trait RtBlank { fn rt_blank(&self) -> bool; }
impl RtBlank for u8 {
    #[verifier::external_body]
    fn rt_blank(&self) -> (r: bool) ensures r == ascii_blank(*self) { unimplemented!() }
}
impl SourceSpan {
//@@ fn core/src/diagnostics/span.rs :: impl SourceSpan#0 :: at
//@@ sig `pub fn at(source_id: SourceId, offset: u32) -> (r: Self)`
//@@ pre `offset.into()` => `ByteIndex(offset)`
//@@ spec
    ensures r.s() == offset, r.e() == offset
//@@ end
}
impl<'a> Input<'a> {
    #[verifier::external_body] // as_slice
    pub fn rt_slice(&self) -> (r: &[u8]) requires self.wf() ensures r@.len() == (if self.lo() <= self.hi() { self.hi() - self.lo() } else { 0 }), self.lo() <= self.hi() ==> r@ == self.buffer@.subrange(self.lo() as int, self.hi() as int) { unimplemented!() }
}
#[verifier::external_body] // trim().is_empty()
pub fn rt_white(s: &Span<Cow<'_, str>>) -> (r: bool) ensures r == blanks_only(s.spanned.t()) { unimplemented!() }
#[verifier::external_body] // chars().all(..)
pub fn rt_ascii_white(s: &Span<Cow<'_, str>>) -> (r: bool) ensures r == ascii_only(s.spanned.t()) { unimplemented!() }
// ---------------------------------------------------------------- std and the regex crates
pub mod regex_syntax { use super::*;
    #[verifier::external_body]
    pub fn escape_into(s: &str, o: &mut String) ensures final(o)@ == old(o)@ + escaped(s@) { unimplemented!() }
}
#[verifier::external_body] // the length of the escaped text; no text is longer than 2^60 bytes
pub fn rt_weight(s: &String) -> (r: usize) ensures r <= 0x2000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn rt_strlen(s: &str) -> (r: usize) ensures r <= 0x1000_0000_0000_0000 { unimplemented!() }
impl<'a> Cow<'a, str> {
    #[verifier::external_body]
    pub fn rt_len(&self) -> (r: usize) ensures r <= 0x1000_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body] // as_ref
    pub fn rt_str(&self) -> (r: &str) ensures r@ == self.t() { unimplemented!() }
}
#[verifier::external_body] // contains
pub fn rt_has(s: &Cow<'_, str>, c: char) -> (r: bool) ensures r == s.t().contains(c) { unimplemented!() }
#[verifier::external_body] // String::push
pub fn rt_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body] // String::is_empty
pub fn rt_none(s: &String) -> (r: bool) ensures r == (s@.len() == 0), r ==> s@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] // String::clear
pub fn rt_clear(s: &mut String) ensures final(s)@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] // VecDeque::from(mem::take(v))
pub fn rt_deque<'a>(v: &mut Vec<Part<'a>>) -> (r: Deque<'a>) ensures r@ == old(v)@, final(v)@ == Seq::<Part<'a>>::empty() { unimplemented!() }
#[verifier::external_body]
pub struct Deque<'a> { x: &'a u8 }
impl<'a> Deque<'a> {
    pub uninterp spec fn view(&self) -> Seq<Part<'a>>;
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<Part<'a>>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
}
impl Dflt for String { open spec fn dflt(&self) -> bool { self@ == Seq::<char>::empty() } }
impl<X> Dflt for Vec<X> { open spec fn dflt(&self) -> bool { self@ == Seq::<X>::empty() } }
}
fn main() {}
