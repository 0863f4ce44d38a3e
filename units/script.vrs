//@@ include prelude.inc
// test scripts: the directives of a text, continued lines joined, line numbers substituted
verus! {
global size_of usize == 8;
use std::ops::Range;
pub type T = Seq<char>;
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) } // std::borrow::Cow of str
impl<'a> Cow<'a, str> {
    pub open spec fn t(&self) -> T { match self { Cow::Borrowed(s) => (*s)@, Cow::Owned(s) => s@ } }
    #[verifier::external_body] // Deref to str, ToString
    pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}

// ---------------------------------------------------------------- texts
pub open spec fn at(s: T, p: T) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn cw(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// UTF-8 length
pub open spec fn blen(s: T) -> nat decreases s.len() { if s.len() == 0 { 0 } else { cw(s[0]) + blen(s.skip(1)) } }
pub broadcast proof fn blen_cat(a: T, b: T) ensures #[trigger] blen(a + b) == blen(a) + blen(b) decreases a.len()
{ if a.len() > 0 { assert((a + b).skip(1) =~= a.skip(1) + b); blen_cat(a.skip(1), b); } else { assert(a + b =~= b); } }
pub proof fn blen_cut(s: T, i: int) requires 0 <= i <= s.len() ensures blen(s) == blen(s.take(i)) + blen(s.skip(i)), i > 0 ==> blen(s.take(i)) > 0, i < s.len() ==> blen(s.skip(i)) > 0
{ assert(s.take(i) + s.skip(i) =~= s); blen_cat(s.take(i), s.skip(i)); }
pub proof fn blen_last(s: T) requires s.len() > 0 ensures blen(s) == blen(s.drop_last()) + cw(s.last())
{ blen_cut(s, s.len() - 1); assert(s.skip(s.len() - 1) =~= seq![s.last()]); assert(s.take(s.len() - 1) =~= s.drop_last()); reveal_with_fuel(blen, 2); }
pub uninterp spec fn ws(c: char) -> bool; // char::is_whitespace
pub broadcast axiom fn ws_sp(c: char) ensures #![trigger ws(c)] c == ' ' ==> ws(c), c == '+' || c == '-' ==> !ws(c);
pub open spec fn trs(s: T) -> T decreases s.len() { if s.len() > 0 && ws(s[0]) { trs(s.skip(1)) } else { s } }
pub open spec fn tre(s: T) -> T decreases s.len() { if s.len() > 0 && ws(s.last()) { tre(s.drop_last()) } else { s } }
pub open spec fn tr(s: T) -> T { trs(tre(s)) }
pub proof fn blen_tr(s: T) ensures blen(trs(s)) <= blen(s), blen(tre(s)) <= blen(s) decreases s.len()
{ if s.len() > 0 { blen_last(s); blen_tr(s.skip(1)); blen_tr(s.drop_last()); } }
/// the order of trimming both ends does not matter
pub proof fn tr_both(s: T) ensures tre(trs(s)) == tr(s) decreases s.len()
{
    if s.len() > 0 {
        let l = s.drop_last();
        if ws(s.last()) {
            tr_both(l);
            if trs(s).len() > 0 { tr_last(s); } else { tr_none(s); tr_none(l); }
        } else { assert(tre(s) == s); tr_last(s); }
    }
}
pub proof fn tr_none(s: T) requires trs(s).len() == 0 ensures tre(s).len() == 0, trs(s) == tre(s), s.len() > 0 ==> trs(s.drop_last()).len() == 0 && ws(s.last()) decreases s.len()
{
    if s.len() > 0 { tr_none(s.skip(1)); if s.len() > 1 { assert(s.skip(1).drop_last() =~= s.drop_last().skip(1)); assert(s.skip(1).last() == s.last()); } else { assert(s.drop_last() =~= Seq::empty()); } tr_none(s.drop_last()); }
    assert(trs(s) =~= tre(s));
}
/// what is left starts with the last character at the latest
pub proof fn tr_last(s: T) requires s.len() > 0 ensures trs(s).len() > 0 ==> trs(s).last() == s.last(), ws(s.last()) && trs(s).len() > 0 ==> trs(s).drop_last() == trs(s.drop_last()), !ws(s.last()) ==> trs(s).len() > 0 decreases s.len()
{
    if ws(s[0]) && s.len() > 1 { tr_last(s.skip(1)); assert(s.skip(1).drop_last() =~= s.drop_last().skip(1)); assert(s.skip(1).last() == s.last()); assert(trs(s) == trs(s.skip(1))); assert(s.drop_last()[0] == s[0]); }
    else if ws(s[0]) { assert(s.skip(1) =~= Seq::empty()); assert(trs(s.skip(1)) =~= Seq::empty()); assert(trs(s) =~= Seq::empty()); }
    else { assert(trs(s) == s); if s.len() > 1 { assert(s.drop_last()[0] == s[0]); assert(trs(s.drop_last()) == s.drop_last()); } else { assert(s.last() == s[0]); } }
}
pub open spec fn cut(s: T, c: char) -> Option<T> { if s.len() > 0 && s.last() == c { Some(s.drop_last()) } else { None } }
/// up to and including the first `c`
pub open spec fn upto(s: T, c: char) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == c { 1 } else { 1 + upto(s.skip(1), c) } }
pub broadcast proof fn upto_ok(s: T, c: char)
    ensures 0 <= #[trigger] upto(s, c) <= s.len(), s.len() > 0 ==> upto(s, c) > 0, forall|i: int| 0 <= i < upto(s, c) - 1 ==> s[i] != c,
        upto(s, c) < s.len() ==> s[upto(s, c) - 1] == c
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        upto_ok(s.skip(1), c);
        assert forall|i: int| 0 <= i < upto(s, c) - 1 implies s[i] != c by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
pub open spec fn pieces(s: T, c: char) -> Seq<T> decreases s.len() {
    let n = upto(s, c);
    if s.len() == 0 || !(0 < n <= s.len()) || s[n - 1] != c { seq![s] } else { seq![s.take(n - 1)] + pieces(s.skip(n), c) }
}
pub open spec fn one(s: T, c: char) -> Option<(T, T)> { let n = upto(s, c); if s.len() > 0 && 0 < n <= s.len() && s[n - 1] == c { Some((s.take(n - 1), s.skip(n))) } else { None } }
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn dval(s: T) -> Option<nat> decreases s.len() {
    if s.len() == 0 { Some(0) } else if !digit(s.last()) { None } else { match dval(s.drop_last()) { Some(v) => Some(10 * v + (s.last() as u32 - '0' as u32) as nat), None => None } }
}
/// decimal number, as usize::from_str reads it
pub open spec fn num(s: T) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() == 0 { None } else { match dval(d) { Some(v) if v <= usize::MAX => Some(v), _ => None } }
}
pub uninterp spec fn dec(n: nat) -> T; // decimal text of a number

// std: str and String methods, by their documented meaning
pub trait StrX {
    spec fn v(&self) -> T;
    fn rt_len(&self) -> (r: usize) ensures r == blen(self.v()), r <= isize::MAX;
    fn rt_owned(&self) -> (r: String) ensures r@ == self.v();
    fn rt_is_empty(&self) -> (r: bool) ensures r == (self.v().len() == 0);
    fn rt_trim(&self) -> (r: &str) ensures r@ == tr(self.v());
    fn rt_trim_start(&self) -> (r: &str) ensures r@ == trs(self.v());
    fn rt_trim_end(&self) -> (r: &str) ensures r@ == tre(self.v());
    fn rt_strip_suffix(&self, c: char) -> (r: Option<&str>) ensures match r { Some(x) => cut(self.v(), c) == Some(x@), None => cut(self.v(), c) is None };
    fn rt_split_once(&self, c: char) -> (r: Option<(&str, &str)>) ensures match r { Some(x) => one(self.v(), c) == Some((x.0@, x.1@)), None => one(self.v(), c) is None };
    fn rt_split_at(&self, n: usize) -> (r: (&str, &str)) requires n == 1, self.v().len() > 0, cw(self.v()[0]) == 1 ensures r.0@ == self.v().take(1), r.1@ == self.v().skip(1);
    fn rt_split(&self, c: char) -> (r: Split<'_>) ensures r.rest() == pieces(self.v(), c);
    fn rt_split_inclusive(&self, c: char) -> (r: SplitInclusive<'_>) ensures r.rest() == self.v(), r.sep() == c;
    fn rt_parse_usize(&self) -> (r: Result<usize, ParseIntError>) ensures match r { Ok(n) => num(self.v()) == Some(n as nat), Err(_) => num(self.v()) is None };
}
impl StrX for str {
    open spec fn v(&self) -> T { self@ }
    #[verifier::external_body] // str::len
    fn rt_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] // str::to_string
    fn rt_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] // str::is_empty
    fn rt_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] // str::trim
    fn rt_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] // str::trim_start
    fn rt_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] // str::trim_end
    fn rt_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] // str::strip_suffix of a character
    fn rt_strip_suffix(&self, c: char) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] // str::split_once of a character
    fn rt_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] // str::split_at behind an ASCII character
    fn rt_split_at(&self, n: usize) -> (r: (&str, &str)) { unimplemented!() }
    #[verifier::external_body] // str::split of a character
    fn rt_split(&self, c: char) -> (r: Split<'_>) { unimplemented!() }
    #[verifier::external_body] // str::split_inclusive of a character
    fn rt_split_inclusive(&self, c: char) -> (r: SplitInclusive<'_>) { unimplemented!() }
    #[verifier::external_body] // str::parse::<usize>
    fn rt_parse_usize(&self) -> (r: Result<usize, ParseIntError>) { unimplemented!() }
}
pub trait StringX {
    spec fn sv(&self) -> T;
    fn rt_push(&mut self, c: char) ensures final(self).sv() == old(self).sv().push(c);
    fn rt_push_str(&mut self, s: &str) ensures final(self).sv() == old(self).sv() + s@;
    fn rt_write(&mut self, s: &Arguments) -> (r: Result<(), FmtError>) ensures r is Ok, final(self).sv() == old(self).sv() + s.t();
}
impl StringX for String {
    open spec fn sv(&self) -> T { self@ }
    #[verifier::external_body] // String::push
    fn rt_push(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body] // String::push_str
    fn rt_push_str(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body] // fmt::Write of a String: never fails
    fn rt_write(&mut self, s: &Arguments) -> (r: Result<(), FmtError>) { unimplemented!() }
}
#[verifier::external_body] // String::with_capacity
pub fn rt_string(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] // == of str
pub fn rt_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] // str::to_string
pub fn rt_to_string(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[derive(Debug)]
#[verifier::external_body] // fmt::Error, opaque
pub struct FmtError { x: u8 }
#[verifier::external_body] // fmt::Arguments, by its text
pub struct Arguments { x: u8 }
impl Arguments {
    pub uninterp spec fn t(&self) -> T;
    #[verifier::external_body] // ToString
    pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}
#[verifier::external_body] // format_args!("{n}")
pub fn rt_args(n: usize) -> (r: Arguments) ensures r.t() == dec(n as nat) { unimplemented!() }
#[verifier::external_body] // core::num::ParseIntError, opaque
pub struct ParseIntError { x: u8 }
#[verifier::external_body] // std::io::Error, opaque
pub struct IoError { x: u8 }
#[verifier::external_body] // std::str::Split<char>
pub struct Split<'a> { x: &'a u8 }
impl<'a> Split<'a> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body] // Iterator::next
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(x) => old(self).rest().len() > 0 && x@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) } { unimplemented!() }
}
#[verifier::external_body] // std::str::SplitInclusive<char>
pub struct SplitInclusive<'a> { x: &'a u8 }
impl<'a> SplitInclusive<'a> {
    pub uninterp spec fn rest(&self) -> T;
    pub uninterp spec fn sep(&self) -> char;
    #[verifier::external_body] // Iterator::next
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures final(self).sep() == old(self).sep(), match r { None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(x) => old(self).rest().len() > 0 && x@ == old(self).rest().take(upto(old(self).rest(), old(self).sep())) && final(self).rest() == old(self).rest().skip(upto(old(self).rest(), old(self).sep())) }
    { unimplemented!() }
}

// ---------------------------------------------------------------- spans
#[derive(Copy, Clone)]
pub struct SourceId { pub id: u32 }
#[derive(Copy, Clone)]
pub struct ByteIndex { pub i: u32 }
impl ByteIndex { pub fn to_usize(self) -> (r: usize) ensures r == self.i { self.i as usize } }
#[derive(Copy, Clone)]
pub struct SourceSpan { pub id: SourceId, pub a: u32, pub b: u32 }
impl SourceSpan {
    pub fn start(&self) -> (r: ByteIndex) ensures r.i == self.a { ByteIndex { i: self.a } }
    pub fn end(&self) -> (r: ByteIndex) ensures r.i == self.b { ByteIndex { i: self.b } }
    pub fn source_id(&self) -> (r: SourceId) ensures r == self.id { self.id }
    #[verifier::external_body] // truncates to 32 bits
    pub fn from_range_unchecked(id: SourceId, r: std::ops::Range<usize>) -> (o: SourceSpan) ensures r.start <= u32::MAX ==> o.a == r.start, r.end <= u32::MAX ==> o.b == r.end { unimplemented!() }
}
#[derive(Copy, Clone)]
pub struct Span<X> { pub span: SourceSpan, pub spanned: X }
impl<X> Span<X> {
    pub fn new(span: SourceSpan, spanned: X) -> (r: Self) ensures r.span == span, r.spanned == spanned { Span { span, spanned } }
    pub fn span(&self) -> (r: SourceSpan) ensures r == self.span { self.span }
    pub fn into_parts(self) -> (r: (SourceSpan, X)) ensures r.0 == self.span, r.1 == self.spanned { (self.span, self.spanned) }
    pub fn into_inner(self) -> (r: X) ensures r == self.spanned { self.spanned }
}
impl<'a> Span<&'a str> { // Deref to the text
    pub fn rt_len(&self) -> (r: usize) ensures r == blen(self.spanned@), r <= isize::MAX { self.spanned.rt_len() }
    pub fn rt_trim_end(&self) -> (r: &'a str) ensures r@ == tre(self.spanned@) { self.spanned.rt_trim_end() }
    pub fn rt_strip_suffix(&self, c: char) -> (r: Option<&'a str>) ensures match r { Some(x) => cut(self.spanned@, c) == Some(x@), None => cut(self.spanned@, c) is None } { self.spanned.rt_strip_suffix(c) }
}
impl<'a> Span<Cow<'a, str>> {
    #[verifier::external_body] // str::split_once of a character
    pub fn rt_split_once(&self, c: char) -> (r: Option<(&str, &str)>) ensures match r { Some(x) => one(self.spanned.t(), c) == Some((x.0@, x.1@)), None => one(self.spanned.t(), c) is None } { unimplemented!() }
}
#[verifier::external_body] // diagnostics: FileName
pub struct FileName { x: u8 }
#[verifier::external_body] // diagnostics: SourceFile
pub struct SourceFile { x: u8 }
impl SourceFile {
    pub uninterp spec fn text(&self) -> T;
    #[verifier::external_body] // SourceFile::id
    pub fn id(&self) -> (r: SourceId) { unimplemented!() }
    #[verifier::external_body] // SourceFile::as_str
    pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] // SourceFile::uri, cloned
    pub fn rt_uri(&self) -> (r: FileName) { unimplemented!() }
}

// ---------------------------------------------------------------- feature expressions (P16)
#[verifier::external_body] // regex::Regex, opaque
pub struct Regex { x: u8 }
#[verifier::external_body] // parse errors of feature expressions, opaque
pub struct InvalidBooleanExprError { x: u8 }
impl InvalidBooleanExprError { #[verifier::external_body] /* span only */ pub fn with_span_offset(self, n: usize) -> (r: Self) { unimplemented!() } }
//@@ item lit/src/config/expr/boolean.rs :: enum BooleanExpr
//@@ end
/// which expression a text denotes (proved in unit bool_expr), with expressions identified by `bm`
pub uninterp spec fn bm(e: BooleanExpr) -> int;
pub uninterp spec fn bx(s: T) -> Option<int>;
#[verifier::external_body] // BooleanExpr::from_str
pub fn rt_parse_bool(s: &str) -> (r: Result<BooleanExpr, InvalidBooleanExprError>) ensures match r { Ok(e) => bx(s@) == Some(bm(e)), Err(_) => bx(s@) is None } { unimplemented!() }

// ---------------------------------------------------------------- directives
#[verifier::external_body] // errors of substitutions, opaque
pub struct InvalidSubstitutionPatternError { x: u8 }
//@@ item lit/src/formats/sh/script/directives.rs :: enum InvalidSubstitutionError
//@@ pre `crate::config::` => ``
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: struct RawDirective
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: struct InvalidDirectiveKindError
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: enum DirectiveKind
//@@ derive Copy, Clone, PartialEq, Eq, Structural
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: struct Substitution
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: struct Run
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: enum ScriptCommand
//@@ end
pub open spec fn kname(k: DirectiveKind) -> T {
    match k {
        DirectiveKind::Run => seq!['R', 'U', 'N', ':'], DirectiveKind::Define => seq!['D', 'E', 'F', 'I', 'N', 'E', ':'], DirectiveKind::Redefine => seq!['R', 'E', 'D', 'E', 'F', 'I', 'N', 'E', ':'],
        DirectiveKind::Unsupported => seq!['U', 'N', 'S', 'U', 'P', 'P', 'O', 'R', 'T', 'E', 'D', ':'], DirectiveKind::Requires => seq!['R', 'E', 'Q', 'U', 'I', 'R', 'E', 'S', ':'], DirectiveKind::Xfail => seq!['X', 'F', 'A', 'I', 'L', ':'],
        DirectiveKind::AllowedRetries => seq!['A', 'L', 'L', 'O', 'W', 'E', 'D', '_', 'R', 'E', 'T', 'R', 'I', 'E', 'S', ':'], DirectiveKind::End => seq!['E', 'N', 'D', '.'],
    }
}
/// the keyword a text starts with
pub open spec fn kw(s: T) -> Option<DirectiveKind> {
    if at(s, kname(DirectiveKind::Run)) { Some(DirectiveKind::Run) } else if at(s, kname(DirectiveKind::Define)) { Some(DirectiveKind::Define) }
    else if at(s, kname(DirectiveKind::Redefine)) { Some(DirectiveKind::Redefine) } else if at(s, kname(DirectiveKind::Unsupported)) { Some(DirectiveKind::Unsupported) }
    else if at(s, kname(DirectiveKind::Requires)) { Some(DirectiveKind::Requires) } else if at(s, kname(DirectiveKind::Xfail)) { Some(DirectiveKind::Xfail) }
    else if at(s, kname(DirectiveKind::AllowedRetries)) { Some(DirectiveKind::AllowedRetries) } else if at(s, kname(DirectiveKind::End)) { Some(DirectiveKind::End) } else { None }
}
/// the directive of a line: its leftmost keyword, and everything behind it
pub open spec fn dir(s: T) -> Option<(DirectiveKind, T)> decreases s.len() {
    match kw(s) { Some(k) => Some((k, s.skip(kname(k).len() as int))), None => if s.len() == 0 { None } else { dir(s.skip(1)) } }
}
pub open spec fn no_nl(s: T) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '\n' }
/// keys of DEFINE: `%{name}` (regex SUBSTITUTION_NAME_RE)
pub uninterp spec fn key_ok(k: T) -> bool;
pub proof fn dir_len(s: T) ensures dir(s) matches Some((k, c)) ==> blen(c) <= blen(s) decreases s.len()
{
    match kw(s) {
        Some(k) => { if dir(s) is Some { assert(at(s, kname(k))); blen_cut(s, kname(k).len() as int); } }
        None => { if s.len() > 0 { dir_len(s.skip(1)); } }
    }
}
pub struct KeywordRe;
pub struct LineRe;
pub struct NameRe;
#[verifier::external_body] // Regex::new of the keyword pattern: requires the text the specification is about
pub fn rt_keyword_re(p: &'static str) -> (r: KeywordRe) requires p@ == "(DEFINE:|END\\.|REDEFINE:|REQUIRES:|RUN:|UNSUPPORTED:|XFAIL:|ALLOWED_RETRIES:)(.*)$"@ { unimplemented!() }
#[verifier::external_body] // Regex::new of the line number pattern
pub fn rt_line_re(p: &'static str) -> (r: LineRe) requires p@ == r"%\(line(?<offset> *[+-] *\d+)?\)"@ { unimplemented!() }
#[verifier::external_body] // Regex::new of the pattern of keys
pub fn rt_name_re(p: &'static str) -> (r: NameRe) requires p@ == r"^%\{[_a-zA-Z][-_:0-9a-zA-Z]*\}$"@ { unimplemented!() }
impl NameRe { #[verifier::external_body] /* Regex::is_match */ pub fn is_match(&self, s: &str) -> (r: bool) ensures r == key_ok(s@) { unimplemented!() } }
//@@ item lit/src/formats/sh/script/directives.rs :: static KEYWORD_RE
//@@ sub `static KEYWORD_RE: Regex = Regex::new($p).unwrap();` => `fn rt_kw() -> KeywordRe { rt_keyword_re($p) }`
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: static SUBSTITUTION_NAME_RE
//@@ sub `static SUBSTITUTION_NAME_RE: Regex = Regex::new($p).unwrap();` => `fn rt_name() -> NameRe { rt_name_re($p) }`
//@@ end
//@@ item lit/src/formats/sh/script/parser.rs :: static LINE_NUMBER_RE
//@@ sub `static LINE_NUMBER_RE: Regex = Regex::new($p).unwrap();` => `fn rt_line() -> LineRe { rt_line_re($p) }`
//@@ end
pub struct Captures<'a> { pub s: &'a str, pub a: usize, pub b: usize, pub kw: &'a str, pub rest: &'a str }
pub struct Match<'a> { pub s: &'a str, pub a: usize, pub b: usize }
impl<'a> Match<'a> {
    pub fn range(&self) -> (r: std::ops::Range<usize>) ensures r.start == self.a, r.end == self.b { self.a..self.b }
    pub fn start(&self) -> (r: usize) ensures r == self.a { self.a }
    pub fn end(&self) -> (r: usize) ensures r == self.b { self.b }
    pub fn as_str(&self) -> (r: &'a str) ensures r == self.s { self.s }
}
impl KeywordRe {
    #[verifier::external_body] // Regex::captures: leftmost keyword of the line, `.` matches all but newlines
    pub fn captures<'a>(&self, s: &'a str) -> (r: Option<Captures<'a>>)
        requires no_nl(s@)
        ensures match r {
            None => dir(s@) is None,
            Some(c) => dir(s@) matches Some((k, x)) && c.kw@ == kname(k) && c.rest@ == x && c.a <= c.b <= blen(s@) && blen(x) <= c.b - c.a && blen(s@) <= isize::MAX && c.b == blen(s@),
        } { unimplemented!() }
}
impl<'a> Captures<'a> {
    pub fn get(&self, i: usize) -> (r: Option<Match<'a>>) requires i == 0 ensures r == Some(Match { s: self.s, a: self.a, b: self.b }) { Some(Match { s: self.s, a: self.a, b: self.b }) }
    pub fn rt_extract(&self) -> (r: (&'a str, &'a str)) ensures r.0 == self.kw, r.1 == self.rest { (self.kw, self.rest) }
}
impl DirectiveKind {
//@@ fn lit/src/formats/sh/script/directives.rs :: impl FromStr for DirectiveKind :: from_str
//@@ sig `pub fn from_str(s: &str) -> (r: Result<Self, InvalidDirectiveKindError>)`
//@@ pre `match s { $X _ => $e, }` => `{ let s = rt_word(s); match s { $X _ => $e, } }`
//@@ spec
    ensures match r { Ok(k) => s@ == kname(k), Err(_) => forall|k: DirectiveKind| s@ != #[trigger] kname(k) }
//@@ at entry
    proof { kname_texts(); }
//@@ end
}
pub fn rt_kind(r: Result<DirectiveKind, InvalidDirectiveKindError>) -> (k: DirectiveKind) requires r is Ok ensures r == Ok::<DirectiveKind, InvalidDirectiveKindError>(k) { match r { Ok(k) => k, Err(_) => rt_unreachable() } }
impl<'a> RawDirective<'a> {
//@@ fn lit/src/formats/sh/script/directives.rs :: impl RawDirective :: parse
//@@ ret r
//@@ pre `KEYWORD_RE.with(|re| re.captures($x))` => `rt_kw().captures($x)`
//@@ pre `let (_, [$a, $b]) = captures.extract();` => `let ($a, $b) = captures.rt_extract();`
//@@ pre `captures.get(0).unwrap()` => `(match captures.get(0) { Some(m) => m, None => rt_unreachable() })`
//@@ pre `keyword.parse::<DirectiveKind>().unwrap()` => `rt_kind(DirectiveKind::from_str(keyword))`
//@@ spec
    requires no_nl(input.spanned@), input.span.a + blen(input.spanned@) <= u32::MAX,
    ensures match r {
        None => dir(input.spanned@) is None,
        Some(d) => dir(input.spanned@) == Some((d.spanned.kind, d.spanned.content@)) && d.span.a + blen(d.spanned.content@) <= d.span.b && d.span.b == input.span.a + blen(input.spanned@),
    },
//@@ at entry
    proof { dir_names(); dir_len(input.spanned@); }
//@@ end
}
pub proof fn kname_texts() ensures "RUN:"@ == kname(DirectiveKind::Run), "DEFINE:"@ == kname(DirectiveKind::Define), "REDEFINE:"@ == kname(DirectiveKind::Redefine), "UNSUPPORTED:"@ == kname(DirectiveKind::Unsupported), "REQUIRES:"@ == kname(DirectiveKind::Requires), "XFAIL:"@ == kname(DirectiveKind::Xfail), "ALLOWED_RETRIES:"@ == kname(DirectiveKind::AllowedRetries), "END."@ == kname(DirectiveKind::End)
{ reveal_strlit("RUN:"); assert("RUN:"@ =~= kname(DirectiveKind::Run)); reveal_strlit("DEFINE:"); assert("DEFINE:"@ =~= kname(DirectiveKind::Define)); reveal_strlit("REDEFINE:"); assert("REDEFINE:"@ =~= kname(DirectiveKind::Redefine)); reveal_strlit("UNSUPPORTED:"); assert("UNSUPPORTED:"@ =~= kname(DirectiveKind::Unsupported)); reveal_strlit("REQUIRES:"); assert("REQUIRES:"@ =~= kname(DirectiveKind::Requires)); reveal_strlit("XFAIL:"); assert("XFAIL:"@ =~= kname(DirectiveKind::Xfail)); reveal_strlit("ALLOWED_RETRIES:"); assert("ALLOWED_RETRIES:"@ =~= kname(DirectiveKind::AllowedRetries)); reveal_strlit("END."); assert("END."@ =~= kname(DirectiveKind::End)); }
pub proof fn dir_names() ensures forall|a: DirectiveKind, b: DirectiveKind| #[trigger] kname(a) == #[trigger] kname(b) ==> a == b
{
    assert forall|a: DirectiveKind, b: DirectiveKind| #[trigger] kname(a) == #[trigger] kname(b) implies a == b by { assert(kname(a)[0] == kname(b)[0] && kname(a).len() == kname(b).len() && kname(a)[2] == kname(b)[2]); }
}
#[verifier::external_body] // matching on a literal compares texts
pub fn rt_word(s: &str) -> (r: &str) ensures r == s, forall|b: &str| #[trigger] b@ == s@ ==> b == s { s }

// ---------------------------------------------------------------- lines
/// a line without its end
pub open spec fn chomp(l: T) -> T {
    let a = if l.len() > 0 && l.last() == '\n' { l.drop_last() } else { l };
    if a.len() > 0 && a.last() == '\r' { a.drop_last() } else { a }
}
pub open spec fn line0(s: T) -> T { chomp(s.take(upto(s, '\n'))) }
pub open spec fn after(s: T) -> T { s.skip(upto(s, '\n')) }
pub proof fn line_ok(s: T) requires s.len() > 0
    ensures no_nl(line0(s)), after(s).len() < s.len(), blen(s) == blen(s.take(upto(s, '\n'))) + blen(after(s)), blen(s.take(upto(s, '\n'))) > 0,
{
    upto_ok(s, '\n'); blen_cut(s, upto(s, '\n'));
    let l = s.take(upto(s, '\n'));
    if l.last() != '\n' { assert(upto(s, '\n') == s.len()); }
}
//@@ item lit/src/formats/sh/script/parser.rs :: struct Lines
//@@ pre `std::str::SplitInclusive<'a, char>` => `SplitInclusive<'a>`
//@@ end
impl<'a> Lines<'a> {
    pub open spec fn rest(&self) -> T { self.iter.rest() }
    pub open spec fn wf(&self) -> bool { self.iter.sep() == '\n' && self.offset + blen(self.rest()) <= u32::MAX && self.current_line <= self.offset }
//@@ fn lit/src/formats/sh/script/parser.rs :: impl Lines :: new
//@@ ret r
//@@ pre `.split_inclusive` => `.rt_split_inclusive`
//@@ spec
    requires blen(s@) <= u32::MAX
    ensures r.rest() == s@, r.wf(), r.current_line == 0
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl Iterator for Lines :: next
//@@ sig `pub fn next(&mut self) -> (r: Option<Span<&'a str>>)`
//@@ pre `line.strip_suffix($c).map(|line| $a).unwrap_or($b)` => `(match line.strip_suffix($c) { Some(line) => $a, None => $b })`
//@@ pre `.strip_suffix` => `.rt_strip_suffix`
//@@ pre `line.len()` => `line.rt_len()`
//@@ spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self).rest().len() == 0 && final(self).rest().len() == 0 && final(self).current_line == old(self).current_line,
        Some(l) => old(self).rest().len() > 0 && l.spanned@ == line0(old(self).rest()) && final(self).rest() == after(old(self).rest()) && final(self).current_line == old(self).current_line + 1
            && no_nl(l.spanned@) && l.span.b == l.span.a + blen(l.spanned@),
    }
//@@ at entry
    proof {
        let s = self.rest();
        if s.len() > 0 { line_ok(s); let l = s.take(upto(s, '\n')); blen_last(l); let a = if l.last() == '\n' { l.drop_last() } else { l }; if a.len() > 0 { blen_last(a); } }
    }
//@@ end
}

// ---------------------------------------------------------------- line numbers
pub uninterp spec fn isd(c: char) -> bool; // \d
pub open spec fn sp(s: T) -> nat decreases s.len() { if s.len() > 0 && s[0] == ' ' { 1 + sp(s.skip(1)) } else { 0 } }
pub open spec fn nd(s: T) -> nat decreases s.len() { if s.len() > 0 && isd(s[0]) { 1 + nd(s.skip(1)) } else { 0 } }
pub open spec fn LINE() -> T { seq!['%', '(', 'l', 'i', 'n', 'e'] }
/// `%(line)`, `%(line+n)`, `%(line-n)` at the start: its length, and the text between `line` and the parenthesis
pub open spec fn lm(s: T) -> Option<(int, Option<T>)> {
    let r = s.skip(6);
    let a = sp(r) as int;
    let b = sp(r.skip(a + 1)) as int;
    let d = nd(r.skip(a + 1 + b)) as int;
    let e = a + 1 + b + d;
    if !at(s, LINE()) { None }
    else if r.len() > 0 && r[0] == ')' { Some((7, None)) }
    else if a < r.len() && (r[a] == '+' || r[a] == '-') && a + 1 + b < r.len() && d > 0 && e < r.len() && r[e] == ')' { Some((7 + e, Some(r.take(e)))) }
    else { None }
}
/// the line an offset refers to, None for an offset that is no number
pub open spec fn offset(o: T, n: nat) -> Option<nat> {
    let t = trs(o);
    match num(trs(t.skip(1))) {
        Some(v) => Some(if t[0] == '-' { if v <= n { (n - v) as nat } else { 0 } } else if n + v <= usize::MAX { n + v } else { usize::MAX as nat }),
        None => None,
    }
}
/// a text with its line numbers substituted, and whether that went well
pub open spec fn lsub(s: T, n: nat) -> (T, bool) decreases s.len() {
    if s.len() == 0 { (s, true) } else {
        match lm(s) {
            Some((l, o)) => {
                let x = if 0 < l <= s.len() { lsub(s.skip(l), n) } else { (s, true) };
                match o {
                    None => (dec(n) + x.0, x.1),
                    Some(o) => match offset(o, n) { Some(m) => (dec(m) + x.0, x.1), None => (dec(n) + x.0, false) },
                }
            }
            None => { let x = lsub(s.skip(1), n); (seq![s[0]] + x.0, x.1) }
        }
    }
}
/// where the next line number is
pub open spec fn lfind(s: T) -> Option<int> decreases s.len() {
    if lm(s) is Some { Some(0) } else if s.len() == 0 { None } else { match lfind(s.skip(1)) { Some(i) => Some(i + 1), None => None } }
}
pub proof fn sp_trs(r: T, a: int) requires a == sp(r), a < r.len(), !ws(r[a]) ensures trs(r) == r.skip(a), a >= 0 decreases r.len()
{
    broadcast use ws_sp;
    if r[0] == ' ' { sp_trs(r.skip(1), a - 1); assert(r.skip(1).skip(a - 1) =~= r.skip(a)); } else { assert(r.skip(0) =~= r); }
}
pub proof fn sp_take(r: T, e: int) requires sp(r) < e <= r.len() ensures sp(r.take(e)) == sp(r) decreases r.len()
{ if r[0] == ' ' { assert(r.take(e).skip(1) =~= r.skip(1).take(e - 1)); sp_take(r.skip(1), e - 1); } }
pub proof fn lm_ok(s: T) ensures lm(s) matches Some((l, o)) ==> 0 < l <= s.len() && (o matches Some(o) ==> trs(o).len() > 0 && (trs(o)[0] == '+' || trs(o)[0] == '-'))
{
    broadcast use ws_sp;
    if let Some((l, Some(o))) = lm(s) {
        let r = s.skip(6);
        let a = sp(r) as int;
        sp_take(r, l - 7);
        sp_trs(o, a);
    }
}
pub proof fn lfind_ok(s: T, n: nat)
    ensures match lfind(s) {
        None => lsub(s, n) == (s, true),
        Some(i) => 0 <= i < s.len() && lm(s.skip(i)) is Some && lsub(s, n) == (s.take(i) + lsub(s.skip(i), n).0, lsub(s.skip(i), n).1),
    } decreases s.len()
{
    lm_ok(s);
    if lm(s) is Some { assert(s.skip(0) =~= s); assert(s.take(0) + lsub(s, n).0 =~= lsub(s, n).0); }
    else if s.len() > 0 {
        let u = s.skip(1);
        lfind_ok(u, n);
        match lfind(u) {
            Some(i) => { assert(u.skip(i) =~= s.skip(i + 1)); assert(seq![s[0]] + (u.take(i) + lsub(u.skip(i), n).0) =~= s.take(i + 1) + lsub(s.skip(i + 1), n).0); }
            None => { assert(seq![s[0]] + u =~= s); }
        }
    }
}
pub struct LineCaps<'a> { pub m: Match<'a>, pub off: Option<Match<'a>> }
impl<'a> LineCaps<'a> {
    pub fn get(&self, i: usize) -> (r: Option<Match<'a>>) requires i == 0 ensures r == Some(self.m) { Some(Match { s: self.m.s, a: self.m.a, b: self.m.b }) }
    pub fn rt_offset(&self) -> (r: Option<Match<'a>>) ensures r == self.off { match &self.off { Some(m) => Some(Match { s: m.s, a: m.a, b: m.b }), None => None } }
}
#[verifier::external_body] // regex::CaptureMatches of the line number pattern
pub struct LineIter<'a> { x: &'a u8 }
impl<'a> LineIter<'a> {
    pub uninterp spec fn s(&self) -> T;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] // Iterator::next: leftmost non-overlapping matches
    pub fn next(&mut self) -> (r: Option<LineCaps<'a>>)
        ensures final(self).s() == old(self).s(), match r {
            None => lfind(old(self).s().skip(old(self).pos())) is None && final(self).pos() == old(self).pos(),
            Some(c) => lfind(old(self).s().skip(old(self).pos())) matches Some(i) && cap_at(c, old(self).s(), old(self).pos() + i) && final(self).pos() == old(self).pos() + i + lm(old(self).s().skip(old(self).pos() + i))->Some_0.0,
        } { unimplemented!() }
}
pub open spec fn cap_at(c: LineCaps<'_>, s: T, i: int) -> bool {
    &&& lm(s.skip(i)) matches Some((l, o)) && c.m.a == blen(s.take(i)) && c.m.b == blen(s.take(i + l)) && 0 <= i <= i + l <= s.len()
        && (o is None <==> c.off is None) && (c.off matches Some(m) ==> m.s@ == o->Some_0 && m.a <= m.b <= blen(s))
    &&& blen(s) <= isize::MAX
}
impl LineRe {
    #[verifier::external_body] // Regex::captures_iter
    pub fn captures_iter<'a>(&self, s: &'a str) -> (r: LineIter<'a>) ensures r.s() == s@, r.pos() == 0 { unimplemented!() }
}
#[verifier::external_body] // the text between two byte positions
pub fn rt_slice(s: &str, a: usize, b: usize) -> (r: &str)
    requires exists|i: int, j: int| 0 <= i <= j <= s@.len() && blen(#[trigger] s@.take(i)) == a && blen(#[trigger] s@.take(j)) == b
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && blen(#[trigger] s@.take(i)) == a && blen(#[trigger] s@.take(j)) == b ==> r@ == s@.subrange(i, j) { unimplemented!() }
#[verifier::external_body] // the text from a byte position on
pub fn rt_from(s: &str, a: usize) -> (r: &str)
    requires exists|i: int| 0 <= i <= s@.len() && blen(#[trigger] s@.take(i)) == a
    ensures forall|i: int| 0 <= i <= s@.len() && blen(#[trigger] s@.take(i)) == a ==> r@ == s@.skip(i) { unimplemented!() }

//@@ item lit/src/formats/sh/script/parser.rs :: struct StringRewriter
//@@ end
impl<'a> StringRewriter<'a> {
    pub open spec fn t(&self) -> T { self.buf.t() }
//@@ fn lit/src/formats/sh/script/parser.rs :: impl StringRewriter :: new
//@@ ret r
//@@ spec
    ensures r.t() == s@
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl StringRewriter :: build
//@@ ret r
//@@ spec
    ensures r.t() == self.t()
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl StringRewriter :: push
//@@ pre `Cow::Borrowed("") =>` => `Cow::Borrowed(prev) if prev.is_empty() =>`
//@@ pre `String::with_capacity($x)` => `rt_string(0)`
//@@ pre `.push_str` => `.rt_push_str`
//@@ pre `.push(` => `.rt_push(`
//@@ pre `.is_empty()` => `.rt_is_empty()`
//@@ spec
    ensures final(self).t() == old(self).t().push(c)
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl StringRewriter :: push_str
//@@ pre `Cow::Borrowed(ref mut buf) if buf.is_empty() => { *buf = $x; }` => `Cow::Borrowed(rt_b) if rt_b.is_empty() => { self.buf = Cow::Borrowed($x); }`
//@@ pre `Cow::Borrowed("") =>` => `Cow::Borrowed(prev) if prev.is_empty() =>`
//@@ pre `String::with_capacity($x)` => `rt_string(0)`
//@@ pre `.push_str` => `.rt_push_str`
//@@ pre `.is_empty()` => `.rt_is_empty()`
//@@ spec
    ensures final(self).t() == old(self).t() + s@
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl StringRewriter :: push_format
//@@ ret r
//@@ pre `s: fmt::Arguments<'_>` => `s: Arguments`
//@@ pre `fmt::Result` => `Result<(), FmtError>`
//@@ pre `use std::fmt::Write;` => ``
//@@ pre `write!(&mut $b, "{s}")` => `$b.rt_write(&s)`
//@@ pre `write!($b, "{s}")` => `$b.rt_write(&s)`
//@@ pre `Cow::Borrowed("") =>` => `Cow::Borrowed(prev) if prev.is_empty() =>`
//@@ pre `String::with_capacity($x)` => `rt_string(0)`
//@@ pre `.push_str` => `.rt_push_str`
//@@ pre `.is_empty()` => `.rt_is_empty()`
//@@ spec
    ensures r is Ok, final(self).t() == old(self).t() + s.t()
//@@ end
}
//@@ item lit/src/formats/sh/script/mod.rs :: enum TestScriptError
//@@ pre `std::io::Error` => `IoError`
//@@ pre `core::num::ParseIntError` => `ParseIntError`
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: push_str_replacing_line_numbers
//@@ pre `LINE_NUMBER_RE.with(|re| { $B })` => `{ let re = rt_line(); $B }`
//@@ pre `unsafe { core::str::from_utf8_unchecked(&input.as_bytes()[$a..$b]) }` => `rt_slice(input, $a, $b)`
//@@ pre `&input[$a..]` => `rt_from(input, $a)`
//@@ pre `captures.get(0).unwrap()` => `(match captures.get(0) { Some(m) => m, None => rt_unreachable() })`
//@@ pre `captures.name("offset")` => `captures.rt_offset()`
//@@ pre `format_args!("{line}")` => `rt_args(line)`
//@@ pre `format_args!("{current_line}")` => `rt_args(current_line)`
//@@ pre `.trim_start()` => `.rt_trim_start()`
//@@ pre `.split_at` => `.rt_split_at`
//@@ pre `.parse::<usize>()` => `.rt_parse_usize()`
//@@ pre `sign == $s` => `rt_eq(sign, $s)`
//@@ pre `for captures in re.captures_iter(input) { $B }` => `{ let mut rt_it = re.captures_iter(input); loop { match rt_it.next() { None => { break; } Some(captures) => { $B } } } }`
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires span.start <= u32::MAX,
    ensures
        final(buf).t() == old(buf).t() + lsub(input@, current_line as nat).0,
        final(errors)@.len() > 0 <==> old(errors)@.len() > 0 || !lsub(input@, current_line as nat).1,
        final(errors)@.len() >= old(errors)@.len(),
//@@ at entry
    hide(lsub); hide(lfind); hide(lm); hide(num); hide(trs);
    let ghost mut p: int = 0;
    proof { assert(input@.skip(0) =~= input@); assert(input@.take(0) =~= Seq::<char>::empty()); }
//@@ loop 0
    invariant span.start <= u32::MAX, rt_it.s() == input@, 0 <= p <= input@.len(), rt_it.pos() == p, last_match == blen(input@.take(p)),
        buf.t() + lsub(input@.skip(p), current_line as nat).0 == old(buf).t() + lsub(input@, current_line as nat).0,
        (errors@.len() > 0 || !lsub(input@.skip(p), current_line as nat).1) <==> (old(errors)@.len() > 0 || !lsub(input@, current_line as nat).1),
        errors@.len() >= old(errors)@.len(),
    ensures lfind(input@.skip(p)) is None,
//@@ at loop 0 start
    let ghost (b0, p0) = (buf.t(), p);
    proof {
        reveal_strlit("-"); assert("-"@ =~= seq!['-']);
        line_step(input@, p, current_line as nat, buf.t());
        if let Some(i) = lfind(input@.skip(p)) { p = p + i + lm(input@.skip(p + i))->Some_0.0; }
    }
//@@ at loop 0 after
    proof { lfind_ok(input@.skip(p), current_line as nat); }
//@@ end
/// what stands for a line number
pub open spec fn subst(o: Option<T>, n: nat) -> (T, bool) { match o { None => (dec(n), true), Some(o) => match offset(o, n) { Some(m) => (dec(m), true), None => (dec(n), false) } } }
pub proof fn line_step(s: T, p: int, n: nat, b: T)
    requires 0 <= p <= s.len()
    ensures lfind(s.skip(p)) matches Some(i) ==> {
        let m = s.skip(p + i);
        let (l, o) = lm(m)->Some_0;
        &&& lm(m) is Some && 0 <= i && 0 < l && p + i + l <= s.len()
        &&& ((b + s.subrange(p, p + i)) + subst(o, n).0) + lsub(s.skip(p + i + l), n).0 == b + lsub(s.skip(p), n).0
        &&& lsub(s.skip(p), n).1 == (subst(o, n).1 && lsub(s.skip(p + i + l), n).1)
        &&& o matches Some(o) ==> trs(o).len() > 0 && cw(trs(o)[0]) == 1 && (trs(o).take(1) == seq!['-'] <==> trs(o)[0] == '-')
    }
{
    let r0 = s.skip(p);
    lfind_ok(r0, n);
    if let Some(i) = lfind(r0) {
        let m = r0.skip(i);
        assert(m =~= s.skip(p + i));
        lm_ok(m);
        let (l, o) = lm(m)->Some_0;
        let d = subst(o, n);
        assert(m.skip(l) =~= s.skip(p + i + l));
        let x = lsub(m.skip(l), n);
        assert(s.subrange(p, p + i) =~= r0.take(i));
        assert(lsub(m, n) == (d.0 + x.0, d.1 && x.1));
        assert(((b + r0.take(i)) + d.0) + x.0 =~= b + (r0.take(i) + (d.0 + x.0)));
        if let Some(o) = o { assert(trs(o).take(1) =~= seq![trs(o)[0]]); assert(seq!['-'][0] == '-'); assert(seq!['+'][0] == '+'); }
    }
}

// ---------------------------------------------------------------- the script of a text
pub enum Cmd { Run { line: nat, text: T }, Sub { line: nat, key: T, value: T, replace: bool } }
pub open spec fn cv(c: ScriptCommand) -> Cmd {
    match c {
        ScriptCommand::Run(r) => Cmd::Run { line: r.line as nat, text: r.command@ },
        ScriptCommand::Substitution(d) => Cmd::Sub { line: d.line as nat, key: d.key@, value: d.value@, replace: d.replace },
    }
}
pub struct St { pub cmds: Seq<Cmd>, pub requires_: Seq<int>, pub unsupported: Seq<int>, pub xfails: Seq<int>, pub retries: Option<nat>, pub bad: bool }
pub struct Joined { pub text: T, pub rest: T, pub n: nat, pub bad: bool }
/// what line `n` adds to a directive continued on it, whether it is well formed, and whether it is continued itself
pub open spec fn cline(k: DirectiveKind, l: T, n: nat, collapse: bool) -> (T, bool, bool) {
    let (c, bad) = match dir(l) { Some((k2, c)) => (c, k2 != k), None => (l, true) };
    let more = cut(c, '\\') is Some;
    let b = if more { cut(c, '\\')->Some_0 } else { tre(c) };
    let b = if !collapse { b } else if more { tr(b) } else { trs(b) };
    let x = lsub(b, n);
    ((if collapse { seq![' '] } else { seq!['\\', '\n'] }) + x.0, bad || !x.1, more)
}
/// the lines a directive continues on: `acc` is its text so far, `n` the number of its last line
pub open spec fn cont(k: DirectiveKind, s: T, n: nat, acc: T, bad: bool, collapse: bool) -> Joined decreases s.len() {
    if s.len() == 0 { Joined { text: acc, rest: s, n, bad: true } } // nothing to continue on
    else {
        let (x, b, more) = cline(k, line0(s), n + 1, collapse);
        if more && after(s).len() < s.len() { cont(k, after(s), n + 1, acc + x, bad || b, collapse) } else { Joined { text: acc + x, rest: after(s), n: n + 1, bad: bad || b } }
    }
}
pub open spec fn joined(k: DirectiveKind, c: T, s: T, n: nat, collapse: bool) -> Joined {
    let more = cut(c, '\\') is Some;
    let x = lsub(trs(if more { cut(c, '\\')->Some_0 } else { tre(c) }), n);
    if more { cont(k, s, n, x.0, !x.1, collapse) } else { Joined { text: x.0, rest: s, n, bad: !x.1 } }
}
pub open spec fn define(st: St, text: T, line: nat, replace: bool) -> St {
    match one(text, '=') {
        Some((k, v)) if key_ok(tr(k)) => St { cmds: st.cmds.push(Cmd::Sub { line, key: tr(k), value: tr(v), replace }), ..st },
        _ => St { bad: true, ..st },
    }
}
pub open spec fn condition(s: T) -> Option<int> { if tr(s) == seq!['*'] { Some(bm(BooleanExpr::Lit(true))) } else { bx(tr(s)) } }
pub open spec fn conditions(k: DirectiveKind, ps: Seq<T>, st: St) -> St decreases ps.len() {
    if ps.len() == 0 { st } else {
        conditions(k, ps.skip(1), match (condition(ps[0]), k) {
            (Some(e), DirectiveKind::Requires) => St { requires_: st.requires_.push(e), ..st },
            (Some(e), DirectiveKind::Unsupported) => St { unsupported: st.unsupported.push(e), ..st },
            (Some(e), _) => St { xfails: st.xfails.push(e), ..st },
            (None, _) => St { bad: true, ..st },
        })
    }
}
pub open spec fn retries(c: T, st: St) -> St {
    match num(tr(c)) { Some(n) if st.retries is None => St { retries: Some(n), ..st }, _ => St { bad: true, ..st } }
}
/// what the lines of `s`, which follow line `n`, add to a script
pub open spec fn script(s: T, n: nat, st: St) -> St decreases s.len() {
    if s.len() == 0 || after(s).len() >= s.len() { st } else {
        let r = after(s);
        match dir(line0(s)) {
            None => script(r, n + 1, st),
            Some((k, c)) => match k {
                DirectiveKind::End => if tr(c).len() == 0 { st } else { script(r, n + 1, st) },
                DirectiveKind::Run => {
                    let j = joined(k, c, r, n + 1, false);
                    if j.rest.len() <= r.len() { script(j.rest, j.n, St { cmds: st.cmds.push(Cmd::Run { line: n + 1, text: j.text }), bad: st.bad || j.bad, ..st }) } else { st }
                }
                DirectiveKind::Define | DirectiveKind::Redefine => {
                    let j = joined(k, c, r, n + 1, true);
                    if j.rest.len() <= r.len() { script(j.rest, j.n, define(St { bad: st.bad || j.bad, ..st }, j.text, n + 1, k is Redefine)) } else { st }
                }
                DirectiveKind::AllowedRetries => script(r, n + 1, retries(c, st)),
                _ => script(r, n + 1, conditions(k, pieces(c, ','), st)),
            },
        }
    }
}
pub open spec fn nothing() -> St { St { cmds: seq![], requires_: seq![], unsupported: seq![], xfails: seq![], retries: None, bad: false } }
pub open spec fn runs(cs: Seq<Cmd>) -> bool { exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]) is Run }
pub proof fn cont_len(k: DirectiveKind, s: T, n: nat, acc: T, bad: bool, collapse: bool) ensures cont(k, s, n, acc, bad, collapse).rest.len() <= s.len() decreases s.len()
{
    if s.len() > 0 {
        line_ok(s);
        let (x, b, more) = cline(k, line0(s), n + 1, collapse);
        if more { cont_len(k, after(s), n + 1, acc + x, bad || b, collapse); }
    }
}
pub proof fn joined_len(k: DirectiveKind, c: T, s: T, n: nat, collapse: bool) ensures joined(k, c, s, n, collapse).rest.len() <= s.len()
{
    let more = cut(c, '\\') is Some;
    let x = lsub(trs(if more { cut(c, '\\')->Some_0 } else { tre(c) }), n);
    if more { cont_len(k, s, n, x.0, !x.1, collapse); }
}
pub proof fn script_step(s: T, n: nat, st: St)
    ensures s.len() == 0 ==> script(s, n, st) == st,
        s.len() > 0 ==> script(s, n, st) == (match dir(line0(s)) {
            None => script(after(s), n + 1, st),
            Some((k, c)) => match k {
                DirectiveKind::End => if tr(c).len() == 0 { st } else { script(after(s), n + 1, st) },
                DirectiveKind::Run => { let j = joined(k, c, after(s), n + 1, false); script(j.rest, j.n, St { cmds: st.cmds.push(Cmd::Run { line: n + 1, text: j.text }), bad: st.bad || j.bad, ..st }) }
                DirectiveKind::Define | DirectiveKind::Redefine => { let j = joined(k, c, after(s), n + 1, true); script(j.rest, j.n, define(St { bad: st.bad || j.bad, ..st }, j.text, n + 1, k is Redefine)) }
                DirectiveKind::AllowedRetries => script(after(s), n + 1, retries(c, st)),
                _ => script(after(s), n + 1, conditions(k, pieces(c, ','), st)),
            },
        })
{
    if s.len() > 0 {
        line_ok(s);
        match dir(line0(s)) { Some((k, c)) => { joined_len(k, c, after(s), n + 1, false); joined_len(k, c, after(s), n + 1, true); } None => {} }
    }
}
#[verifier::external_body] // miette::Report, opaque
pub struct Report { x: u8 }
#[verifier::external_body] // Report::from, with_source_code
pub fn rt_report(e: InvalidTestScriptError) -> Report { unimplemented!() }
//@@ item lit/src/formats/sh/script/mod.rs :: struct InvalidTestScriptError
//@@ end
impl InvalidTestScriptError {
//@@ fn lit/src/formats/sh/script/mod.rs :: impl InvalidTestScriptError :: new
//@@ ret r
//@@ spec
    ensures r.errors == errors
//@@ end
}
//@@ item lit/src/formats/sh/script/mod.rs :: struct TestScript
//@@ end
pub open spec fn es(x: Seq<Span<BooleanExpr>>) -> Seq<int> { x.map_values(|e: Span<BooleanExpr>| bm(e.spanned)) }
pub broadcast proof fn es_push(x: Seq<Span<BooleanExpr>>, e: Span<BooleanExpr>) ensures #[trigger] es(x.push(e)) == es(x).push(bm(e.spanned)) { assert(es(x.push(e)) =~= es(x).push(bm(e.spanned))); }
pub open spec fn cs(x: Seq<ScriptCommand>) -> Seq<Cmd> { x.map_values(|c: ScriptCommand| cv(c)) }
pub broadcast proof fn cs_push(x: Seq<ScriptCommand>, c: ScriptCommand) ensures #[trigger] cs(x.push(c)) == cs(x).push(cv(c)) { assert(cs(x.push(c)) =~= cs(x).push(cv(c))); }
impl TestScript {
    pub open spec fn st(&self, bad: bool) -> St {
        St { cmds: cs(self.commands@), requires_: es(self.requires@), unsupported: es(self.unsupported@), xfails: es(self.xfails@), retries: match self.allowed_retries { Some(n) => Some(n.spanned as nat), None => None }, bad }
    }
//@@ fn lit/src/formats/sh/script/mod.rs :: impl TestScript :: parse
//@@ sig `pub fn parse(source: std::sync::Arc<SourceFile>) -> (r: Result<TestScript, Report>)`
//@@ pre `parser.parse().map_err(|err| $x)` => `match parser.parse() { Ok(rt_x) => Ok(rt_x), Err(err) => Err(rt_report(err)) }`
//@@ spec
    requires blen(source.text()) <= u32::MAX
    ensures ({ let o = script(source.text(), 0, nothing()); match r { Ok(t) => !o.bad && runs(o.cmds) && t.st(false) == o, Err(_) => o.bad || !runs(o.cmds) } })
//@@ end
    #[verifier::external_body] // derived Default
    pub fn default() -> (r: Self) ensures r.st(false) == nothing() { unimplemented!() }
}
#[verifier::external_body] // derived From of an error, to be reported
pub fn rt_error<E>(e: E) -> TestScriptError { unimplemented!() }
impl Substitution {
//@@ fn lit/src/formats/sh/script/directives.rs :: impl Substitution#0 :: new
//@@ ret r
//@@ pre `SUBSTITUTION_NAME_RE.with(|re| re.is_match($x))` => `rt_name().is_match($x)`
//@@ pre `.to_string()` => `.rt_owned()`
//@@ spec
    ensures match r { Ok(d) => key_ok(key@) && cv(ScriptCommand::Substitution(d)) == (Cmd::Sub { line: line as nat, key: key@, value: value@, replace }), Err(_) => !key_ok(key@) }
//@@ end
}
//@@ item lit/src/formats/sh/script/parser.rs :: struct TestScriptParser
//@@ end
impl<'a> TestScriptParser<'a> {
    pub open spec fn st(&self) -> St { self.script.st(self.errors@.len() > 0) }
    pub open spec fn wf(&self) -> bool { self.lines.wf() && self.current_line_number == self.lines.current_line }
//@@ fn lit/src/formats/sh/script/parser.rs :: impl TestScriptParser :: new
//@@ ret r
//@@ spec
    requires blen(source.text()) <= u32::MAX
    ensures r.wf(), r.st() == nothing(), r.lines.rest() == source.text(), r.lines.current_line == 0
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl TestScriptParser :: parse
//@@ sig `pub fn parse(self) -> (r: Result<TestScript, InvalidTestScriptError>)`
//@@ pre `rt_self.source.uri().clone()` => `rt_self.source.rt_uri()`
//@@ spec
    requires self.wf(), self.st() == nothing(), self.current_line_number == 0,
    ensures ({ let o = script(self.lines.rest(), 0, nothing()); match r {
        Ok(t) => !o.bad && runs(o.cmds) && t.st(false) == o,
        Err(e) => e.errors@.len() > 0 && (o.bad || !runs(o.cmds)),
    } })
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl TestScriptParser :: try_parse
//@@ ret r
//@@ pre `while let Some(line) = self.next_line() { $B }` => `loop { match self.next_line() { None => { break; } Some(line) => { $B } } }`
//@@ pre `self.script.commands.iter().any(|c| matches!(c, ScriptCommand::Run(_)))` => `rt_any_run(&self.script.commands)`
//@@ pre `directive.kind` => `directive.spanned.kind`
//@@ pre `directive.content` => `directive.spanned.content`
//@@ pre `.trim()` => `.rt_trim()`
//@@ pre `.is_empty()` => `.rt_is_empty()`
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires old(self).wf(),
    ensures
        r is Ok,
        ({ let o = script(old(self).lines.rest(), old(self).current_line_number as nat, old(self).st());
            final(self).st() == (St { bad: o.bad || !runs(o.cmds), ..o }) }),
//@@ loop 0
    invariant_except_break script(self.lines.rest(), self.current_line_number as nat, self.st()) == script(old(self).lines.rest(), old(self).current_line_number as nat, old(self).st()),
    invariant self.wf(),
    ensures self.st() == script(old(self).lines.rest(), old(self).current_line_number as nat, old(self).st()),
//@@ at loop 0 start
    proof { script_step(self.lines.rest(), self.current_line_number as nat, self.st()); }
//@@ at entry
    hide(script); hide(joined); hide(conditions); hide(retries); hide(define); hide(dir); hide(line0); hide(after); hide(pieces); hide(tr); hide(blen);
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl TestScriptParser :: next_line
//@@ ret r
//@@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).script == old(self).script, final(self).errors == old(self).errors, final(self).effective_line_number == old(self).effective_line_number, match r {
        None => old(self).lines.rest().len() == 0 && final(self).lines.rest().len() == 0 && final(self).current_line_number == old(self).current_line_number,
        Some(l) => old(self).lines.rest().len() > 0 && l.spanned@ == line0(old(self).lines.rest()) && final(self).lines.rest() == after(old(self).lines.rest()) && final(self).current_line_number == old(self).current_line_number + 1
            && no_nl(l.spanned@) && l.span.b == l.span.a + blen(l.spanned@),
    }
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl TestScriptParser :: parse_line
//@@ ret r
//@@ pre `cont_directive.kind` => `cont_directive.spanned.kind`
//@@ pre `directive.kind` => `directive.spanned.kind`
//@@ pre `directive.content` => `directive.spanned.content`
//@@ pre `.trim()` => `.rt_trim()`
//@@ pre `.trim_start()` => `.rt_trim_start()`
//@@ pre `.trim_end()` => `.rt_trim_end()`
//@@ pre `.strip_suffix` => `.rt_strip_suffix`
//@@ pre `.len()` => `.rt_len()`
//@@ pre `span.clone()` => `(span.start..span.end)`
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires old(self).wf(), directive.span.a + blen(directive.spanned.content@) <= directive.span.b,
    ensures
        ({ let j = joined(directive.spanned.kind, directive.spanned.content@, old(self).lines.rest(), old(self).current_line_number as nat, collapse_whitespace);
            &&& r matches Ok(x) && x.spanned.t() == j.text
            &&& final(self).wf() && final(self).lines.rest() == j.rest && final(self).current_line_number == j.n && final(self).script == old(self).script && final(self).effective_line_number == old(self).effective_line_number
            &&& final(self).errors@.len() > 0 <==> old(self).errors@.len() > 0 || j.bad }),
//@@ at entry
    hide(lsub); hide(trs); hide(tre); hide(dir);
    let ghost (k, c) = (directive.spanned.kind, directive.spanned.content@);
    let ghost j = joined(k, c, self.lines.rest(), self.current_line_number as nat, collapse_whitespace);
    let ghost e0 = self.errors@.len() > 0;
    let ghost mut bad = { let m = cut(c, '\\'); !lsub(trs(if m is Some { m->Some_0 } else { tre(c) }), self.current_line_number as nat).1 };
    proof { reveal_strlit(""); assert forall|x: T| #[trigger] (""@ + x) == x by { assert(""@ + x =~= x); } }
    proof { blen_tr(c); blen_tr(tre(c)); if c.len() > 0 { blen_last(c); blen_tr(c.drop_last()); } }
//@@ loop 0
    invariant_except_break (self.errors@.len() > 0) <==> (e0 || bad),
        needs_continuation ==> cont(k, self.lines.rest(), self.current_line_number as nat, output.t(), bad, collapse_whitespace) == j,
        !needs_continuation ==> (Joined { text: output.t(), rest: self.lines.rest(), n: self.current_line_number as nat, bad }) == j,
    invariant self.wf(), self.script == old(self).script, self.effective_line_number == old(self).effective_line_number, k == directive.spanned.kind, span.start <= u32::MAX,
    ensures output.t() == j.text, self.lines.rest() == j.rest, self.current_line_number == j.n, (self.errors@.len() > 0) <==> (e0 || j.bad),
//@@ at loop 0 start
    let ghost (s1, n1, o1) = (self.lines.rest(), self.current_line_number as nat, output.t());
    let ghost x1 = cline(k, line0(s1), n1 + 1, collapse_whitespace);
    proof {
        if s1.len() > 0 {
            line_ok(s1);
            let l = line0(s1);
            dir_len(l);
            let c1 = match dir(l) { Some((k2, c)) => c, None => l };
            blen_tr(c1); blen_tr(tre(c1)); if c1.len() > 0 { blen_last(c1); blen_tr(c1.drop_last()); }
            bad = bad || x1.1;
        }
    }
//@@ at loop 0 end
    proof { assert(output.t() =~= o1 + x1.0); }
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl TestScriptParser :: parse_run
//@@ ret r
//@@ spec
    requires old(self).wf(), directive.span.a + blen(directive.spanned.content@) <= directive.span.b,
    ensures r is Ok, final(self).wf(),
        ({ let j = joined(directive.spanned.kind, directive.spanned.content@, old(self).lines.rest(), old(self).current_line_number as nat, false);
            let st = old(self).st();
            &&& final(self).lines.rest() == j.rest && final(self).current_line_number == j.n
            &&& final(self).st() == (St { cmds: st.cmds.push(Cmd::Run { line: old(self).effective_line_number as nat, text: j.text }), bad: st.bad || j.bad, ..st }) }),
//@@ at entry
    proof { broadcast use cs_push; }
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl TestScriptParser :: parse_substitution
//@@ ret r
//@@ pre `directive.kind` => `directive.spanned.kind`
//@@ pre `.trim()` => `.rt_trim()`
//@@ pre `.split_once` => `.rt_split_once`
//@@ pre `err.into()` => `rt_error(err)`
//@@ spec
    requires old(self).wf(), directive.span.a + blen(directive.spanned.content@) <= directive.span.b,
    ensures r is Ok, final(self).wf(),
        ({ let j = joined(directive.spanned.kind, directive.spanned.content@, old(self).lines.rest(), old(self).current_line_number as nat, true);
            let st = old(self).st();
            &&& final(self).lines.rest() == j.rest && final(self).current_line_number == j.n
            &&& final(self).st() == define(St { bad: st.bad || j.bad, ..st }, j.text, old(self).effective_line_number as nat, directive.spanned.kind is Redefine) }),
//@@ at entry
    proof { broadcast use cs_push; }
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl TestScriptParser :: parse_bools
//@@ pre `directive.kind` => `directive.spanned.kind`
//@@ pre `directive.content` => `directive.spanned.content`
//@@ pre `for expr in directive.spanned.content.split($c) { $B }` => `{ let mut rt_it = directive.spanned.content.rt_split($c); loop { match rt_it.next() { None => { break; } Some(expr) => { $B } } } }`
//@@ pre `.trim_start()` => `.rt_trim_start()`
//@@ pre `.trim_end()` => `.rt_trim_end()`
//@@ pre `.len()` => `.rt_len()`
//@@ pre `expr == $s` => `rt_eq(expr, $s)`
//@@ pre `expr.parse::<BooleanExpr>().map(|expr| $a).map_err(|err| $b)` => `match rt_parse_bool(expr) { Ok(expr) => Ok($a), Err(err) => Err($b) }`
//@@ pre `unreachable!($x)` => `rt_unreachable()`
//@@ pre `err.into()` => `rt_error(err)`
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    requires directive.spanned.kind is Requires || directive.spanned.kind is Unsupported || directive.spanned.kind is Xfail,
    ensures final(self).lines == old(self).lines, final(self).current_line_number == old(self).current_line_number,
        final(self).st() == conditions(directive.spanned.kind, pieces(directive.spanned.content@, ','), old(self).st()),
//@@ loop 0
    invariant
        directive.spanned.kind is Requires || directive.spanned.kind is Unsupported || directive.spanned.kind is Xfail, start <= u32::MAX,
        self.lines == old(self).lines, self.current_line_number == old(self).current_line_number,
        conditions(directive.spanned.kind, rt_it.rest(), self.st()) == conditions(directive.spanned.kind, pieces(directive.spanned.content@, ','), old(self).st()),
    ensures rt_it.rest().len() == 0,
//@@ at loop 0 start
    proof {
        broadcast use es_push;
        reveal_strlit("*"); assert("*"@ =~= seq!['*']);
        if rt_it.rest().len() > 0 { let x = rt_it.rest()[0]; blen_tr(x); blen_tr(trs(x)); tr_both(x); }
    }
//@@ end
//@@ fn lit/src/formats/sh/script/parser.rs :: impl TestScriptParser :: parse_int
//@@ pre `directive.kind` => `directive.spanned.kind`
//@@ pre `directive.content` => `directive.spanned.content`
//@@ pre `assert_eq!($a, $b)` => `rt_assert($a == $b)`
//@@ pre `.trim()` => `.rt_trim()`
//@@ pre `.parse::<usize>()` => `.rt_parse_usize()`
//@@ pre `self.script.allowed_retries.as_ref()` => `&self.script.allowed_retries`
//@@ spec
    requires directive.spanned.kind is AllowedRetries,
    ensures final(self).lines == old(self).lines, final(self).current_line_number == old(self).current_line_number,
        final(self).st() == retries(directive.spanned.content@, old(self).st()),
//@@ end
}
pub fn rt_any_run(v: &Vec<ScriptCommand>) -> (r: bool) ensures r == runs(cs(v@))
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v.len(), forall|j: int| 0 <= j < i ==> !((#[trigger] cs(v@)[j]) is Run),
        decreases v.len() - i
    { match &v[i] { ScriptCommand::Run(_) => { assert(cs(v@)[i as int] is Run); return true; } _ => {} } i += 1; }
    false
}
}
fn main() {}
