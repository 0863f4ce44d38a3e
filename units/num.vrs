//@@ include prelude.inc
//@@ include span.inc unless cursor.vrs
// numbers as text: reading, writing and the regular expression of each number format
verus! {
pub type T = Seq<char>;
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
pub trait Text { spec fn t(&self) -> T; }
impl Text for str { open spec fn t(&self) -> T { self@ } }
impl Text for String { open spec fn t(&self) -> T { self@ } }
impl<'a> Text for Cow<'a, str> { open spec fn t(&self) -> T { match self { Cow::Borrowed(s) => (*s)@, Cow::Owned(s) => s@ } } }
#[derive(Copy, Clone)]
pub struct Span<X> { pub span: SourceSpan, pub spanned: X }
impl<X> Span<X> {
    pub fn new(span: SourceSpan, spanned: X) -> (r: Self) ensures r.span == span, r.spanned == spanned { Span { span, spanned } }
    pub fn inner(&self) -> (r: &X) ensures *r == self.spanned { &self.spanned }
    pub fn into_inner(self) -> (r: X) ensures r == self.spanned { self.spanned }
    pub fn span(&self) -> (r: SourceSpan) ensures r == self.span { self.span }
    pub fn into_parts(self) -> (r: (SourceSpan, X)) ensures r.0 == self.span, r.1 == self.spanned { (self.span, self.spanned) } }
#[derive(Copy, Clone)]
#[verifier::external_body] // core::num::IntErrorKind, opaque
pub struct IntErrorKind { x: u8 }
#[verifier::external_body] // core::num::ParseIntError, opaque
pub struct ParseIntError { x: u8 }
impl ParseIntError {
    #[verifier::external_body]
    pub fn kind(&self) -> &IntErrorKind { unimplemented!() }
}

//@@ item filecheck/src/expr/num.rs :: enum CasingStyle
//@@ derive Copy, Clone, PartialEq, Eq, Structural
//@@ end
//@@ item filecheck/src/expr/num.rs :: enum NumberFormat
//@@ derive Copy, Clone
//@@ end
//@@ item filecheck/src/expr/num.rs :: struct Number
//@@ derive Copy, Clone
//@@ end
//@@ item filecheck/src/expr/num.rs :: enum ParseNumberError
//@@ sub? `core :: num :: IntErrorKind` => `IntErrorKind`
//@@ end
pub type F = NumberFormat;
pub open spec fn dflt() -> F { NumberFormat::Unsigned { precision: 0 } }
pub open spec fn eff(f: Option<F>) -> F { match f { Some(x) => x, None => dflt() } }
impl NumberFormat {
//@@ fn filecheck/src/expr/num.rs :: impl Default for NumberFormat :: default
//@@ ret r
//@@ spec
    ensures r == dflt()
//@@ end
//@@ fn filecheck/src/expr/num.rs :: impl NumberFormat :: is_signed
//@@ ret r
//@@ spec
    ensures r == (self is Signed)
//@@ end
//@@ fn filecheck/src/expr/num.rs :: impl NumberFormat :: is_hex
//@@ ret r
//@@ spec
    ensures r == (self is Hex)
//@@ end
//@@ fn filecheck/src/expr/num.rs :: impl NumberFormat :: precision
//@@ pre `Self::Unsigned { precision } | Self::Signed { precision } | Self::Hex { precision, .. } => $x ,` => `Self::Unsigned { precision } => $x, Self::Signed { precision } => $x, Self::Hex { precision, .. } => $x,`
//@@ pre `Self::Unsigned { precision } | Self::Signed { precision } | Self::Hex { precision, .. } => $x }` => `Self::Unsigned { precision } => $x, Self::Signed { precision } => $x, Self::Hex { precision, .. } => $x }`
//@@ ret r
//@@ spec
    ensures r == prec(*self)
//@@ end
}
pub open spec fn prec(f: F) -> int { match f { NumberFormat::Unsigned { precision } => precision as int, NumberFormat::Signed { precision } => precision as int, NumberFormat::Hex { precision, .. } => precision as int } }
#[verifier::external_body] // Option::unwrap_or_default
pub fn rt_or_default(f: Option<NumberFormat>) -> (r: NumberFormat) ensures r == eff(f) { unimplemented!() }

// ---------------------------------------------------------------- digits
/// the value of a digit; 99 for anything else
pub open spec fn dv(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { 99 }
}
pub open spec fn digs(s: T, b: int) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> dv(#[trigger] s[i]) < b }
/// the number a digit string denotes
pub open spec fn val(s: T, b: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { val(s.drop_last(), b) * b + dv(s.last()) } }
pub open spec fn sgn(c: char) -> bool { c == '-' || c == '+' }
pub open spec fn unsign(s: T) -> T { if s.len() > 0 && sgn(s[0]) { s.skip(1) } else { s } }
pub open spec fn neg(s: T) -> bool { s.len() > 0 && s[0] == '-' }
pub open spec fn sval(s: T, b: int) -> int { if neg(s) { -val(unsign(s), b) } else { val(unsign(s), b) } }
pub open spec fn fits(v: int) -> bool { i128::MIN <= v <= i128::MAX }
/// what the integer parsers of std read: an optional sign and digits, if the value fits
pub open spec fn std_read(s: T, b: int) -> Option<int> { if digs(unsign(s), b) && fits(sval(s, b)) { Some(sval(s, b)) } else { None } }

pub open spec fn ox() -> T { "0x"@ }
pub open spec fn pfx(s: T, p: T) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn unox(s: T) -> T { if pfx(s, ox()) { s.skip(2) } else { s } }
pub open spec fn case_ok(c: char, k: CasingStyle) -> bool {
    match k { CasingStyle::Any => true, CasingStyle::Upper => '0' <= c <= '9' || 'A' <= c <= 'F', CasingStyle::Lower => '0' <= c <= '9' || 'a' <= c <= 'f' }
}
pub open spec fn cased(s: T, k: CasingStyle) -> bool { forall|i: int| 0 <= i < s.len() ==> case_ok(#[trigger] s[i], k) }
/// the texts of a format: `denotes` says which, `meaning` what they stand for
pub open spec fn denotes(s: T, f: F) -> bool {
    match f {
        NumberFormat::Unsigned { precision } => digs(s, 10) && s.len() >= precision,
        NumberFormat::Signed { precision } => digs(unsign(s), 10) && unsign(s).len() >= precision,
        NumberFormat::Hex { precision, require_prefix, casing } =>
            (require_prefix ==> pfx(s, ox())) && digs(unox(s), 16) && unox(s).len() >= precision && cased(unox(s), casing),
    }
}
pub open spec fn meaning(s: T, f: F) -> int {
    match f { NumberFormat::Unsigned { .. } => val(s, 10), NumberFormat::Signed { .. } => sval(s, 10), NumberFormat::Hex { .. } => val(unox(s), 16) }
}
pub open spec fn reads(s: T, f: F) -> Option<int> { if denotes(s, f) && fits(meaning(s, f)) { Some(meaning(s, f)) } else { None } }

// ---------------------------------------------------------------- str and integer operations of std
pub trait Pat { spec fn hits(&self, c: char) -> bool; spec fn lit(&self) -> Option<T>; }
impl Pat for [char; 2] { open spec fn hits(&self, c: char) -> bool { c == self[0] || c == self[1] } open spec fn lit(&self) -> Option<T> { None } }
impl Pat for char { open spec fn hits(&self, c: char) -> bool { c == *self } open spec fn lit(&self) -> Option<T> { None } }
impl<'a> Pat for &'a str { open spec fn hits(&self, c: char) -> bool { false } open spec fn lit(&self) -> Option<T> { Some(self@) } }
/// the length of the match of `p` at the start of `s`
pub open spec fn plen<P: Pat>(s: T, p: P) -> Option<int> {
    match p.lit() { Some(l) => if pfx(s, l) { Some(l.len() as int) } else { None }, None => if s.len() > 0 && p.hits(s[0]) { Some(1) } else { None } }
}
pub uninterp spec fn blen(s: T) -> int; // length in UTF-8
pub broadcast axiom fn ax_blen(s: T) ensures #![trigger blen(s)] blen(s) >= s.len(), (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as int) < 128) ==> blen(s) == s.len();
pub uninterp spec fn trimmed(s: T) -> T; // str::trim
pub open spec fn white(c: char) -> bool { (c as int) <= 32 || (c as int) >= 128 } // over-approximates whitespace
pub broadcast axiom fn ax_trim(s: T) ensures #![trigger trimmed(s)] s.len() > 0 && !white(s[0]) && !white(s.last()) ==> trimmed(s) == s;
/// str::trim_start_matches with one character
pub open spec fn trim0(s: T, c: char) -> T decreases s.len() { if s.len() > 0 && s[0] == c { trim0(s.skip(1), c) } else { s } }
pub trait StrX { spec fn v(&self) -> T;
    fn rt_starts_with<P: Pat>(&self, p: P) -> (r: bool) ensures r == (plen(self.v(), p) is Some);
    fn rt_strip_prefix<P: Pat>(&self, p: P) -> (r: Option<&str>) ensures match plen(self.v(), p) { Some(n) => r is Some && r->0@ == self.v().skip(n), None => r is None };
    fn rt_trim(&self) -> (r: &str) ensures r@ == trimmed(self.v());
    fn rt_trim_start_matches(&self, c: char) -> (r: &str) ensures r@ == trim0(self.v(), c);
    fn rt_parse(&self) -> (r: Result<i128, ParseIntError>) ensures match std_read(self.v(), 10) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err };
    fn rt_len(&self) -> (r: usize) ensures r == blen(self.v());
    fn rt_is_empty(&self) -> (r: bool) ensures r == (self.v().len() == 0);
}
impl StrX for str { open spec fn v(&self) -> T { self@ }
    #[verifier::external_body] fn rt_starts_with<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rt_strip_prefix<P: Pat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn rt_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rt_trim_start_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rt_parse(&self) -> (r: Result<i128, ParseIntError>) { unimplemented!() }
    #[verifier::external_body] fn rt_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn rt_is_empty(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body] // i128::from_str_radix
pub fn rt_from_str_radix(s: &str, b: u32) -> (r: Result<i128, ParseIntError>) requires b == 10 || b == 16 ensures match std_read(s@, b as int) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } { unimplemented!() }
#[verifier::external_body] // str::chars, collected
pub fn rt_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }

// ---------------------------------------------------------------- reading
pub broadcast proof fn digs_ascii(s: T, b: int) requires #[trigger] digs(s, b), b <= 16 ensures blen(s) == s.len(), !sgn(s[0]) {
    assert(dv(s[0]) < b);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as int) < 128 by { assert(dv(s[i]) < b); }
    ax_blen(s);
}
pub broadcast proof fn val_nonneg(s: T, b: int) requires digs(s, b) || s.len() == 0, b > 0 ensures #[trigger] val(s, b) >= 0 decreases s.len() {
    if s.len() > 1 { assert forall|i: int| 0 <= i < s.drop_last().len() implies dv(#[trigger] s.drop_last()[i]) < b by { assert(s.drop_last()[i] == s[i]); } }
    if s.len() > 0 { val_nonneg(s.drop_last(), b); assert(0 <= val(s.drop_last(), b) * b) by (nonlinear_arith) requires val(s.drop_last(), b) >= 0, b > 0; }
}
impl Number {
//@@ fn filecheck/src/expr/num.rs :: impl Number :: new
//@@ ret r
//@@ spec
    ensures r.span == span, r.value == value, r.format is None
//@@ end
//@@ fn filecheck/src/expr/num.rs :: impl Number :: new_with_format
//@@ ret r
//@@ spec
    ensures r.span == span, r.value == value, r.format == Some(format)
//@@ end
//@@ fn filecheck/src/expr/num.rs :: impl Number :: is_representable
//@@ pre `self.format.unwrap_or_default()` => `rt_or_default(self.format)`
//@@ ret r
//@@ spec
    ensures r == representable(self.value as int, eff(self.format))
//@@ end
//@@ fn filecheck/src/expr/num.rs :: impl Number :: parse_with_format
//@@ pre `input.parse::<i128>().map(|value| $x).map_err(|error| $y)?` => `match input.rt_parse() { Ok(value) => $x, Err(error) => return Err($y) }`
//@@ pre `i128::from_str_radix($a, $b).map(|value| $x).map_err(|error| $y)?` => `match rt_from_str_radix($a, $b) { Ok(value) => $x, Err(error) => return Err($y) }`
//@@ pre `.starts_with(` => `.rt_starts_with(`
//@@ pre `.strip_prefix(` => `.rt_strip_prefix(`
//@@ pre `.len()` => `.rt_len()`
//@@ pre `.parse::<i128>()` => `.rt_parse()`
//@@ pre `i128::from_str_radix(` => `rt_from_str_radix(`
//@@ pre `input.chars().all(|c| $x)` => `{ let rt_v = rt_chars(input); let mut rt_i = 0; let mut rt_all = true; while rt_i < rt_v.len() { let c = rt_v[rt_i]; rt_i += 1; if !($x) { rt_all = false; break; } } rt_all }`
//@@ loops 2
//@@ loop 0
    invariant_except_break rt_all, forall|j: int| 0 <= j < rt_i ==> case_ok(#[trigger] rt_v@[j], casing),
    invariant rt_i <= rt_v.len(), rt_v@ == input@, casing is Lower,
    ensures rt_all == cased(input@, casing)
    decreases rt_v.len() - rt_i
//@@ loop 1
    invariant_except_break rt_all, forall|j: int| 0 <= j < rt_i ==> case_ok(#[trigger] rt_v@[j], casing),
    invariant rt_i <= rt_v.len(), rt_v@ == input@, casing is Upper,
    ensures rt_all == cased(input@, casing)
    decreases rt_v.len() - rt_i
//@@ at entry
    proof { broadcast use digs_ascii; reveal_strlit("0x"); }
//@@ ret r
//@@ spec
    ensures match reads(input.spanned@, format) {
        Some(v) => r matches Ok(n) && n.value == v && n.format == Some(format),
        None => r is Err,
    }
//@@ end
}
pub open spec fn representable(v: int, f: F) -> bool { v >= 0 || f is Signed }

// ---------------------------------------------------------------- formatting of std
pub open spec fn dc(d: int, up: bool) -> char { if d < 10 { ('0' as int + d) as char } else if up { ('A' as int + d - 10) as char } else { ('a' as int + d - 10) as char } }
/// the shortest digit string of a number that is not negative
pub open spec fn ndig(v: int, b: int, up: bool) -> T decreases v when b > 1 via ndig_dec { if v < b { seq![dc(v, up)] } else { ndig(v / b, b, up) + seq![dc(v % b, up)] } }
#[via_fn]
proof fn ndig_dec(v: int, b: int, up: bool) { if v >= b && b > 1 { assert(0 <= v / b < v) by (nonlinear_arith) requires v >= b, b > 1; } }
pub open spec fn zeros(n: int) -> T { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| '0') }
/// padded with leading zeros to `w` digits
pub open spec fn zpad(s: T, w: int) -> T { zeros(w - s.len()) + s }
pub open spec fn two128() -> int { (0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000) as int }
pub uninterp spec fn blank_padded(s: T, w: int) -> T; // width without the zero flag
/// how std formats an integer: `#` adds the prefix of the radix, `0` pads between the sign or the prefix and the digits
pub open spec fn int_text(v: int, alt: bool, zero: bool, width: int, kind: int) -> T {
    let head = if kind == 1 || kind == 2 { if alt { "0x"@ } else { Seq::empty() } } else if v < 0 { seq!['-'] } else { Seq::empty() };
    let body = if kind == 1 || kind == 2 { ndig(if v < 0 { v + two128() } else { v }, 16, kind == 2) } else { ndig(if v < 0 { -v } else { v }, 10, false) };
    if zero { head + zpad(body, width - head.len()) } else if width == 0 { head + body } else { blank_padded(head + body, width) }
}
pub trait Show { spec fn show(&self, alt: bool, zero: bool, width: int, kind: int) -> T; }
impl Show for i128 { open spec fn show(&self, alt: bool, zero: bool, width: int, kind: int) -> T { int_text(*self as int, alt, zero, width, kind) } }
impl Show for u8 { open spec fn show(&self, alt: bool, zero: bool, width: int, kind: int) -> T { int_text(*self as int, alt, zero, width, kind) } }
impl Show for usize { open spec fn show(&self, alt: bool, zero: bool, width: int, kind: int) -> T { int_text(*self as int, alt, zero, width, kind) } }
pub uninterp spec fn str_text(s: T, alt: bool, zero: bool, width: int, kind: int) -> T; // a string with a width, or in debug form
impl Show for str { open spec fn show(&self, alt: bool, zero: bool, width: int, kind: int) -> T { if width == 0 && kind == 0 { self@ } else { str_text(self@, alt, zero, width, kind) } } }
impl Show for String { open spec fn show(&self, alt: bool, zero: bool, width: int, kind: int) -> T { if width == 0 && kind == 0 { self@ } else { str_text(self@, alt, zero, width, kind) } } }
impl<'a, X: Show + ?Sized> Show for &'a X { open spec fn show(&self, alt: bool, zero: bool, width: int, kind: int) -> T { (**self).show(alt, zero, width, kind) } }
pub struct FmtError {}
pub fn rt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
pub fn rt_done() -> (r: Result<(), FmtError>) ensures r is Ok { Ok(()) }
#[verifier::external_body] // Formatter::write_str / a literal piece of a format string
pub fn rt_lit(o: &mut String, s: &str) ensures final(o)@ == old(o)@ + s@ { unimplemented!() }
#[verifier::external_body] // a placeholder of a format string
pub fn rt_show<X: Show + ?Sized>(o: &mut String, x: &X, alt: bool, zero: bool, width: usize, kind: u8) ensures final(o)@ == old(o)@ + x.show(alt, zero, width as int, kind as int) { unimplemented!() }

// ---------------------------------------------------------------- writing
pub open spec fn upper(k: CasingStyle) -> bool { k is Upper }
/// the text of a value in a format
pub open spec fn writes(v: int, f: F) -> T {
    match f {
        NumberFormat::Unsigned { precision } => zpad(ndig(v, 10, false), precision as int),
        NumberFormat::Signed { precision } => (if v < 0 { seq!['-'] } else { Seq::empty() }) + zpad(ndig(if v < 0 { -v } else { v }, 10, false), precision as int),
        NumberFormat::Hex { precision, require_prefix, casing } => (if require_prefix { "0x"@ } else { Seq::empty() }) + zpad(ndig(v, 16, upper(casing)), precision as int),
    }
}
pub proof fn lemma_nopad(s: T, w: int) ensures w <= s.len() ==> zpad(s, w) == s { if w <= s.len() { assert(zpad(s, w) =~= s); } }
pub proof fn lemma_ndig_len(v: int, b: int, up: bool) requires v >= 0, b > 1 ensures ndig(v, b, up).len() > 0 { }
impl Number {
//@@ fn filecheck/src/expr/num.rs :: impl Display for Number :: fmt
//@@ fmt
//@@ sig `pub fn fmt(&self, f: &mut String) -> (r: Result<(), FmtError>)`
//@@ pre `self.format.unwrap_or_default()` => `rt_or_default(self.format)`
//@@ pre `value.is_negative()` => `(value < 0)`
//@@ at entry
    proof { reveal_strlit("0x"); let e = Seq::<char>::empty();
        assert forall|s: T| #[trigger] (e + s) == s by { assert(e + s =~= s); }
        assert forall|s: T, w: int| w <= s.len() implies #[trigger] zpad(s, w) == s by { lemma_nopad(s, w); }
    }
//@@ spec
    ensures r is Ok, representable(self.value as int, eff(self.format)) ==> final(f)@ == old(f)@ + writes(self.value as int, eff(self.format))
//@@ end
}

// ---------------------------------------------------------------- what is written reads back
pub proof fn lemma_val_cat(s: T, c: char, b: int) ensures val(s + seq![c], b) == val(s, b) * b + dv(c) { assert((s + seq![c]).drop_last() =~= s); }
pub proof fn lemma_ndig(v: int, b: int, up: bool) requires v >= 0, 1 < b <= 16
    ensures val(ndig(v, b, up), b) == v, digs(ndig(v, b, up), b), cased(ndig(v, b, up), if up { CasingStyle::Upper } else { CasingStyle::Lower })
    decreases v
{
    if v < b {
        let s = ndig(v, b, up);
        assert(s.drop_last() =~= Seq::empty());
        assert(val(s.drop_last(), b) == 0);
        assert(0 * b == 0) by (nonlinear_arith);
    } else {
        let q = v / b; let d = v % b;
        assert(0 <= q < v && 0 <= d < b && q * b + d == v) by (nonlinear_arith) requires q == v / b, d == v % b, v >= b, b > 1;
        lemma_ndig(q, b, up);
        lemma_val_cat(ndig(q, b, up), dc(d, up), b);
        assert(dv(dc(d, up)) == d);
        let s = ndig(v, b, up);
        assert forall|i: int| 0 <= i < s.len() implies dv(#[trigger] s[i]) < b && case_ok(s[i], if up { CasingStyle::Upper } else { CasingStyle::Lower }) by { if i < s.len() - 1 { assert(s[i] == ndig(q, b, up)[i]); } }
    }
}
pub proof fn lemma_zeros(n: int, s: T, b: int) requires b > 1 ensures val(zeros(n) + s, b) == val(s, b) decreases s.len() + (if n > 0 { n } else { 0 })
{
    if s.len() > 0 {
        assert((zeros(n) + s).drop_last() =~= zeros(n) + s.drop_last());
        lemma_zeros(n, s.drop_last(), b);
    } else if n > 0 {
        assert((zeros(n) + s).drop_last() =~= zeros(n - 1) + s);
        lemma_zeros(n - 1, s, b);
        assert(0 * b == 0) by (nonlinear_arith);
    } else { assert(zeros(n) + s =~= s); }
}
pub proof fn lemma_zpad(v: int, b: int, up: bool, w: int) requires v >= 0, 1 < b <= 16
    ensures ({ let s = zpad(ndig(v, b, up), w); val(s, b) == v && digs(s, b) && s.len() >= w && cased(s, if up { CasingStyle::Upper } else { CasingStyle::Lower }) })
{
    let d = ndig(v, b, up); let s = zpad(d, w);
    lemma_ndig(v, b, up);
    lemma_zeros(w - d.len(), d, b);
    assert forall|i: int| 0 <= i < s.len() implies dv(#[trigger] s[i]) < b && case_ok(s[i], if up { CasingStyle::Upper } else { CasingStyle::Lower }) by { if i >= s.len() - d.len() { assert(s[i] == d[i - (s.len() - d.len())]); } else { assert(s[i] == '0'); } }
}
/// a value written in a format that can represent it reads back as the same value, with at least the digits asked for
pub proof fn lemma_round_trip(v: int, f: F)
    requires fits(v), representable(v, f)
    ensures reads(writes(v, f), f) == Some(v)
{
    reveal_strlit("0x");
    let s = writes(v, f);
    match f {
        NumberFormat::Unsigned { precision } => { lemma_zpad(v, 10, false, precision as int); }
        NumberFormat::Signed { precision } => {
            let d = zpad(ndig(if v < 0 { -v } else { v }, 10, false), precision as int);
            lemma_zpad(if v < 0 { -v } else { v }, 10, false, precision as int);
            assert(dv(d[0]) < 10);
            if v < 0 { assert(s[0] == '-'); assert(s.skip(1) =~= d); } else { assert(s =~= d); }
        }
        NumberFormat::Hex { precision, require_prefix, casing } => {
            let d = zpad(ndig(v, 16, upper(casing)), precision as int);
            lemma_zpad(v, 16, upper(casing), precision as int);
            if require_prefix { assert(s.subrange(0, 2) =~= ox()); assert(s.skip(2) =~= d); } else {
                assert(s =~= d);
                if pfx(s, ox()) { assert(s.subrange(0, 2)[1] == 'x'); assert(dv(s[1]) < 16); }
            }
        }
    }
}

// ---------------------------------------------------------------- the regular expression of a format
pub open spec fn class_src(k: CasingStyle) -> T { match k { CasingStyle::Any => "[A-Fa-f0-9]"@, CasingStyle::Upper => "[A-F0-9]"@, CasingStyle::Lower => "[a-f0-9]"@ } }
pub open spec fn least(p: int) -> T { ndig(if p == 0 { 1 } else { p }, 10, false) }
pub open spec fn counted(p: int, cap: int) -> T { seq!['{'] + least(p) + seq![','] + ndig(if p > cap { p } else { cap }, 10, false) + seq!['}'] }
pub proof fn lemma_caps() ensures ndig(39, 10, false) == seq!['3', '9'], ndig(32, 10, false) == seq!['3', '2'], ndig(1, 10, false) == seq!['1']
{ reveal_with_fuel(ndig, 3); assert(ndig(39, 10, false) =~= seq!['3', '9']); assert(ndig(32, 10, false) =~= seq!['3', '2']); assert(ndig(1, 10, false) =~= seq!['1']); }
/// the source text of the regular expression
pub open spec fn re_src(f: F) -> T {
    match f {
        NumberFormat::Unsigned { precision } => "[0-9]"@ + counted(precision as int, 39),
        NumberFormat::Signed { precision } => "[-+]?[0-9]"@ + counted(precision as int, 39),
        NumberFormat::Hex { precision, require_prefix, casing } => (if require_prefix { "0x"@ } else { Seq::empty() }) + class_src(casing) + counted(precision as int, 32),
    }
}
pub open spec fn cap(f: F) -> int { if f is Hex { 32 } else { 39 } }
pub open spec fn most(f: F) -> int { if prec(f) > cap(f) { prec(f) } else { cap(f) } }
/// the texts that expression matches (the meaning of the regex crate, see DESIGN.md)
pub open spec fn in_format(s: T, f: F) -> bool {
    match f {
        NumberFormat::Unsigned { precision } => digs(s, 10) && precision <= s.len() <= most(f),
        NumberFormat::Signed { precision } => digs(unsign(s), 10) && precision <= unsign(s).len() <= most(f),
        NumberFormat::Hex { precision, require_prefix, casing } => if require_prefix { pfx(s, ox()) && hex_in(s.skip(2), f) } else { hex_in(s, f) },
    }
}
pub open spec fn hex_in(s: T, f: F) -> bool { f matches NumberFormat::Hex { precision, casing, .. } && digs(s, 16) && cased(s, casing) && precision <= s.len() <= most(f) }
/// what the expression matches reads as a number of the format, if it fits
pub proof fn lemma_in_format(s: T, f: F) requires in_format(s, f) ensures denotes(s, f), reads(s, f) == (if fits(meaning(s, f)) { Some(meaning(s, f)) } else { None })
{
    reveal_strlit("0x");
    if f is Hex && !f->require_prefix && pfx(s, ox()) { assert(s.subrange(0, 2)[1] == 'x'); assert(dv(s[1]) < 16); }
}
pub open spec fn pw(b: int, n: int) -> int decreases n { if n <= 0 { 1 } else { b * pw(b, n - 1) } }
pub proof fn lemma_ndig_short(v: int, b: int, up: bool, n: int) requires 0 <= v < pw(b, n), n >= 1, b > 1 ensures ndig(v, b, up).len() <= n decreases n
{
    if v >= b {
        if n == 1 { assert(pw(b, 1) == b) by { assert(pw(b, 0) == 1); assert(b * 1 == b) by (nonlinear_arith); } }
        assert(0 <= v / b < pw(b, n - 1)) by (nonlinear_arith) requires 0 <= v < b * pw(b, n - 1), b > 1;
        lemma_ndig_short(v / b, b, up, n - 1);
    }
}
/// the text of a value is matched by the expression of its format
pub proof fn lemma_writes_in_format(v: int, f: F) requires fits(v), representable(v, f) ensures in_format(writes(v, f), f)
{
    lemma_round_trip(v, f);
    reveal_strlit("0x");
    assert(pw(10, 39) > 0x8000_0000_0000_0000 * 0x1_0000_0000_0000_0000) by (compute);
    assert(pw(16, 32) > 0x7fff_ffff_ffff_ffff * 0x1_0000_0000_0000_0000 + 0xffff_ffff_ffff_ffff) by (compute);
    let a = if v < 0 { -v } else { v };
    lemma_ndig_short(a, 10, false, 39);
    let s = writes(v, f);
    match f {
        NumberFormat::Unsigned { precision } => { lemma_zpad(v, 10, false, precision as int); }
        NumberFormat::Signed { precision } => {
            let d = zpad(ndig(a, 10, false), precision as int);
            lemma_zpad(a, 10, false, precision as int);
            assert(dv(d[0]) < 10);
            if v < 0 { assert(s[0] == '-'); assert(s.skip(1) =~= d); } else { assert(s =~= d); }
        }
        NumberFormat::Hex { precision, require_prefix, casing } => {
            lemma_ndig_short(v, 16, upper(casing), 32);
            let d = zpad(ndig(v, 16, upper(casing)), precision as int);
            lemma_zpad(v, 16, upper(casing), precision as int);
            if require_prefix { assert(s.subrange(0, 2) =~= ox()); assert(s.skip(2) =~= d); } else { assert(s =~= d); }
        }
    }
}
impl CasingStyle {
//@@ item filecheck/src/expr/num.rs :: impl CasingStyle :: const HEX_ALPHABETS
//@@ sub `const HEX_ALPHABETS : & [ & str ] = & $x ;` => `fn rt_hex_alphabets() -> (r: [&'static str; 3]) ensures r[0]@ == class_src(CasingStyle::Any), r[1]@ == class_src(CasingStyle::Upper), r[2]@ == class_src(CasingStyle::Lower) { $x }`
//@@ end
//@@ fn filecheck/src/expr/num.rs :: impl CasingStyle :: as_hex_class
//@@ sig `pub fn as_hex_class(self) -> (r: &'static str)`
//@@ pre `Self::HEX_ALPHABETS[` => `Self::rt_hex_alphabets()[`
//@@ spec
    ensures r@ == class_src(self)
//@@ end
}
pub broadcast proof fn ax_assoc(a: T, b: T, c: T) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn ax_zero(a: T) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
/// the literal pieces of the expressions, taken apart
pub proof fn lemma_pieces() ensures ">[-+]?[0-9]{"@ == ">"@ + "[-+]?[0-9]"@ + seq!['{'], ">[0-9]{"@ == ">"@ + "[0-9]"@ + seq!['{'], ">0x"@ == ">"@ + "0x"@,
    "(?:[-+]?[0-9]{"@ == "(?:"@ + "[-+]?[0-9]"@ + seq!['{'], "(?:[0-9]{"@ == "(?:"@ + "[0-9]"@ + seq!['{'], "(?:0x"@ == "(?:"@ + "0x"@,
    ","@ == seq![','], "})"@ == seq!['}'] + ")"@, "{"@ == seq!['{'],
    "{1,32})"@ == seq!['{'] + ndig(1, 10, false) + seq![','] + ndig(32, 10, false) + seq!['}'] + ")"@,
    ">[-+]?[0-9]{1,39})"@ == ">"@ + "[-+]?[0-9]"@ + (seq!['{'] + ndig(1, 10, false) + seq![','] + ndig(39, 10, false) + seq!['}']) + ")"@,
    ">[0-9]{1,39})"@ == ">"@ + "[0-9]"@ + (seq!['{'] + ndig(1, 10, false) + seq![','] + ndig(39, 10, false) + seq!['}']) + ")"@,
    "(?P<digits>[-+]?[0-9]{1,39})"@ == "(?P<"@ + "digits"@ + ">"@ + "[-+]?[0-9]"@ + (seq!['{'] + ndig(1, 10, false) + seq![','] + ndig(39, 10, false) + seq!['}']) + ")"@,
    "(?P<digits>[0-9]{1,39})"@ == "(?P<"@ + "digits"@ + ">"@ + "[0-9]"@ + (seq!['{'] + ndig(1, 10, false) + seq![','] + ndig(39, 10, false) + seq!['}']) + ")"@,
    "(?:[-+]?[0-9]{1,39})"@ == "(?:"@ + "[-+]?[0-9]"@ + (seq!['{'] + ndig(1, 10, false) + seq![','] + ndig(39, 10, false) + seq!['}']) + ")"@,
    "(?:[0-9]{1,39})"@ == "(?:"@ + "[0-9]"@ + (seq!['{'] + ndig(1, 10, false) + seq![','] + ndig(39, 10, false) + seq!['}']) + ")"@,
{
    lemma_caps();
    reveal_strlit(">[-+]?[0-9]{"); reveal_strlit(">[0-9]{"); reveal_strlit(">0x"); reveal_strlit("(?:[-+]?[0-9]{"); reveal_strlit("(?:[0-9]{"); reveal_strlit("(?:0x"); reveal_strlit(","); reveal_strlit("})"); reveal_strlit("{"); reveal_strlit("{1,32})");
    reveal_strlit(">[-+]?[0-9]{1,39})"); reveal_strlit(">[0-9]{1,39})"); reveal_strlit("(?P<digits>[-+]?[0-9]{1,39})"); reveal_strlit("(?P<digits>[0-9]{1,39})"); reveal_strlit("(?:[-+]?[0-9]{1,39})"); reveal_strlit("(?:[0-9]{1,39})");
    reveal_strlit("digits"); reveal_strlit(">"); reveal_strlit("[-+]?[0-9]"); reveal_strlit("[0-9]"); reveal_strlit("0x"); reveal_strlit("(?:"); reveal_strlit("(?P<"); reveal_strlit(")");
    assert(">[-+]?[0-9]{"@ =~= ">"@ + "[-+]?[0-9]"@ + seq!['{']); assert(">[0-9]{"@ =~= ">"@ + "[0-9]"@ + seq!['{']); assert(">0x"@ =~= ">"@ + "0x"@);
    assert("(?:[-+]?[0-9]{"@ =~= "(?:"@ + "[-+]?[0-9]"@ + seq!['{']); assert("(?:[0-9]{"@ =~= "(?:"@ + "[0-9]"@ + seq!['{']); assert("(?:0x"@ =~= "(?:"@ + "0x"@);
    assert(","@ =~= seq![',']); assert("})"@ =~= seq!['}'] + ")"@); assert("{"@ =~= seq!['{']);
    let a = seq!['1']; let b = seq!['3', '9']; let c = seq!['3', '2'];
    assert("{1,32})"@ =~= seq!['{'] + a + seq![','] + c + seq!['}'] + ")"@);
    let n = seq!['{'] + a + seq![','] + b + seq!['}'];
    assert(n =~= seq!['{', '1', ',', '3', '9', '}']);
    assert(">[-+]?[0-9]{1,39})"@ =~= ">"@ + "[-+]?[0-9]"@ + n + ")"@); assert(">[0-9]{1,39})"@ =~= ">"@ + "[0-9]"@ + n + ")"@);
    assert("(?P<digits>[-+]?[0-9]{1,39})"@ =~= "(?P<"@ + "digits"@ + ">"@ + "[-+]?[0-9]"@ + n + ")"@); assert("(?P<digits>[0-9]{1,39})"@ =~= "(?P<"@ + "digits"@ + ">"@ + "[0-9]"@ + n + ")"@);
    assert("(?:[-+]?[0-9]{1,39})"@ =~= "(?:"@ + "[-+]?[0-9]"@ + n + ")"@); assert("(?:[0-9]{1,39})"@ =~= "(?:"@ + "[0-9]"@ + n + ")"@);
}
impl NumberFormat {
//@@ fn filecheck/src/expr/num.rs :: impl NumberFormat :: max_digits
//@@ pre `core::cmp::max(` => `rt_max(`
//@@ ret r
//@@ spec
    ensures r == most(*self)
//@@ end
//@@ fn filecheck/src/expr/num.rs :: impl NumberFormat :: pattern_nocapture
//@@ fmt opaque
//@@ ret r
//@@ at entry
    hide(ndig);
    proof { lemma_pieces(); broadcast use {ax_assoc, ax_zero}; }
//@@ spec
    ensures r.t() == "(?:"@ + re_src(*self) + ")"@
//@@ end
//@@ fn filecheck/src/expr/num.rs :: impl NumberFormat :: pattern
//@@ opt #[verifier::rlimit(100)]
//@@ opt #[verifier::spinoff_prover]
//@@ fmt opaque
//@@ ret r
//@@ at entry
    hide(ndig);
    proof { lemma_pieces(); broadcast use {ax_assoc, ax_zero}; }
//@@ spec
    ensures r.t() == "(?P<"@ + (match group_name_override { Some(n) => n@, None => "digits"@ }) + ">"@ + re_src(*self) + ")"@
//@@ end
}
}
fn main() {}
