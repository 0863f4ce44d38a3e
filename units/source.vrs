//@@ include prelude.inc
// source text: line index, positions, incremental edits
verus! {
// ---------------------------------------------------------------- text
pub open spec fn cont(x: u8) -> bool { 0x80 <= x < 0xC0 }
pub open spec fn boundary(b: Seq<u8>, i: int) -> bool { i == b.len() || (0 <= i < b.len() && !cont(b[i])) }
// a necessary condition of UTF-8: a continuation byte never starts a text and never follows ASCII
pub open spec fn wf(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() && #[trigger] cont(b[i]) ==> i > 0 && b[i - 1] >= 0x80 }
pub open spec fn nchars(b: Seq<u8>) -> nat decreases b.len() {
    if b.len() == 0 { 0 } else { nchars(b.drop_last()) + (if cont(b.last()) { 0nat } else { 1nat }) }
}
// newlines before position p
pub open spec fn cnt(b: Seq<u8>, p: int) -> int decreases p {
    if p <= 0 || p > b.len() { 0 } else { cnt(b, p - 1) + (if b[p - 1] == 10 { 1int } else { 0 }) }
}

#[verifier::external_body] // String / str: a sequence of bytes in UTF-8
pub struct Text { s: String }
impl Text {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body] // UTF-8 validity of str
    pub proof fn valid(&self) ensures wf(self.b()) { unimplemented!() }
    #[verifier::external_body] // str::as_bytes
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b() { unimplemented!() }
    #[verifier::external_body] // str::len
    pub fn len(&self) -> (r: usize) ensures r == self.b().len() { unimplemented!() }
    #[verifier::external_body] // str::is_empty
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.b().len() == 0) { unimplemented!() }
    #[verifier::external_body] // str::get
    pub fn get(&self, r: core::ops::Range<usize>) -> (o: Option<&Text>)
        ensures match o {
            Some(t) => r.start <= r.end <= self.b().len() && boundary(self.b(), r.start as int) && boundary(self.b(), r.end as int)
                && t.b() == self.b().subrange(r.start as int, r.end as int),
            None => !(r.start <= r.end <= self.b().len() && boundary(self.b(), r.start as int) && boundary(self.b(), r.end as int)),
        }
    { unimplemented!() }
    #[verifier::external_body] // &str[a..b]
    pub fn slice(&self, a: usize, b: usize) -> (t: &Text)
        requires a <= b <= self.b().len(), boundary(self.b(), a as int), boundary(self.b(), b as int),
        ensures t.b() == self.b().subrange(a as int, b as int),
    { unimplemented!() }
    #[verifier::external_body] // String::replace_range
    pub fn replace_range(&mut self, r: core::ops::Range<usize>, t: &Text)
        requires r.start <= r.end <= old(self).b().len(), boundary(old(self).b(), r.start as int), boundary(old(self).b(), r.end as int),
        ensures final(self).b() == old(self).b().subrange(0, r.start as int) + t.b() + old(self).b().subrange(r.end as int, old(self).b().len() as int),
    { unimplemented!() }
    #[verifier::external_body] // str::chars().count()
    pub fn chars_count(&self) -> (r: usize) ensures r == nchars(self.b()) { unimplemented!() }
    #[verifier::external_body] // the n-th of the offsets of the characters followed by `end`
    pub fn nth_char_offset(&self, n: usize, end: usize) -> (r: Option<usize>)
        ensures match r {
            Some(i) => n <= nchars(self.b()) && (n < nchars(self.b()) ==> i < self.b().len() && boundary(self.b(), i as int) && nchars(self.b().subrange(0, i as int)) == n)
                && (n == nchars(self.b()) ==> i == end),
            None => n > nchars(self.b()),
        }
    { unimplemented!() }
    pub fn as_ref(&self) -> (r: &Text) ensures r == self { self }
}
#[verifier::external_body] // FileName, opaque
pub struct FileName { x: u8 }
impl FileName {
    #[verifier::external_body] // FileName::clone
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---------------------------------------------------------------- indices
pub struct NonZeroU32 { pub v: u32 }
impl NonZeroU32 {
    #[verifier::external_body] // NonZeroU32::new_unchecked
    pub fn new_unchecked(n: u32) -> (r: Self) requires n != 0 ensures r.v == n { unimplemented!() }
    #[verifier::external_body] // NonZeroU32::new
    pub fn new(n: u32) -> (r: Option<Self>) ensures match r { Some(x) => n != 0 && x.v == n, None => n == 0 } { unimplemented!() }
    #[verifier::external_body] // NonZeroU32::get
    pub fn get(&self) -> (r: u32) ensures r == self.v { unimplemented!() }
}
impl Copy for NonZeroU32 {}
impl Clone for NonZeroU32 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }

//@@ item core/src/range.rs :: struct Range
//@@ end
impl<T> Range<T> {
    #[verifier::external_body] // Range::new, proved in unit range
    pub fn new(start: T, end: T) -> (r: Self) ensures r.start == start, r.end == end { unimplemented!() }
}

//@@ item core/src/diagnostics/source_file.rs :: struct ByteIndex
//@@ derive Copy, Clone
//@@ end
//@@ item core/src/diagnostics/source_file.rs :: struct ByteOffset
//@@ derive Copy, Clone
//@@ end
impl ByteIndex {
//@@ fn core/src/diagnostics/source_file.rs :: impl ByteIndex :: new
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    ensures r.0 == index,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl ByteIndex :: to_usize
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    ensures r == self.0,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl ByteIndex :: to_u32
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    ensures r == self.0,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl Add for ByteIndex#0 :: add
//@@ name add_offset
//@@ ret r
//@@ spec
    requires 0 <= self.0 + rhs.0 <= u32::MAX, // inside a source file
    ensures r.0 == self.0 + rhs.0,
//@@ end
}
//@@ item core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: struct index_name
//@@ mac index_name=LineIndex number_name=LineNumber
//@@ derive Copy, Clone
//@@ end
//@@ item core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: struct number_name
//@@ mac index_name=LineIndex number_name=LineNumber
//@@ derive Copy, Clone
//@@ end
impl LineIndex {
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl index_name :: number
//@@ mac index_name=LineIndex number_name=LineNumber
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ sub? `unsafe { $e }` => `$e`
//@@ spec
    requires self.0 < u32::MAX,
    ensures r.0.v == self.0 + 1,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl index_name :: to_usize
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    ensures r == self.0,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl index_name :: to_u32
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    ensures r == self.0,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl Add for index_name#0 :: add
//@@ name add_u32
//@@ ret r
//@@ spec
    requires self.0 + rhs <= u32::MAX,
    ensures r.0 == self.0 + rhs,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl From for index_name#1 :: from
//@@ mac index_name=LineIndex number_name=LineNumber
//@@ name from_number
//@@ ret r
//@@ spec
    requires index.0.v != 0, // type invariant of NonZeroU32
    ensures r.0 == index.0.v - 1,
//@@ end
}
impl LineNumber {
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl number_name :: to_u32
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    ensures r == self.0.v,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl number_name :: to_index
//@@ mac index_name=LineIndex number_name=LineNumber
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ sub? `self.to_u32().saturating_sub(1)` => `rt_sat_sub(self.to_u32(), 1)`
//@@ spec
    requires self.0.v != 0,
    ensures r.0 == self.0.v - 1,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl number_name :: new
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    ensures match r { Some(x) => number != 0 && x.0.v == number, None => number == 0 },
//@@ end
}
pub fn rt_sat_sub(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
//@@ item core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: struct index_name
//@@ mac index_name=ColumnIndex number_name=ColumnNumber
//@@ derive Copy, Clone
//@@ end
//@@ item core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: struct number_name
//@@ mac index_name=ColumnIndex number_name=ColumnNumber
//@@ derive Copy, Clone
//@@ end
impl ColumnIndex {
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl index_name :: number
//@@ mac index_name=ColumnIndex number_name=ColumnNumber
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ sub? `unsafe { $e }` => `$e`
//@@ spec
    requires self.0 < u32::MAX,
    ensures r.0.v == self.0 + 1,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl index_name :: to_usize
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    ensures r == self.0,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl From for index_name#0 :: from
//@@ mac index_name=ColumnIndex number_name=ColumnNumber
//@@ name from_u32
//@@ ret r
//@@ spec
    ensures r.0 == index,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl From for index_name#1 :: from
//@@ mac index_name=ColumnIndex number_name=ColumnNumber
//@@ name from_number
//@@ ret r
//@@ spec
    requires index.0.v != 0,
    ensures r.0 == index.0.v - 1,
//@@ end
}
impl ColumnNumber {
//@@ fn core/src/diagnostics/source_file.rs :: macro_rules declare_dual_number_and_index_type@1 :: impl number_name :: to_u32
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    ensures r == self.0.v,
//@@ end
}

// ---------------------------------------------------------------- selections
//@@ item core/src/diagnostics/selection.rs :: struct Position
//@@ derive Copy, Clone
//@@ end
//@@ item core/src/diagnostics/selection.rs :: struct Selection
//@@ derive Copy, Clone
//@@ end
pub open spec fn pos_le(a: Position, b: Position) -> bool { a.line.0 < b.line.0 || (a.line.0 == b.line.0 && a.character.0 <= b.character.0) }
pub fn rt_pos_le(a: &Position, b: &Position) -> (r: bool) ensures r == pos_le(*a, *b) { a.line.0 < b.line.0 || (a.line.0 == b.line.0 && a.character.0 <= b.character.0) } // derived PartialOrd: lexicographic
pub fn rt_swap(s: &mut Selection) ensures final(s).start == old(s).end, final(s).end == old(s).start { let t = s.start; s.start = s.end; s.end = t; } // mem::swap
impl Selection {
//@@ fn core/src/diagnostics/selection.rs :: impl Selection :: new
//@@ ret r
//@@ sub? `start <= end` => `rt_pos_le(&start, &end)`
//@@ spec
    ensures pos_le(r.start, r.end), (r.start == start && r.end == end) || (r.start == end && r.end == start),
//@@ end
//@@ fn core/src/diagnostics/selection.rs :: impl Selection :: canonicalize
//@@ sub? `self.start > self.end` => `!rt_pos_le(&self.start, &self.end)`
//@@ sub? `core::mem::swap(&mut self.start, &mut self.end)` => `rt_swap(self)`
//@@ spec
    ensures pos_le(final(self).start, final(self).end),
        (final(self).start == old(self).start && final(self).end == old(self).end) || (final(self).start == old(self).end && final(self).end == old(self).start),
//@@ end
}

// ---------------------------------------------------------------- line index
// v is the line start table of b: entry k is the position after the k-th newline
pub open spec fn ls_ok(b: Seq<u8>, v: Seq<ByteIndex>) -> bool {
    &&& v.len() == cnt(b, b.len() as int) + 1
    &&& v[0].0 == 0
    &&& forall|k: int| 1 <= k < v.len() ==> 0 < (#[trigger] v[k]).0 <= b.len() && b[v[k].0 - 1] == 10 && cnt(b, v[k].0 as int) == k
}
// the newlines of b, in order
pub open spec fn nl_ok(b: Seq<u8>, m: Seq<usize>) -> bool {
    &&& m.len() == cnt(b, b.len() as int)
    &&& forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]) < b.len() && b[m[k] as int] == 10 && cnt(b, m[k] as int) == k
}
proof fn cnt_mono(b: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q <= b.len(),
    ensures 0 <= cnt(b, p) <= cnt(b, q) <= cnt(b, p) + (q - p),
    decreases q - p + p,
{
    if p < q { cnt_mono(b, p, q - 1); } else if p > 0 { cnt_mono(b, p - 1, p - 1); }
    cnt_nonneg(b, p);
}
proof fn cnt_nonneg(b: Seq<u8>, p: int) ensures 0 <= cnt(b, p) decreases p
{ if 0 < p <= b.len() { cnt_nonneg(b, p - 1); } }
proof fn cnt_ext(a: Seq<u8>, b: Seq<u8>, off: int, p: int)
    // b[off..off+p] == a[0..p]
    requires 0 <= p <= a.len(), 0 <= off, off + p <= b.len(), forall|i: int| 0 <= i < p ==> a[i] == #[trigger] b[off + i],
    ensures cnt(b, off + p) == cnt(b, off) + cnt(a, p),
    decreases p,
{ if p > 0 { cnt_ext(a, b, off, p - 1); assert(a[p - 1] == b[off + (p - 1)]); } }
// equal tails contribute equally
proof fn cnt_tail(a: Seq<u8>, b: Seq<u8>, oa: int, ob: int, n: int)
    requires 0 <= n, 0 <= oa, oa + n <= a.len(), 0 <= ob, ob + n <= b.len(), forall|i: int| 0 <= i < n ==> a[oa + i] == #[trigger] b[ob + i],
    ensures cnt(b, ob + n) - cnt(b, ob) == cnt(a, oa + n) - cnt(a, oa),
    decreases n,
{ if n > 0 { cnt_tail(a, b, oa, ob, n - 1); assert(a[oa + (n - 1)] == b[ob + (n - 1)]); } }
// the table is sorted and its entries split positions by their newline count
proof fn ls_facts(b: Seq<u8>, v: Seq<ByteIndex>)
    requires ls_ok(b, v),
    ensures
        forall|k: int| 0 <= k < v.len() ==> cnt(b, (#[trigger] v[k]).0 as int) == k && v[k].0 <= b.len(),
        forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 < (#[trigger] v[j]).0,
        forall|k: int, p: int| 0 <= k < v.len() && 0 <= p <= b.len() ==> ((#[trigger] v[k]).0 <= p <==> k <= #[trigger] cnt(b, p)),
{
    assert(cnt(b, 0) == 0);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0 < (#[trigger] v[j]).0 by {
        if v[i].0 >= v[j].0 { cnt_mono(b, v[j].0 as int, v[i].0 as int); }
    }
    assert forall|k: int, p: int| 0 <= k < v.len() && 0 <= p <= b.len() implies ((#[trigger] v[k]).0 <= p <==> k <= #[trigger] cnt(b, p)) by {
        cnt_nonneg(b, p);
        if k > 0 {
            if v[k].0 <= p { cnt_mono(b, v[k].0 as int, p); }
            else { cnt_mono(b, p, v[k].0 - 1); }
        }
    }
}
proof fn cnt_bound(b: Seq<u8>) ensures 0 <= cnt(b, b.len() as int) <= b.len() { cnt_mono(b, 0, b.len() as int); }

#[verifier::external_body] // memchr::memchr_iter: the positions of n, in order
pub fn memchr_iter(n: u8, b: &[u8]) -> (r: Vec<usize>)
    ensures n == 10 ==> nl_ok(b@, r@),
{ unimplemented!() }
pub mod memchr { pub use super::memchr_iter; }
#[verifier::external_body] // Option::into_iter().chain(iter.map(f)).collect()
pub fn rt_chain_map_collect<F: Fn(usize) -> ByteIndex>(first: Option<ByteIndex>, m: Vec<usize>, f: F) -> (r: Vec<ByteIndex>)
    requires forall|k: int| 0 <= k < m.len() ==> f.requires((#[trigger] m[k],)),
    ensures ({
        let o: int = if first is Some { 1 } else { 0 };
        &&& r.len() == m.len() + o
        &&& first matches Some(x) ==> r[0] == x
        &&& forall|k: int| 0 <= k < m.len() ==> f.ensures((#[trigger] m[k],), r[k + o])
        &&& forall|k: int| o <= k < r.len() ==> f.ensures((m[k - o],), #[trigger] r[k])
    }),
{ unimplemented!() }

//@@ fn core/src/diagnostics/source_file.rs :: compute_line_starts
//@@ ret r
//@@ sub? `&str` => `&Text`
//@@ sub `initial_line_offset.into_iter().chain($m.map(|offset| $e),).collect()` => `{ let m = $m; rt_chain_map_collect(initial_line_offset, m, |offset: usize| -> (q: ByteIndex) requires offset + 1 + text_offset <= u32::MAX ensures q.0 == text_offset + offset + 1 { $e }) }`
//@@ spec
    requires text.b().len() + 1 + (match text_offset { Some(o) => o as int, None => 0 }) < u32::MAX,
    ensures match text_offset {
        None => ls_ok(text.b(), r@),
        Some(o) => r.len() == cnt(text.b(), text.b().len() as int)
            && forall|k: int| 0 <= k < r.len() ==> o < (#[trigger] r[k]).0 <= o + text.b().len() && text.b()[r[k].0 - o - 1] == 10 && cnt(text.b(), r[k].0 - o) == k + 1,
    },
//@@ end

pub struct SourceContent { pub language: u8, pub uri: FileName, pub content: Text, pub line_starts: Vec<ByteIndex>, pub version: i32 }
//@@ item core/src/diagnostics/location.rs :: struct FileLineCol
//@@ end
//@@ item core/src/diagnostics/source_file.rs :: enum SourceContentUpdateError
//@@ end
// what is true of every SourceContent
pub open spec fn inv(c: SourceContent) -> bool {
    c.content.b().len() < u32::MAX - 2 && ls_ok(c.content.b(), c.line_starts@)
}
// the end of line l
pub open spec fn line_end(c: SourceContent, l: int) -> int { if l + 1 < c.line_starts.len() { c.line_starts[l + 1].0 as int } else { c.content.b().len() as int } }

#[verifier::external_body] // slice::binary_search on a sorted slice
pub fn rt_binary_search(v: &Vec<ByteIndex>, x: &ByteIndex) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 < (#[trigger] v[j]).0,
    ensures match r {
        Ok(i) => i < v.len() && v[i as int].0 == x.0,
        Err(i) => i <= v.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).0 < x.0) && (forall|j: int| i <= j < v.len() ==> (#[trigger] v[j]).0 > x.0),
    }
{ unimplemented!() }
#[verifier::external_body] // slice::partition_point
pub fn rt_partition_point<F: Fn(&ByteIndex) -> bool>(v: &Vec<ByteIndex>, f: F, Ghost(n): Ghost<int>) -> (r: usize)
    requires 0 <= n <= v.len(), forall|k: int| 0 <= k < v.len() ==> f.requires((&#[trigger] v[k],)),
        forall|k: int, t: bool| 0 <= k < v.len() && #[trigger] f.ensures((&v[k],), t) ==> t == (k < n),
    ensures r == n,
{ unimplemented!() }
#[verifier::external_body] // Vec::splice(a..b, x)
pub fn rt_splice(v: &mut Vec<ByteIndex>, a: usize, b: usize, x: Vec<ByteIndex>)
    requires a <= b <= old(v).len(),
    ensures final(v)@ == old(v)@.subrange(0, a as int) + x@ + old(v)@.subrange(b as int, old(v).len() as int),
{ unimplemented!() }
#[verifier::external_body] // i32::saturating_sub_unsigned
pub fn rt_i32_sat_sub(a: i32, b: u32) -> (r: i32) ensures a - b >= i32::MIN ==> r == a - b { unimplemented!() }
#[verifier::external_body] // u32::saturating_add_signed
pub fn rt_u32_sat_add(a: u32, d: i32) -> (r: u32) ensures 0 <= a + d <= u32::MAX ==> r == a + d { unimplemented!() }
#[verifier::external_body] // Option<&T>::copied
pub fn rt_copied(o: Option<&ByteIndex>) -> (r: Option<ByteIndex>) ensures match o { Some(x) => r == Some(*x), None => r is None } { unimplemented!() }

impl SourceContent {
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: new
//@@ ret r
//@@ sig `pub fn new(language: u8, uri: FileName, content: Text) -> (r: Self)`
//@@ sub? `let language = language.as_ref().to_string().into_boxed_str();` => ``
//@@ sub? `let content: String = content.into();` => ``
//@@ sub? `uri: uri.into()` => `uri`
//@@ spec
    requires content.b().len() < u32::MAX - 2, // documented panic near 2^32
    ensures inv(r), r.content.b() == content.b(), r.version == 0,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: as_str
//@@ ret r
//@@ sub? `&str` => `&Text`
//@@ spec
    ensures r.b() == self.content.b(),
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: line_count
//@@ ret r
//@@ spec
    requires inv(*self),
    ensures r == cnt(self.content.b(), self.content.b().len() as int) + 1,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: last_line_index
//@@ ret r
//@@ sub `LineIndex(self.line_count().saturating_sub(1).try_into().expect("too many lines in file"),)` => `{ let n = self.line_count(); proof { cnt_bound(self.content.b()); } LineIndex((if n >= 1 { n - 1 } else { 0 }) as u32) }`
//@@ spec
    requires inv(*self),
    ensures r.0 == cnt(self.content.b(), self.content.b().len() as int),
//@@ at entry
    proof { cnt_bound(self.content.b()); }
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: line_start
//@@ ret r
//@@ sub? `self.line_starts.get($i).copied()` => `rt_copied(self.line_starts.get($i))`
//@@ spec
    requires inv(*self),
    ensures match r {
        Some(p) => line_index.0 < self.line_starts.len() && p == self.line_starts[line_index.0 as int] && cnt(self.content.b(), p.0 as int) == line_index.0
            && (p.0 == 0 || (0 < p.0 <= self.content.b().len() && self.content.b()[p.0 - 1] == 10)),
        None => line_index.0 > cnt(self.content.b(), self.content.b().len() as int),
    },
//@@ at entry
    proof { ls_facts(self.content.b(), self.line_starts@); }
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: line_range
//@@ ret r
//@@ sub? `line_index + 1` => `line_index.add_u32(1)`
//@@ spec
    requires inv(*self),
    ensures match r {
        Some(p) => line_index.0 < self.line_starts.len() && p.start == self.line_starts[line_index.0 as int] && p.end.0 == line_end(*self, line_index.0 as int)
            && p.start.0 <= p.end.0 <= self.content.b().len()
            // the line: exactly the positions with that many newlines before them, up to the end of text
            && (forall|q: int| 0 <= q <= self.content.b().len() ==> ((p.start.0 <= q < p.end.0 || (q == self.content.b().len() && p.start.0 <= q && q == p.end.0 && line_index.0 + 1 == self.line_starts.len())) <==> #[trigger] cnt(self.content.b(), q) == line_index.0)),
        None => line_index.0 > cnt(self.content.b(), self.content.b().len() as int),
    },
//@@ at entry
    proof {
        ls_facts(self.content.b(), self.line_starts@); cnt_bound(self.content.b());
        let b = self.content.b();
        assert forall|q: int| 0 <= q <= b.len() implies 0 <= #[trigger] cnt(b, q) <= cnt(b, b.len() as int) by { cnt_nonneg(b, q); cnt_mono(b, q, b.len() as int); }
        if line_index.0 + 1 < self.line_starts.len() {
            let (x, y) = (self.line_starts[line_index.0 as int], self.line_starts[line_index.0 + 1]);
            assert forall|q: int| 0 <= q <= b.len() implies ((x.0 <= q < y.0) <==> #[trigger] cnt(b, q) == line_index.0) by { }
        }
    }
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: line_index
//@@ ret r
//@@ sub? `self.line_starts.binary_search(&byte_index)` => `rt_binary_search(&self.line_starts, &byte_index)`
//@@ spec
    requires inv(*self),
    ensures byte_index.0 <= self.content.b().len() ==> r.0 == cnt(self.content.b(), byte_index.0 as int),
        byte_index.0 > self.content.b().len() ==> r.0 == cnt(self.content.b(), self.content.b().len() as int),
//@@ at entry
    proof {
        let (b, v) = (self.content.b(), self.line_starts@);
        ls_facts(b, v); cnt_bound(b);
        if byte_index.0 <= b.len() {
            cnt_nonneg(b, byte_index.0 as int); cnt_mono(b, byte_index.0 as int, b.len() as int);
            let c = cnt(b, byte_index.0 as int);
            assert(v[c].0 <= byte_index.0);
            if c + 1 < v.len() { assert(v[c + 1].0 > byte_index.0); }
        } else {
            let c = cnt(b, b.len() as int);
            assert(v[c].0 <= b.len());
        }
    }
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: line_column_to_offset
//@@ ret r
//@@ sub `line_src.char_indices().map(|(offset, _)| offset).chain(core::iter::once($e)).nth($n)` => `line_src.nth_char_offset($n, $e)`
//@@ sub? `self.content.get($a..$b).expect($m)` => `rt_unwrap(self.content.get($a..$b))`
//@@ sub? `start + ByteOffset($e)` => `start.add_offset(ByteOffset($e))`
//@@ spec
    requires inv(*self),
    ensures match r {
        Some(p) => line_index.0 < self.line_starts.len()
            && self.line_starts[line_index.0 as int].0 <= p.0 <= line_end(*self, line_index.0 as int) && boundary(self.content.b(), p.0 as int)
            && nchars(self.content.b().subrange(self.line_starts[line_index.0 as int].0 as int, p.0 as int)) == column_index.0,
        None => line_index.0 >= self.line_starts.len()
            || column_index.0 > nchars(self.content.b().subrange(self.line_starts[line_index.0 as int].0 as int, line_end(*self, line_index.0 as int))),
    },
//@@ at entry
    let ghost b = self.content.b();
    proof {
        self.content.valid();
        ls_facts(b, self.line_starts@); cnt_bound(b);
        // a line starts at a character boundary
        assert forall|k: int| 0 <= k < self.line_starts.len() implies boundary(b, (#[trigger] self.line_starts[k]).0 as int) by {
            let p = self.line_starts[k].0 as int;
            if p < b.len() && cont(b[p]) { assert(p > 0); assert(b[p - 1] == 10); }
        }
        assert(boundary(b, b.len() as int));
    }
//@@ at before `let start = line_span.start`
    proof {
        let (s, e) = (line_span.start.0 as int, line_span.end.0 as int);
        let i = column_offset as int;
        assert(b.subrange(s, e).subrange(0, i) =~= b.subrange(s, s + i));
        if i < line_src.b().len() { assert(line_src.b()[i] == b[s + i]); }
    }
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: location
//@@ ret r
//@@ sub? `line_src.chars().count()` => `line_src.chars_count()`
//@@ sub? `ColumnIndex::from` => `ColumnIndex::from_u32`
//@@ spec
    requires inv(*self),
    ensures match r {
        // one-based line and column
        Some(l) => byte_index.0 <= self.content.b().len() && boundary(self.content.b(), byte_index.0 as int) && l.uri == self.uri
            && l.line.0.v == cnt(self.content.b(), byte_index.0 as int) + 1
            && l.column.0.v == nchars(self.content.b().subrange(self.line_starts[cnt(self.content.b(), byte_index.0 as int)].0 as int, byte_index.0 as int)) + 1,
        None => byte_index.0 > self.content.b().len() || !boundary(self.content.b(), byte_index.0 as int),
    },
//@@ at entry
    let ghost b = self.content.b();
    proof {
        self.content.valid();
        ls_facts(b, self.line_starts@); cnt_bound(b);
        assert forall|k: int| 0 <= k < self.line_starts.len() implies boundary(b, (#[trigger] self.line_starts[k]).0 as int) by {
            let p = self.line_starts[k].0 as int;
            if p < b.len() && cont(b[p]) { assert(p > 0); assert(b[p - 1] == 10); }
        }
        assert forall|s: Seq<u8>| #[trigger] nchars(s) <= s.len() by { nchars_le(s); }
        if byte_index.0 <= b.len() { cnt_nonneg(b, byte_index.0 as int); cnt_mono(b, byte_index.0 as int, b.len() as int); }
    }
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: select
//@@ ret r
//@@ sub? `Option<&str>` => `Option<&Text>`
//@@ sub? `mut range: Selection` => `range0: Selection`
//@@ sub? `Some(&self.as_str()[$a..$b])` => `Some(self.as_str().slice($a, $b))`
//@@ spec
    requires inv(*self),
    ensures ({
        let (x, y) = if pos_le(range0.start, range0.end) { (range0.start, range0.end) } else { (range0.end, range0.start) };
        r matches Some(t) ==> exists|a: int, b: int| at_pos(*self, x, a) && at_pos(*self, y, b) && a <= b && t.b() == #[trigger] self.content.b().subrange(a, b)
    }),
//@@ at entry
    let mut range = range0;
//@@ at before `Some(&self.as_str()`
    proof { order(*self, range.start, start.0 as int, range.end, end.0 as int); }
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceContent :: update
//@@ ret r
//@@ sub? `text: String` => `text: Text`
//@@ sub? `self.line_starts.partition_point(|line_start| line_start.to_usize() <= start)` => `rt_partition_point(&self.line_starts, |line_start: &ByteIndex| -> (t: bool) ensures t == (line_start.0 <= start) { line_start.to_usize() <= start }, Ghost(cnt(b0, start as int) + 1))`
//@@ sub? `self.line_starts.partition_point(|line_start| line_start.to_usize() <= end)` => `rt_partition_point(&self.line_starts, |line_start: &ByteIndex| -> (t: bool) ensures t == (line_start.0 <= end) { line_start.to_usize() <= end }, Ghost(cnt(b0, end as int) + 1))`
//@@ sub? `self.line_starts.splice($a..$b, $c)` => `rt_splice(&mut self.line_starts, $a, $b, $c)`
//@@ sub? `(text.len() as i32).saturating_sub_unsigned($b)` => `rt_i32_sat_sub((text.len() as i32), $b)`
//@@ sub? `for i in ($a)..self.line_starts.len()` => `let rt_n = self.line_starts.len(); for i in ($a)..rt_n`
//@@ sub? `self.line_starts[i].to_u32().saturating_add_signed($b)` => `rt_u32_sat_add(self.line_starts[i].to_u32(), $b)`
//@@ spec
    requires inv(*old(self)), old(self).content.b().len() + text.b().len() < 0x7fff_fff0, // sizes fit i32, as the code needs
        range matches Some(s) ==> pos_le(s.start, s.end), // documented panic otherwise
    ensures
        match r {
            Ok(_) => inv(*final(self)) && final(self).version == version && final(self).uri == old(self).uri && match range {
                None => final(self).content.b() == text.b(),
                Some(s) => exists|a: int, b: int| at_pos(*old(self), s.start, a) && at_pos(*old(self), s.end, b) && a <= b
                    && #[trigger] spliced(old(self).content.b(), a, b, text.b()) == final(self).content.b(),
            },
            Err(_) => *final(self) == *old(self) && (range matches Some(s) && ((forall|a: int| !at_pos(*old(self), s.start, a)) || (forall|a: int| !at_pos(*old(self), s.end, a)))),
        },
//@@ opt #[verifier::rlimit(30)]
//@@ opt #[verifier::spinoff_prover]
//@@ at entry
    let ghost c0 = *self;
    let ghost b0 = self.content.b();
    let ghost v0 = self.line_starts@;
    proof {
        ls_facts(b0, v0); cnt_bound(b0);
        assert forall|p: Position, a: int| #[trigger] at_pos(c0, p, a) implies p.character.0 <= nchars(b0.subrange(v0[p.line.0 as int].0 as int, line_end(c0, p.line.0 as int))) by { pos_fits(c0, p, a); }
    }
//@@ at before `assert!(`
    proof {
        assert(at_pos(c0, range.start, start as int));
        assert(at_pos(c0, range.end, end as int));
        order(c0, range.start, start as int, range.end, end as int);
        cnt_mono(b0, 0, start as int); cnt_mono(b0, start as int, end as int); cnt_mono(b0, end as int, b0.len() as int); cnt_bound(text.b());
    }
    let ghost (a, e, t) = (start as int, end as int, text.b());
    let ghost (ca, ce, ct) = (cnt(b0, a), cnt(b0, e), cnt(t, t.len() as int));
//@@ at before `let num_added`
    let ghost added = added_line_starts@;
    proof { assert(self.content.b() == spliced(b0, a, e, t)); }
//@@ at before `let diff`
    let ghost v1 = self.line_starts@;
    proof {
        assert(splice_start == ca + 1 && splice_end == ce + 1);
        mid_ok(b0, v0, a, e, t, added, v1);
        assert(t.len() - (e - a) >= i32::MIN);
    }
//@@ loops 1
//@@ loop 0
    invariant mid(b0, v0, a, e, t, v1), 0 <= a <= e <= b0.len(), b0.len() + t.len() < 0x7fff_fff0, diff == t.len() - (e - a),
        splice_start + num_added == ca + ct + 1, ca == cnt(b0, a), ct == cnt(t, t.len() as int), splice_start == ca + 1, num_added == ct,
        rt_n == v1.len(), self.line_starts.len() == v1.len(), self.content.b() == spliced(b0, a, e, t), self.uri == c0.uri,
        forall|k: int| 0 <= k <= ca + ct ==> #[trigger] self.line_starts[k] == v1[k],
        forall|k: int| ca + ct < k < i ==> (#[trigger] self.line_starts[k]).0 == v1[k].0 + diff,
        forall|k: int| i <= k < v1.len() ==> #[trigger] self.line_starts[k] == v1[k],
//@@ at loop 0 start
    proof {
        assert(self.line_starts[i as int] == v1[i as int]);
        assert(e < v1[i as int].0 <= b0.len());
    }
//@@ at after `if diff != 0 { $x }`
    proof {
        mid_shift(b0, v0, a, e, t, v1, self.line_starts@, diff as int);
        spliced_ok(b0, v0, a, e, t, self.line_starts@);
        assert(at_pos(c0, range.start, a) && at_pos(c0, range.end, e) && a <= e && spliced(b0, a, e, t) == self.content.b());
    }
//@@ end
}
#[verifier::external_body] // Option::expect on Some
pub fn rt_unwrap<T>(o: Option<T>) -> (r: T) requires o is Some ensures r == o->0 { unimplemented!() }
proof fn nchars_le(s: Seq<u8>) ensures nchars(s) <= s.len() decreases s.len() { if s.len() > 0 { nchars_le(s.drop_last()); } }

// position -> offset, as a relation
pub open spec fn at_pos(c: SourceContent, p: Position, o: int) -> bool {
    p.line.0 < c.line_starts.len() && c.line_starts[p.line.0 as int].0 <= o <= line_end(c, p.line.0 as int) && boundary(c.content.b(), o)
    && nchars(c.content.b().subrange(c.line_starts[p.line.0 as int].0 as int, o)) == p.character.0
}
pub open spec fn spliced(b: Seq<u8>, a: int, e: int, t: Seq<u8>) -> Seq<u8> { b.subrange(0, a) + t + b.subrange(e, b.len() as int) }
proof fn nchars_split(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures nchars(s) == nchars(s.subrange(0, i)) + nchars(s.subrange(i, s.len() as int)),
    decreases s.len() - i,
{
    if i == s.len() { assert(s.subrange(0, i) =~= s); assert(s.subrange(i, i).len() == 0); }
    else {
        assert(s.subrange(i, s.len() as int).drop_last() =~= s.drop_last().subrange(i, s.len() - 1));
        assert(s.drop_last().subrange(0, i) =~= s.subrange(0, i));
        nchars_split(s.drop_last(), i);
    }
}
proof fn pos_fits(c: SourceContent, p: Position, a: int)
    requires inv(c), at_pos(c, p, a),
    ensures p.character.0 <= nchars(c.content.b().subrange(c.line_starts[p.line.0 as int].0 as int, line_end(c, p.line.0 as int))),
{
    let (s, e) = (c.line_starts[p.line.0 as int].0 as int, line_end(c, p.line.0 as int));
    ls_facts(c.content.b(), c.line_starts@);
    let l = c.content.b().subrange(s, e);
    nchars_split(l, a - s);
    assert(l.subrange(0, a - s) =~= c.content.b().subrange(s, a));
}
// a text that starts at a boundary and is not empty has at least one character
proof fn nchars_pos(s: Seq<u8>) requires s.len() > 0, !cont(s[0]) ensures nchars(s) >= 1 decreases s.len()
{ if s.len() > 1 { nchars_pos(s.drop_last()); } else { assert(s.drop_last().len() == 0); } }
// offsets are ordered as their positions are
proof fn order(c: SourceContent, p: Position, a: int, q: Position, e: int)
    requires inv(c), at_pos(c, p, a), at_pos(c, q, e), pos_le(p, q),
    ensures a <= e,
{
    let (b, v) = (c.content.b(), c.line_starts@);
    ls_facts(b, v);
    if p.line.0 < q.line.0 {
        assert(line_end(c, p.line.0 as int) <= v[q.line.0 as int].0) by {
            if p.line.0 + 1 < q.line.0 { assert(v[p.line.0 + 1].0 < v[q.line.0 as int].0); }
        }
    } else if a > e {
        let s = v[p.line.0 as int].0 as int;
        nchars_split(b.subrange(s, a), e - s);
        assert(b.subrange(s, a).subrange(0, e - s) =~= b.subrange(s, e));
        assert(b.subrange(s, a).subrange(e - s, a - s) =~= b.subrange(e, a));
        nchars_pos(b.subrange(e, a));
    }
}
// a position denotes at most one offset, and the offset's location is that position
proof fn pos_inverse(c: SourceContent, p: Position, o1: int, o2: int)
    requires inv(c), at_pos(c, p, o1), at_pos(c, p, o2),
    ensures o1 == o2,
{ order(c, p, o1, p, o2); order(c, p, o2, p, o1); }

pub open spec fn shifted(b: Seq<u8>, v: Seq<ByteIndex>, a: int, e: int, t: Seq<u8>, w: Seq<ByteIndex>) -> bool {
    let (ca, ce, ct) = (cnt(b, a), cnt(b, e), cnt(t, t.len() as int));
    &&& w.len() == v.len() - (ce - ca) + ct
    &&& forall|k: int| 0 <= k <= ca ==> #[trigger] w[k] == v[k]
    &&& forall|k: int| ca < k <= ca + ct ==> a < (#[trigger] w[k]).0 <= a + t.len() && t[w[k].0 - a - 1] == 10 && cnt(t, w[k].0 - a) == k - ca
    &&& forall|k: int| ca + ct < k < w.len() ==> (#[trigger] w[k]).0 == v[k - ct - ca + ce].0 + t.len() - (e - a)
}
// between the splice of the table and the shift of its tail
pub open spec fn mid(b: Seq<u8>, v: Seq<ByteIndex>, a: int, e: int, t: Seq<u8>, w: Seq<ByteIndex>) -> bool {
    let (ca, ce, ct) = (cnt(b, a), cnt(b, e), cnt(t, t.len() as int));
    &&& w.len() == v.len() - (ce - ca) + ct
    &&& forall|k: int| 0 <= k <= ca ==> #[trigger] w[k] == v[k]
    &&& forall|k: int| ca < k <= ca + ct ==> a < (#[trigger] w[k]).0 <= a + t.len() && t[w[k].0 - a - 1] == 10 && cnt(t, w[k].0 - a) == k - ca
    &&& forall|k: int| ca + ct < k < w.len() ==> (#[trigger] w[k]) == v[k - ct - ca + ce] && e < w[k].0 <= b.len()
}
proof fn mid_ok(b: Seq<u8>, v: Seq<ByteIndex>, a: int, e: int, t: Seq<u8>, x: Seq<ByteIndex>, w: Seq<ByteIndex>)
    requires ls_ok(b, v), 0 <= a <= e <= b.len(), x.len() == cnt(t, t.len() as int),
        forall|k: int| 0 <= k < x.len() ==> a < (#[trigger] x[k]).0 <= a + t.len() && t[x[k].0 - a - 1] == 10 && cnt(t, x[k].0 - a) == k + 1,
        w == v.subrange(0, cnt(b, a) + 1) + x + v.subrange(cnt(b, e) + 1, v.len() as int),
    ensures mid(b, v, a, e, t, w),
{
    ls_facts(b, v);
    cnt_mono(b, 0, a); cnt_mono(b, a, e); cnt_mono(b, e, b.len() as int); cnt_bound(t);
    let (ca, ce, ct) = (cnt(b, a), cnt(b, e), cnt(t, t.len() as int));
    assert forall|k: int| ca < k <= ca + ct implies a < (#[trigger] w[k]).0 <= a + t.len() && t[w[k].0 - a - 1] == 10 && cnt(t, w[k].0 - a) == k - ca by {
        assert(w[k] == x[k - ca - 1]);
    }
    assert forall|k: int| ca + ct < k < w.len() implies (#[trigger] w[k]) == v[k - ct - ca + ce] && e < w[k].0 <= b.len() by {
        let j = k - ct - ca + ce;
        assert(w[k] == v[j]);
        assert(j > ce);
        assert(v[j].0 <= e <==> j <= cnt(b, e));
    }
}
proof fn mid_shift(b: Seq<u8>, v: Seq<ByteIndex>, a: int, e: int, t: Seq<u8>, x: Seq<ByteIndex>, w: Seq<ByteIndex>, d: int)
    requires mid(b, v, a, e, t, x), w.len() == x.len(), d == t.len() - (e - a), 0 <= cnt(b, a), 0 <= cnt(t, t.len() as int), cnt(b, a) <= cnt(b, e) < v.len(),
        forall|k: int| 0 <= k <= cnt(b, a) + cnt(t, t.len() as int) ==> #[trigger] w[k] == x[k],
        forall|k: int| cnt(b, a) + cnt(t, t.len() as int) < k < x.len() ==> (#[trigger] w[k]).0 == x[k].0 + d,
    ensures shifted(b, v, a, e, t, w),
{
    let (ca, ce, ct) = (cnt(b, a), cnt(b, e), cnt(t, t.len() as int));
    assert forall|k: int| 0 <= k <= ca implies #[trigger] w[k] == v[k] by { assert(w[k] == x[k]); }
    assert forall|k: int| ca < k <= ca + ct implies a < (#[trigger] w[k]).0 <= a + t.len() && t[w[k].0 - a - 1] == 10 && cnt(t, w[k].0 - a) == k - ca by { assert(w[k] == x[k]); }
    assert forall|k: int| ca + ct < k < w.len() implies (#[trigger] w[k]).0 == v[k - ct - ca + ce].0 + t.len() - (e - a) by { assert(x[k] == v[k - ct - ca + ce]); }
}
proof fn spliced_ok(b: Seq<u8>, v: Seq<ByteIndex>, a: int, e: int, t: Seq<u8>, w: Seq<ByteIndex>)
    requires ls_ok(b, v), 0 <= a <= e <= b.len(), shifted(b, v, a, e, t, w),
    ensures ls_ok(spliced(b, a, e, t), w),
{
    let n = spliced(b, a, e, t);
    let tl = t.len() as int;
    ls_facts(b, v);
    cnt_mono(b, 0, a); cnt_mono(b, a, e); cnt_mono(b, e, b.len() as int); cnt_bound(t);
    // newline counts of the new text
    assert forall|p: int| 0 <= p <= a implies #[trigger] cnt(n, p) == cnt(b, p) by { cnt_tail(b, n, 0, 0, p); }
    assert forall|p: int| 0 <= p <= tl implies #[trigger] cnt(n, a + p) == cnt(b, a) + cnt(t, p) by { cnt_ext(t, n, a, p); }
    assert forall|p: int| e <= p <= b.len() implies #[trigger] cnt(n, p - e + a + tl) == cnt(b, a) + cnt(t, tl) + cnt(b, p) - cnt(b, e) by {
        cnt_tail(b, n, e, a + tl, p - e);
        assert(cnt(n, a + tl) == cnt(b, a) + cnt(t, tl));
    }
    assert(n.len() == b.len() - e + a + tl);
    assert(cnt(n, b.len() - e + a + tl) == cnt(b, a) + cnt(t, tl) + cnt(b, b.len() as int) - cnt(b, e));
    let (ca, ce, ct) = (cnt(b, a), cnt(b, e), cnt(t, tl));
    assert(w[0] == v[0]);
    assert forall|k: int| 1 <= k < w.len() implies 0 < (#[trigger] w[k]).0 <= n.len() && n[w[k].0 - 1] == 10 && cnt(n, w[k].0 as int) == k by {
        if k <= ca {
            assert(w[k] == v[k]);
            assert(v[k].0 <= a);
        } else if k <= ca + ct {
            let p = w[k].0 - a;
            assert(cnt(n, a + p) == ca + cnt(t, p));
            assert(n[w[k].0 - 1] == t[p - 1]);
        } else {
            let j = k - ct - ca + ce;
            let p = v[j].0 as int;
            assert(p > e);
            assert(cnt(n, p - e + a + tl) == ca + ct + cnt(b, p) - ce);
            assert(n[w[k].0 - 1] == b[p - 1]);
        }
    }
}
}
fn main() {}
