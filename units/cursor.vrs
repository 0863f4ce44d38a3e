//@@ include range.vrs
// the cursor over an input and the regions searched from it
verus! {
global size_of usize == 8;
impl core::fmt::Debug for Range<usize> {
    #[verifier::external_body]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}
impl RangeBounds for Range<usize> {
    open spec fn lo(&self) -> Bound<usize> { Bound::Included(self.start) }
    open spec fn hi(&self) -> Bound<usize> { Bound::Excluded(self.end) }
    fn start_bound(&self) -> Bound<&usize> { Bound::Included(&self.start) }
    fn end_bound(&self) -> Bound<&usize> { Bound::Excluded(&self.end) }
}
impl RangeBounds for core::ops::Range<usize> {
    open spec fn lo(&self) -> Bound<usize> { Bound::Included(self.start) }
    open spec fn hi(&self) -> Bound<usize> { Bound::Excluded(self.end) }
    fn start_bound(&self) -> Bound<&usize> { Bound::Included(&self.start) }
    fn end_bound(&self) -> Bound<&usize> { Bound::Excluded(&self.end) }
}
pub struct RangeFrom { pub start: usize }
impl RangeBounds for RangeFrom {
    open spec fn lo(&self) -> Bound<usize> { Bound::Included(self.start) }
    open spec fn hi(&self) -> Bound<usize> { Bound::Unbounded }
    fn start_bound(&self) -> Bound<&usize> { Bound::Included(&self.start) }
    fn end_bound(&self) -> Bound<&usize> { Bound::Unbounded }
}
pub struct RangeTo { pub end: usize }
impl RangeBounds for RangeTo {
    open spec fn lo(&self) -> Bound<usize> { Bound::Unbounded }
    open spec fn hi(&self) -> Bound<usize> { Bound::Excluded(self.end) }
    fn start_bound(&self) -> Bound<&usize> { Bound::Unbounded }
    fn end_bound(&self) -> Bound<&usize> { Bound::Excluded(&self.end) }
}
pub fn rt_from(start: usize) -> (r: RangeFrom) ensures r.start == start { RangeFrom { start } }
pub fn rt_to(end: usize) -> (r: RangeTo) ensures r.end == end, b_lo(r.lo(), 0) == 0, forall|n: int| b_hi(r.hi(), n) == end { RangeTo { end } }
pub fn rt_u32(n: usize) -> (r: u32) requires n <= u32::MAX ensures r == n { n as u32 }

// ---------------------------------------------------------------- line ends
/// a line end starts at `i` and lies within `[.., hi)`
pub open spec fn nl_at(b: Seq<u8>, crlf: bool, i: int, hi: int) -> bool {
    if crlf { crlf_at(b, i) && i + 2 <= hi } else { lf_at(b, i) && i < hi }
}
/// where the line that contains `lo` ends, as seen from a region that ends at `hi`
pub open spec fn nl(b: Seq<u8>, crlf: bool, lo: int, hi: int) -> int decreases hi - lo {
    if lo >= hi { hi } else if nl_at(b, crlf, lo, hi) { lo } else { nl(b, crlf, lo + 1, hi) }
}
pub proof fn nl_props(b: Seq<u8>, crlf: bool, lo: int, hi: int)
    requires lo <= hi
    ensures lo <= nl(b, crlf, lo, hi) <= hi,
        nl(b, crlf, lo, hi) < hi ==> nl_at(b, crlf, nl(b, crlf, lo, hi), hi),
        forall|j: int| lo <= j < nl(b, crlf, lo, hi) ==> !nl_at(b, crlf, j, hi),
    decreases hi - lo
{
    if lo < hi && !nl_at(b, crlf, lo, hi) { nl_props(b, crlf, lo + 1, hi); }
}
pub proof fn nl_is(b: Seq<u8>, crlf: bool, lo: int, hi: int, i: int)
    requires lo <= i <= hi, i < hi ==> nl_at(b, crlf, i, hi), forall|j: int| lo <= j < i ==> !nl_at(b, crlf, j, hi)
    ensures i == nl(b, crlf, lo, hi)
    decreases hi - lo
{
    if lo < hi && !nl_at(b, crlf, lo, hi) { nl_is(b, crlf, lo + 1, hi, i); }
}
/// the last line end in `[lo, hi)`
pub open spec fn is_last_nl(b: Seq<u8>, crlf: bool, lo: int, hi: int, i: int) -> bool {
    lo <= i < hi && nl_at(b, crlf, i, hi) && forall|j: int| i < j < hi ==> !nl_at(b, crlf, j, hi)
}
/// no line end in `[lo, hi)`
pub open spec fn no_nl(b: Seq<u8>, crlf: bool, lo: int, hi: int) -> bool { forall|j: int| lo <= j < hi ==> !nl_at(b, crlf, j, hi) }
/// the first byte of the line after the one that contains `pos` (whatever its line end), or the end of the text
pub open spec fn next_line(b: Seq<u8>, pos: int) -> int {
    let i = nl(b, false, pos, b.len() as int);
    if i < b.len() { i + 1 } else { i }
}

// ---------------------------------------------------------------- spans
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct SourceId(pub u32);
//@@ item core/src/diagnostics/source_file.rs :: struct ByteIndex
//@@ derive Copy, Clone
//@@ end
//@@ item core/src/diagnostics/span.rs :: struct SourceSpan
//@@ derive Copy, Clone
//@@ end
#[derive(Debug)]
pub struct InvalidByteIndexRange;
impl ByteIndex {
    pub open spec fn at(self) -> int { self.0 as int }
//@@ fn core/src/diagnostics/source_file.rs :: impl ByteIndex :: to_usize
//@@ ret r
//@@ spec
    ensures r == self.at(),
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl ByteIndex :: to_u32
//@@ ret r
//@@ spec
    ensures r == self.at(),
//@@ end
}
//@@ fn core/src/diagnostics/source_file.rs :: impl From for ByteIndex#0 :: from
//@@ name byte_index_from
//@@ sig `pub fn byte_index_from(index: u32) -> (r: ByteIndex)`
//@@ pre `Self` => `ByteIndex`
//@@ spec
    ensures r.at() == index,
//@@ end
impl SourceSpan {
    pub open spec fn s(self) -> int { self.start.at() }
    pub open spec fn e(self) -> int { self.end.at() }
//@@ fn core/src/diagnostics/span.rs :: impl SourceSpan#0 :: from_range_unchecked
//@@ ret r
//@@ pre `ByteIndex::from` => `byte_index_from`
//@@ spec
    requires range.start <= u32::MAX, range.end <= u32::MAX,
    ensures r.s() == range.start, r.e() == range.end, r.source_id == source_id,
//@@ end
//@@ fn core/src/diagnostics/span.rs :: impl SourceSpan#0 :: try_from_range
//@@ ret r
//@@ spec
    ensures match r {
        Ok(x) => x.s() == range.start && x.e() == range.end && x.source_id == source_id,
        Err(_) => range.start > u32::MAX || range.end > u32::MAX,
    },
//@@ end
//@@ fn core/src/diagnostics/span.rs :: impl SourceSpan#0 :: source_id
//@@ ret r
//@@ spec
    ensures r == self.source_id,
//@@ end
//@@ fn core/src/diagnostics/span.rs :: impl SourceSpan#0 :: start
//@@ ret r
//@@ spec
    ensures r.at() == self.s(),
//@@ end
//@@ fn core/src/diagnostics/span.rs :: impl SourceSpan#0 :: end
//@@ ret r
//@@ spec
    ensures r.at() == self.e(),
//@@ end
//@@ fn core/src/diagnostics/span.rs :: impl SourceSpan#0 :: into_slice_index
//@@ ret r
//@@ spec
    requires self.s() <= self.e(),
    ensures r.start == self.s(), r.end == self.e(),
//@@ end
}

// ---------------------------------------------------------------- regex_automata::util::look
#[verifier::external_body]
pub struct LookMatcher { _p: () }
impl Clone for LookMatcher { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl LookMatcher {
    #[verifier::external_body]
    pub fn new() -> LookMatcher { unimplemented!() }
    #[verifier::external_body] // documented behaviour
    pub fn is_end(&self, h: &[u8], at: usize) -> (r: bool) requires at <= h@.len() ensures r == (at == h@.len()) { unimplemented!() }
    #[verifier::external_body] // documented behaviour
    pub fn is_end_lf(&self, h: &[u8], at: usize) -> (r: bool) requires at <= h@.len() ensures r == (at == h@.len() || h@[at as int] == 10) { unimplemented!() }
    #[verifier::external_body] // documented behaviour
    pub fn is_start_lf(&self, h: &[u8], at: usize) -> (r: bool) requires at <= h@.len() ensures r == (at == 0 || h@[at - 1] == 10) { unimplemented!() }
    #[verifier::external_body] // documented behaviour
    pub fn is_end_crlf(&self, h: &[u8], at: usize) -> (r: bool) requires at <= h@.len()
        ensures r == (at == h@.len() || h@[at as int] == 13 || (h@[at as int] == 10 && (at == 0 || h@[at - 1] != 13))) { unimplemented!() }
    #[verifier::external_body] // documented behaviour
    pub fn is_start_crlf(&self, h: &[u8], at: usize) -> (r: bool) requires at <= h@.len()
        ensures r == (at == 0 || h@[at - 1] == 10 || (h@[at - 1] == 13 && (at == h@.len() || h@[at as int] != 10))) { unimplemented!() }
}
/// what a position has to satisfy to be the end of a line / the start of a line
pub open spec fn line_end_at(b: Seq<u8>, crlf: bool, at: int) -> bool {
    if crlf { at == b.len() || b[at] == 13 || (b[at] == 10 && (at == 0 || b[at - 1] != 13)) } else { at == b.len() || b[at] == 10 }
}

// ---------------------------------------------------------------- input
//@@ item filecheck/src/input.rs :: struct Input
//@@ derive Copy, Clone
//@@ end
impl<'a> Input<'a> {
    pub open spec fn b(self) -> Seq<u8> { self.buffer@ }
    pub open spec fn lo(self) -> int { self.span.start as int }
    pub open spec fn hi(self) -> int { self.span.end as int }
    pub open spec fn wf(self) -> bool { 0 <= self.lo() <= self.hi() <= self.b().len() <= u32::MAX }
    /// the same text with another region
    pub open spec fn region(self, o: Self, lo: int, hi: int) -> bool {
        self.source_id == o.source_id && self.buffer == o.buffer && self.anchored == o.anchored && self.crlf == o.crlf && self.lo() == lo && self.hi() == hi
    }
//@@ fn filecheck/src/input.rs :: impl Input#0 :: new
//@@ ret r
//@@ pre `Range::from(0..$n)` => `Range::<usize>::new(0, $n)`
//@@ spec
    ensures r.source_id == source_id, r.buffer == buffer, !r.anchored, r.crlf == crlf, r.lo() == 0, r.hi() == buffer@.len(),
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: anchored
//@@ ret r
//@@ spec
    ensures r.source_id == self.source_id, r.buffer == self.buffer, r.anchored == yes, r.crlf == self.crlf, r.span == self.span,
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: bounded
//@@ ret r
//@@ sub? `RangeBounds<usize>>` => `RangeBounds>`
//@@ pre `range::range_from_bounds` => `range_from_bounds`
//@@ pre `.expect("invalid range")` => `.unwrap()`
//@@ spec
    requires b_ok(range.lo(), range.hi()),
        0 <= b_lo(range.lo(), 0) <= b_hi(range.hi(), self.b().len() as int) <= self.b().len(),
    ensures r.region(self, b_lo(range.lo(), 0), b_hi(range.hi(), self.b().len() as int)),
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: start
//@@ ret r
//@@ spec
    ensures r == self.lo(),
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: end
//@@ ret r
//@@ spec
    ensures r == self.hi(),
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: bounds
//@@ ret r
//@@ spec
    ensures r == self.span,
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: buffer
//@@ ret r
//@@ spec
    ensures r == self.buffer,
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: is_crlf
//@@ ret r
//@@ spec
    ensures r == self.crlf,
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: is_empty
//@@ ret r
//@@ spec
    ensures r == (self.lo() >= self.hi()),
//@@ at entry
    proof { if self.span.start < self.span.end { assert(inr(self.span, self.span.start as int)); } }
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: set_start
//@@ pre `core::cmp::min` => `rt_min`
//@@ spec
    ensures final(self).region(*old(self), if start <= old(self).b().len() { start as int } else { old(self).b().len() as int }, old(self).hi()),
//@@ end
//@@ fn filecheck/src/input.rs :: impl Input#0 :: set_bounds
//@@ pre `core::cmp::min` => `rt_min`
//@@ spec
    ensures final(self).region(*old(self), if range.start <= old(self).b().len() { range.start as int } else { old(self).b().len() as int },
        if range.end <= old(self).b().len() { range.end as int } else { old(self).b().len() as int }),
//@@ end
}

// ---------------------------------------------------------------- cursor
//@@ item filecheck/src/cursor.rs :: struct CursorPosition
//@@ derive Copy, Clone
//@@ end
//@@ item filecheck/src/cursor.rs :: struct Cursor
//@@ end
impl<'a> Clone for Cursor<'a> {
    fn clone(&self) -> (r: Self) ensures r == *self
    { Cursor { source_id: self.source_id, buffer: self.buffer, block: self.block, eol: self.eol, look: self.look.clone(), crlf: self.crlf } }
}
impl<'a> Cursor<'a> {
    pub open spec fn b(self) -> Seq<u8> { self.buffer@ }
    pub open spec fn lo(self) -> int { self.block.start as int }
    pub open spec fn hi(self) -> int { self.block.end as int }
    pub open spec fn wf(self) -> bool {
        0 <= self.lo() <= self.hi() <= self.b().len() <= u32::MAX && self.eol == nl(self.b(), self.crlf, self.lo(), self.hi())
    }
    /// everything but the position
    pub open spec fn same_text(self, o: Self) -> bool { self.source_id == o.source_id && self.buffer == o.buffer && self.look == o.look && self.crlf == o.crlf }
    pub open spec fn at(self, o: Self, lo: int, hi: int) -> bool { self.same_text(o) && self.lo() == lo && self.hi() == hi && self.wf() }

//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: new
//@@ ret r
//@@ pre `newline.offset().try_into().expect($m)` => `rt_u32(newline.offset())`
//@@ pre `Range::new` => `Range::<usize>::new`
//@@ spec
    requires buffer@.len() <= u32::MAX,
    ensures r.wf(), r.lo() == 0, r.hi() == buffer@.len(), r.buffer == buffer, r.source_id == source_id,
        r.crlf == ({ let i = nl(buffer@, false, 0, buffer@.len() as int); 0 < i < buffer@.len() && buffer@[i - 1] == 13 }),
//@@ at before `Self { source_id`
    proof { newline_eol(buffer@, 0, newline); }
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: buffer
//@@ ret r
//@@ spec
    ensures r == self.buffer,
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: is_crlf
//@@ ret r
//@@ spec
    ensures r == self.crlf,
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: is_empty
//@@ ret r
//@@ spec
    ensures r == (self.lo() >= self.hi()),
//@@ at entry
    proof { if self.block.start < self.block.end { assert(inr(self.block, self.block.start as int)); } }
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: position
//@@ ret r
//@@ spec
    ensures r.range == self.block, r.eol == self.eol,
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: range
//@@ ret r
//@@ spec
    ensures r == self.block,
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: start
//@@ ret r
//@@ spec
    ensures r == self.lo(),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: end
//@@ ret r
//@@ spec
    ensures r == self.hi(),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: end_of_file
//@@ ret r
//@@ spec
    ensures r == self.b().len(),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: end_of_line
//@@ ret r
//@@ spec
    ensures r == self.eol,
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: reset
//@@ pre `Range::new` => `Range::<usize>::new`
//@@ spec
    requires old(self).wf(), old(self).crlf == ({ let b = old(self).b(); let i = nl(b, false, 0, b.len() as int); 0 < i < b.len() && b[i - 1] == 13 }),
    ensures final(self).at(*old(self), 0, old(self).b().len() as int),
//@@ at after `let newline = Newline::next(self.buffer);`
    proof { newline_eol(self.b(), 0, newline); }
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: set_start
//@@ pre `core::cmp::min` => `rt_min`
//@@ spec
    requires old(self).wf(),
    ensures final(self).at(*old(self), if start <= old(self).hi() { start as int } else { old(self).hi() }, old(self).hi()),
//@@ at entry
    proof { nl_props(self.b(), self.crlf, self.lo(), self.hi()); }
//@@ at before `match start.cmp`
    let ghost b = self.b();
    let ghost (s, h) = (self.block.start as int, self.block.end as int);
    proof {
        if prev_start <= s <= self.eol { nl_is(b, self.crlf, s, h, self.eol as int); }
        nl_props(b, self.crlf, s, h);
    }
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: move_to
//@@ spec
    requires pos.range.start <= pos.range.end <= old(self).b().len() <= u32::MAX, pos.eol == nl(old(self).b(), old(self).crlf, pos.range.start as int, pos.range.end as int),
    ensures final(self).at(*old(self), pos.range.start as int, pos.range.end as int),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: move_to_end
//@@ spec
    requires old(self).wf(),
    ensures final(self).at(*old(self), old(self).hi(), old(self).hi()),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: set_bounds
//@@ sub? `RangeBounds<usize>` => `RangeBounds`
//@@ pre `range::range_from_bounds` => `range_from_bounds`
//@@ pre `Range::new` => `Range::<usize>::new`
//@@ spec
    requires old(self).wf(), b_ok(range.lo(), range.hi()),
        0 <= b_lo(range.lo(), 0) <= b_hi(range.hi(), old(self).b().len() as int) <= old(self).b().len(),
    ensures final(self).at(*old(self), b_lo(range.lo(), 0), b_hi(range.hi(), old(self).b().len() as int)),
//@@ at after `.unwrap();`
    proof { nl_props(self.b(), self.crlf, self.lo(), self.hi()); }
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: start_of_next_line
//@@ ret r
//@@ spec
    requires self.wf(),
    ensures r == next_line(self.b(), self.lo()) || (r == next_line(self.b(), self.lo()) && r == self.lo()),
        self.lo() <= r <= self.b().len(),
//@@ at entry
    proof { next_line_props(self.b(), self.lo()); }
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: search
//@@ ret r
//@@ spec
    requires self.wf(),
    ensures r.wf(), r.buffer == self.buffer, r.source_id == self.source_id, !r.anchored, r.crlf == self.crlf, r.lo() == 0, r.hi() == self.b().len(),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: search_to_eof
//@@ ret r
//@@ pre `(self.block.start..)` => `(rt_from(self.block.start))`
//@@ spec
    requires self.wf(),
    ensures r.wf(), r.buffer == self.buffer, r.source_id == self.source_id, !r.anchored, r.crlf == self.crlf, r.lo() == self.lo(), r.hi() == self.b().len(),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: search_range
//@@ ret r
//@@ sub? `RangeBounds<usize>>` => `RangeBounds>`
//@@ spec
    requires self.wf(), b_ok(range.lo(), range.hi()),
        0 <= b_lo(range.lo(), 0) <= b_hi(range.hi(), self.b().len() as int) <= self.b().len(),
    ensures r.wf(), r.buffer == self.buffer, r.source_id == self.source_id, !r.anchored, r.crlf == self.crlf,
        r.lo() == b_lo(range.lo(), 0), r.hi() == b_hi(range.hi(), self.b().len() as int),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: search_block
//@@ ret r
//@@ spec
    requires self.wf(),
    ensures r.wf(), r.buffer == self.buffer, r.source_id == self.source_id, !r.anchored, r.crlf == self.crlf, r.lo() == self.lo(), r.hi() == self.hi(),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: search_line
//@@ ret r
//@@ spec
    requires self.wf(),
    ensures r.wf(), r.buffer == self.buffer, r.source_id == self.source_id, !r.anchored, r.crlf == self.crlf, r.lo() == self.lo(), r.hi() == nl(self.b(), self.crlf, self.lo(), self.hi()),
//@@ at entry
    proof { nl_props(self.b(), self.crlf, self.lo(), self.hi()); }
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: is_end_of_line
//@@ ret r
//@@ spec
    requires offset <= self.b().len(),
    ensures r == line_end_at(self.b(), self.crlf, offset as int),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: at_end_of_line
//@@ ret r
//@@ spec
    requires self.wf(),
    ensures r == line_end_at(self.b(), self.crlf, self.lo()),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: is_eof
//@@ ret r
//@@ spec
    requires offset <= self.b().len(),
    ensures r == (offset == self.b().len()),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: at_eof
//@@ ret r
//@@ spec
    requires self.wf(),
    ensures r == (self.lo() == self.b().len()),
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: next_newline
//@@ ret r
//@@ spec
    requires self.wf(),
    ensures match r { Some(i) => i == nl(self.b(), self.crlf, self.lo(), self.hi()) && i < self.hi(), None => nl(self.b(), self.crlf, self.lo(), self.hi()) == self.hi() },
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: next_newline_from
//@@ ret r
//@@ pre `(offset..)` => `(rt_from(offset))`
//@@ spec
    requires self.wf(), offset <= self.b().len(),
    ensures match r { Some(i) => i == nl(self.b(), self.crlf, offset as int, self.b().len() as int) && i < self.b().len(), None => nl(self.b(), self.crlf, offset as int, self.b().len() as int) == self.b().len() },
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: prev_newline_from
//@@ ret r
//@@ pre `(..offset)` => `(rt_to(offset))`
//@@ spec
    requires self.wf(), offset <= self.b().len(),
    ensures match r { Some(i) => is_last_nl(self.b(), self.crlf, 0, offset as int, i as int), None => no_nl(self.b(), self.crlf, 0, offset as int) },
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: next_newline_in_range
//@@ ret r
//@@ sub? `RangeBounds<usize>` => `RangeBounds`
//@@ pre `range::range_from_bounds` => `range_from_bounds`
//@@ pre `text::` => ``
//@@ pre `Range::new` => `Range::<usize>::new`
//@@ spec
    requires self.b().len() <= u32::MAX, b_ok(range.lo(), range.hi()),
        0 <= b_lo(range.lo(), 0) <= b_hi(range.hi(), self.b().len() as int) <= self.b().len(),
    ensures ({
        let (lo, hi) = (b_lo(range.lo(), 0), b_hi(range.hi(), self.b().len() as int));
        match r { Some(i) => i == nl(self.b(), self.crlf, lo, hi) && i < hi, None => nl(self.b(), self.crlf, lo, hi) == hi }
    }),
//@@ at entry
    proof {
        let (lo, hi) = (b_lo(range.lo(), 0), b_hi(range.hi(), self.b().len() as int));
        nl_props(self.b(), self.crlf, lo, hi);
        let (b, crlf) = (self.b(), self.crlf);
        if crlf {
            assert forall|i: int| lo <= i && i + 2 <= hi && #[trigger] crlf_at(b, i) && (forall|j: int| lo <= j < i ==> !crlf_at(b, j)) implies i == nl(b, crlf, lo, hi) by { nl_is(b, crlf, lo, hi, i); }
            if forall|j: int| lo <= j && j + 2 <= hi ==> !crlf_at(b, j) { nl_is(b, crlf, lo, hi, hi); }
        } else {
            assert forall|i: int| lo <= i < hi && #[trigger] lf_at(b, i) && (forall|j: int| lo <= j < i ==> !lf_at(b, j)) implies i == nl(b, crlf, lo, hi) by { nl_is(b, crlf, lo, hi, i); }
            if forall|j: int| lo <= j < hi ==> !lf_at(b, j) { nl_is(b, crlf, lo, hi, hi); }
        }
    }
//@@ end
//@@ fn filecheck/src/cursor.rs :: impl Cursor#0 :: prev_newline_in_range
//@@ ret r
//@@ sub? `RangeBounds<usize>` => `RangeBounds`
//@@ pre `range::range_from_bounds` => `range_from_bounds`
//@@ pre `text::` => ``
//@@ pre `Range::new` => `Range::<usize>::new`
//@@ spec
    requires self.b().len() <= u32::MAX, b_ok(range.lo(), range.hi()),
        0 <= b_lo(range.lo(), 0) <= b_hi(range.hi(), self.b().len() as int) <= self.b().len(),
    ensures ({
        let (lo, hi) = (b_lo(range.lo(), 0), b_hi(range.hi(), self.b().len() as int));
        match r { Some(i) => is_last_nl(self.b(), self.crlf, lo, hi, i as int), None => no_nl(self.b(), self.crlf, lo, hi) }
    }),
//@@ end
}
/// what `Newline` finds is the end of the line in both readings
pub proof fn newline_eol(b: Seq<u8>, lo: int, n: Newline)
    requires 0 <= lo <= b.len(),
        match n.ty {
            LineEnding::None => n.offset == b.len() && forall|i: int| lo <= i ==> !lf_at(b, i),
            _ => exists|i: int| lo <= i && #[trigger] lf_at(b, i) && (forall|j: int| lo <= j < i ==> !lf_at(b, j)) && describes(b, i, n),
        },
    ensures n.ty is Crlf && lo == 0 ==> n.offset == nl(b, true, lo, b.len() as int),
        !(n.ty is Crlf) ==> n.offset == nl(b, false, lo, b.len() as int),
        n.ty is Crlf <==> ({ let i = nl(b, false, lo, b.len() as int); 0 < i < b.len() && b[i - 1] == 13 }),
{
    let h = b.len() as int;
    nl_props(b, false, lo, h);
    if n.ty is None {
        nl_is(b, false, lo, h, h);
    } else {
        let i = choose|i: int| lo <= i && #[trigger] lf_at(b, i) && (forall|j: int| lo <= j < i ==> !lf_at(b, j)) && describes(b, i, n);
        nl_is(b, false, lo, h, i);
        if n.ty is Crlf && lo == 0 {
            assert forall|j: int| lo <= j < i - 1 implies !nl_at(b, true, j, h) by { assert(!lf_at(b, j + 1)); }
            nl_is(b, true, lo, h, i - 1);
        }
    }
}
pub proof fn next_line_props(b: Seq<u8>, pos: int)
    requires 0 <= pos <= b.len()
    ensures pos <= next_line(b, pos) <= b.len(),
        forall|i: int| pos <= i && #[trigger] lf_at(b, i) && (forall|j: int| pos <= j < i ==> !lf_at(b, j)) ==> next_line(b, pos) == i + 1,
        (forall|i: int| pos <= i ==> !lf_at(b, i)) ==> next_line(b, pos) == b.len(),
{
    let h = b.len() as int;
    nl_props(b, false, pos, h);
    assert forall|i: int| pos <= i && #[trigger] lf_at(b, i) && (forall|j: int| pos <= j < i ==> !lf_at(b, j)) implies next_line(b, pos) == i + 1 by { nl_is(b, false, pos, h, i); }
    if forall|i: int| pos <= i ==> !lf_at(b, i) { nl_is(b, false, pos, h, h); }
}
}
fn main() {}
