//@@ include prelude.inc
// ranges of positions, newline search, UTF-8 boundaries
use core::cmp::Ordering;
use core::ops::Bound;
verus! {
//@@ item core/src/range.rs :: struct Range
//@@ end
impl<T: Copy> Copy for Range<T> {}
impl<T: Copy> Clone for Range<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }

// `T` instantiated at usize, the type every caller in the tree uses
//@@ item core/src/range.rs :: macro_rules numeric_bound_impl :: impl NumericRangeBound for type :: const ZERO
//@@ sub `Self` => `usize`
//@@ end
//@@ item core/src/range.rs :: macro_rules numeric_bound_impl :: impl NumericRangeBound for type :: const ONE
//@@ sub `Self` => `usize`
//@@ end

pub open spec fn valid(r: Range<usize>) -> bool { r.start <= r.end }
pub open spec fn inr(r: Range<usize>, i: int) -> bool { r.start <= i < r.end }

//@@ fn core/src/range.rs :: impl Range#0 :: new
//@@ name range_new
//@@ sig `pub fn range_new(start: usize, end: usize) -> (r: Range<usize>)`
//@@ sub `Self` => `Range::<usize>`
//@@ spec
    requires start <= end,
    ensures r.start == start, r.end == end, valid(r),
        forall|i: int| inr(r, i) <==> start <= i < end,
//@@ end

impl Range<usize> {
pub fn new(start: usize, end: usize) -> (r: Range<usize>) requires start <= end ensures r.start == start, r.end == end { range_new(start, end) }

//@@ fn core/src/range.rs :: impl Range#1 :: is_empty
//@@ ret r
//@@ sub `!matches!($e, Some(Ordering::Less))` => `!(match $e { Some(Ordering::Less) => true, _ => false })`
//@@ spec
    ensures r == (forall|i: int| !inr(*self, i)),
//@@ at entry
    proof { if self.start < self.end { assert(inr(*self, self.start as int)); } }
//@@ end

//@@ fn core/src/range.rs :: impl Range#2 :: len
//@@ ret r
//@@ sub `T` => `usize`
//@@ spec
    requires valid(*self),
    ensures r == self.end - self.start,
//@@ end

//@@ fn core/src/range.rs :: impl Range#2 :: pop_front
//@@ ret r
//@@ sub? `<T as NumericRangeBound>::ONE` => `ONE`
//@@ sub? `T::ONE` => `ONE`
//@@ sub `Option<T>` => `Option<usize>`
//@@ spec
    requires valid(*old(self)),
    ensures valid(*final(self)),
        match r {
            None => old(self).start == old(self).end && *final(self) == *old(self),
            Some(x) => x == old(self).start && inr(*old(self), x as int)
                && forall|i: int| inr(*final(self), i) <==> inr(*old(self), i) && i != x,
        },
        final(self).end == old(self).end,
//@@ end

//@@ fn core/src/range.rs :: impl Range#2 :: pop_back
//@@ ret r
//@@ sub? `<T as NumericRangeBound>::ONE` => `ONE`
//@@ sub? `T::ONE` => `ONE`
//@@ sub `Option<T>` => `Option<usize>`
//@@ spec
    requires valid(*old(self)),
    ensures valid(*final(self)),
        match r {
            None => old(self).start == old(self).end && *final(self) == *old(self),
            Some(x) => x == old(self).end - 1 && inr(*old(self), x as int)
                && forall|i: int| inr(*final(self), i) <==> inr(*old(self), i) && i != x,
        },
        final(self).start == old(self).start,
//@@ end

//@@ fn core/src/range.rs :: impl Range#2 :: shrink_front
//@@ sub? `core::cmp::min($a, $b)` => `rt_min($a, $b)`
//@@ sub? `n: T` => `n: usize`
//@@ spec
    requires valid(*old(self)),
    ensures valid(*final(self)), final(self).end == old(self).end,
        final(self).start == if old(self).start + n <= old(self).end { old(self).start + n } else { old(self).end as int },
        forall|i: int| inr(*final(self), i) <==> inr(*old(self), i) && old(self).start + n <= i,
//@@ end

//@@ fn core/src/range.rs :: impl Range#2 :: truncate
//@@ sub? `new_len: T` => `new_len: usize`
//@@ spec
    requires valid(*old(self)), new_len <= old(self).end - old(self).start, // documented panic otherwise
    ensures valid(*final(self)), final(self).start == old(self).start, final(self).end == old(self).start + new_len,
        forall|i: int| inr(*final(self), i) <==> inr(*old(self), i) && i < old(self).start + new_len,
//@@ end
}

// ---------------------------------------------------------------- bounds
pub trait RangeBounds {
    spec fn lo(&self) -> Bound<usize>;
    spec fn hi(&self) -> Bound<usize>;
    fn start_bound(&self) -> (r: Bound<&usize>)
        ensures match (r, self.lo()) { (Bound::Included(a), Bound::Included(b)) => *a == b, (Bound::Excluded(a), Bound::Excluded(b)) => *a == b, (Bound::Unbounded, Bound::Unbounded) => true, _ => false };
    fn end_bound(&self) -> (r: Bound<&usize>)
        ensures match (r, self.hi()) { (Bound::Included(a), Bound::Included(b)) => *a == b, (Bound::Excluded(a), Bound::Excluded(b)) => *a == b, (Bound::Unbounded, Bound::Unbounded) => true, _ => false };
}
// the half-open interval the bounds denote, with defaults for missing ends
pub open spec fn b_lo(b: Bound<usize>, d: int) -> int { match b { Bound::Included(i) => i as int, Bound::Excluded(i) => i + 1, Bound::Unbounded => d } }
pub open spec fn b_hi(b: Bound<usize>, d: int) -> int { match b { Bound::Included(i) => i + 1, Bound::Excluded(i) => i as int, Bound::Unbounded => d } }
pub open spec fn b_ok(lo: Bound<usize>, hi: Bound<usize>) -> bool { b_lo(lo, 0) <= usize::MAX && b_hi(hi, 0) <= usize::MAX }

//@@ fn core/src/range.rs :: range_from_bounds
//@@ ret r
//@@ sub `RangeBounds<usize>>` => `RangeBounds>`
//@@ spec
    requires b_ok(range.lo(), range.hi()), valid(allowed),
    ensures ({
        let (a, b) = (b_lo(range.lo(), allowed.start as int), b_hi(range.hi(), allowed.end as int));
        match r {
            Ok(x) => x.start == a && x.end == b && allowed.start <= a <= b <= allowed.end,
            Err(x) => x.start == a && x.end == b && !(allowed.start <= a <= b <= allowed.end),
        }
    }),
//@@ end

//@@ fn core/src/range.rs :: range_from_bounds_with_defaults
//@@ ret r
//@@ sub `RangeBounds<usize>>` => `RangeBounds>`
//@@ spec
    requires b_ok(range.lo(), range.hi()),
        b_lo(range.lo(), default_start as int) <= b_hi(range.hi(), default_end as int),
    ensures r.start == b_lo(range.lo(), default_start as int), r.end == b_hi(range.hi(), default_end as int),
//@@ end

// ---------------------------------------------------------------- newlines
pub open spec fn lf_at(b: Seq<u8>, i: int) -> bool { 0 <= i < b.len() && b[i] == 10 }
pub open spec fn crlf_at(b: Seq<u8>, i: int) -> bool { 0 <= i && i + 1 < b.len() && b[i] == 13 && b[i + 1] == 10 }

// the memchr crate
#[verifier::external_body] // memchr::memchr / memrchr / memmem: documented behaviour
pub fn memchr(n: u8, h: &[u8]) -> (r: Option<usize>)
    ensures match r { Some(i) => i < h@.len() && h@[i as int] == n && forall|j: int| 0 <= j < i ==> h@[j] != n, None => forall|j: int| 0 <= j < h@.len() ==> h@[j] != n }
{ unimplemented!() }
#[verifier::external_body] // memchr::memrchr
pub fn memrchr(n: u8, h: &[u8]) -> (r: Option<usize>)
    ensures match r { Some(i) => i < h@.len() && h@[i as int] == n && forall|j: int| i < j < h@.len() ==> h@[j] != n, None => forall|j: int| 0 <= j < h@.len() ==> h@[j] != n }
{ unimplemented!() }
pub open spec fn occurs(h: Seq<u8>, i: int, n: Seq<u8>) -> bool { 0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) =~= n }
#[verifier::external_body] // memchr::memmem::find
pub fn memmem_find(h: &[u8], n: &[u8]) -> (r: Option<usize>)
    ensures match r { Some(i) => occurs(h@, i as int, n@) && forall|j: int| 0 <= j < i ==> !occurs(h@, j, n@), None => forall|j: int| !occurs(h@, j, n@) }
{ unimplemented!() }
#[verifier::external_body] // memchr::memmem::rfind
pub fn memmem_rfind(h: &[u8], n: &[u8]) -> (r: Option<usize>)
    ensures match r { Some(i) => occurs(h@, i as int, n@) && forall|j: int| i < j ==> !occurs(h@, j, n@), None => forall|j: int| !occurs(h@, j, n@) }
{ unimplemented!() }
pub fn rt_slice<'a>(b: &'a [u8], r: Range<usize>) -> (s: &'a [u8])
    requires r.start <= r.end <= b@.len()
    ensures s@ == b@.subrange(r.start as int, r.end as int)
{ slice_subrange(b, r.start, r.end) }
pub fn rt_crlf() -> (r: [u8; 2]) ensures r@ =~= seq![13u8, 10u8] { [13u8, 10u8] }
pub proof fn lemma_crlf(b: Seq<u8>, lo: int, hi: int, n: Seq<u8>)
    requires 0 <= lo <= hi <= b.len(), n =~= seq![13u8, 10u8],
    ensures forall|j: int| #[trigger] occurs(b.subrange(lo, hi), j, n) <==> 0 <= j && lo + j + 2 <= hi && crlf_at(b, lo + j),
        forall|i: int| lo <= i && i + 2 <= hi ==> (#[trigger] crlf_at(b, i) <==> occurs(b.subrange(lo, hi), i - lo, n)),
{
    let s = b.subrange(lo, hi);
    assert forall|j: int| #[trigger] occurs(s, j, n) implies 0 <= j && lo + j + 2 <= hi && crlf_at(b, lo + j) by {
        let w = s.subrange(j, j + 2);
        assert(w[0] == s[j] && w[1] == s[j + 1] && w[0] == n[0] && w[1] == n[1]);
    }
    assert forall|j: int| 0 <= j && lo + j + 2 <= hi && crlf_at(b, lo + j) implies #[trigger] occurs(s, j, n) by {
        assert(s.subrange(j, j + 2) =~= n);
    }
    assert forall|i: int| lo <= i && i + 2 <= hi implies (#[trigger] crlf_at(b, i) <==> occurs(s, i - lo, n)) by {
        let j = i - lo;
        assert(crlf_at(b, lo + j) == crlf_at(b, i));
    }
}

//@@ item core/src/text/mod.rs :: enum LineEnding
//@@ derive Copy, Clone
//@@ end
//@@ item core/src/text/mod.rs :: struct Newline
//@@ derive Copy, Clone
//@@ end

// `nl` describes the line terminator whose LF is at `i`
pub open spec fn describes(b: Seq<u8>, i: int, nl: Newline) -> bool {
    if i > 0 && b[i - 1] == 13 { nl.ty is Crlf && nl.offset == i - 1 } else { nl.ty is Lf && nl.offset == i }
}

impl Newline {
//@@ fn core/src/text/mod.rs :: impl Newline :: offset
//@@ ret r
//@@ spec
    ensures r == self.offset,
//@@ end
//@@ fn core/src/text/mod.rs :: impl Newline :: next_line_start
//@@ ret r
//@@ spec
    requires self.offset <= usize::MAX - 2,
    ensures r == self.offset + (match self.ty { LineEnding::Lf => 1int, LineEnding::Crlf => 2, LineEnding::None => 0 }),
//@@ end
//@@ fn core/src/text/mod.rs :: impl Newline :: is_crlf
//@@ ret r
//@@ sub? `matches!(self.ty, LineEnding::Crlf)` => `(match self.ty { LineEnding::Crlf => true, _ => false })`
//@@ spec
    ensures r == self.ty is Crlf,
//@@ end
//@@ fn core/src/text/mod.rs :: impl Newline :: next_from
//@@ ret r
//@@ sub? `memchr::memchr` => `memchr`
//@@ sub? `&buffer[$a..]` => `slice_subrange(buffer, $a, buffer.len())`
//@@ sub? `unsafe { *buffer.get_unchecked($i) }` => `buffer[$i]`
//@@ spec
    requires offset <= buffer@.len(),
    ensures match r.ty {
            LineEnding::None => r.offset == buffer@.len() && forall|i: int| offset <= i ==> !lf_at(buffer@, i),
            _ => exists|i: int| offset <= i && #[trigger] lf_at(buffer@, i) && (forall|j: int| offset <= j < i ==> !lf_at(buffer@, j)) && describes(buffer@, i, r),
        },
//@@ at entry
    proof {
        assert forall|j: int| offset <= j && #[trigger] lf_at(buffer@, j) implies buffer@.subrange(offset as int, buffer@.len() as int)[j - offset] == 10 by { }
    }
//@@ at before `if index > 0`
    proof {
        assert(lf_at(buffer@, index as int));
        assert forall|j: int| offset <= j < index implies !lf_at(buffer@, j) by {
            if lf_at(buffer@, j) { assert(buffer@.subrange(offset as int, buffer@.len() as int)[j - offset] == buffer@[j]); }
        }
    }
//@@ end
//@@ fn core/src/text/mod.rs :: impl Newline :: next
//@@ ret r
//@@ spec
    ensures match r.ty {
            LineEnding::None => r.offset == buffer@.len() && forall|i: int| !lf_at(buffer@, i),
            _ => exists|i: int| #[trigger] lf_at(buffer@, i) && (forall|j: int| j < i ==> !lf_at(buffer@, j)) && describes(buffer@, i, r),
        },
//@@ end
//@@ fn core/src/text/mod.rs :: impl Newline :: prev_from
//@@ ret r
//@@ sub? `memchr::memrchr` => `memrchr`
//@@ sub? `&buffer[..$a]` => `slice_subrange(buffer, 0, $a)`
//@@ sub? `unsafe { *buffer.get_unchecked($i) }` => `buffer[$i]`
//@@ spec
    requires offset <= buffer@.len(),
    ensures match r.ty {
            LineEnding::None => r.offset == 0 && forall|i: int| i < offset ==> !lf_at(buffer@, i),
            _ => exists|i: int| i < offset && #[trigger] lf_at(buffer@, i) && (forall|j: int| i < j < offset ==> !lf_at(buffer@, j)) && describes(buffer@, i, r),
        },
//@@ at entry
    proof {
        assert forall|j: int| j < offset && #[trigger] lf_at(buffer@, j) implies buffer@.subrange(0, offset as int)[j] == 10 by { }
    }
//@@ at before `if index > 0`
    proof {
        assert(lf_at(buffer@, index as int));
        assert forall|j: int| index < j < offset implies !lf_at(buffer@, j) by {
            if lf_at(buffer@, j) { assert(buffer@.subrange(0, offset as int)[j] == buffer@[j]); }
        }
    }
//@@ end
//@@ fn core/src/text/mod.rs :: impl Newline :: prev
//@@ ret r
//@@ spec
    ensures match r.ty {
            LineEnding::None => r.offset == 0 && forall|i: int| !lf_at(buffer@, i),
            _ => exists|i: int| #[trigger] lf_at(buffer@, i) && (forall|j: int| i < j ==> !lf_at(buffer@, j)) && describes(buffer@, i, r),
        },
//@@ end
}

//@@ fn core/src/text/mod.rs :: find_next_lf_or_eof
//@@ ret r
//@@ sub? `memchr::memchr` => `memchr`
//@@ sub? `&buffer[range]` => `rt_slice(buffer, range)`
//@@ sub? `.map(|$i| $e)` => `.map(|$i: usize| -> (q: usize) requires $i < range.end - range.start ensures q == range.start + $i { $e })`
//@@ spec
    requires range.start <= range.end <= buffer@.len(),
    ensures match r {
        Some(i) => range.start <= i < range.end && lf_at(buffer@, i as int) && forall|j: int| range.start <= j < i ==> !lf_at(buffer@, j),
        None => forall|j: int| range.start <= j < range.end ==> !lf_at(buffer@, j),
    },
//@@ at entry
    proof {
        assert forall|j: int| range.start <= j < range.end && #[trigger] lf_at(buffer@, j) implies buffer@.subrange(range.start as int, range.end as int)[j - range.start] == 10 by { }
    }
//@@ end
//@@ fn core/src/text/mod.rs :: find_prev_lf_or_eof
//@@ ret r
//@@ sub? `memchr::memrchr` => `memrchr`
//@@ sub? `&buffer[range]` => `rt_slice(buffer, range)`
//@@ sub? `.map(|$i| $e)` => `.map(|$i: usize| -> (q: usize) requires $i < range.end - range.start ensures q == range.start + $i { $e })`
//@@ spec
    requires range.start <= range.end <= buffer@.len(),
    ensures match r {
        Some(i) => range.start <= i < range.end && lf_at(buffer@, i as int) && forall|j: int| i < j < range.end ==> !lf_at(buffer@, j),
        None => forall|j: int| range.start <= j < range.end ==> !lf_at(buffer@, j),
    },
//@@ at entry
    proof {
        assert forall|j: int| range.start <= j < range.end && #[trigger] lf_at(buffer@, j) implies buffer@.subrange(range.start as int, range.end as int)[j - range.start] == 10 by { }
    }
//@@ end
//@@ fn core/src/text/mod.rs :: find_next_crlf_or_eof
//@@ ret r
//@@ sub? `memchr::memmem::find` => `memmem_find`
//@@ sub? `&buffer[range]` => `rt_slice(buffer, range)`
//@@ sub? `b"\r\n"` => `&rt_crlf()`
//@@ sub? `.map(|$i| $e)` => `.map(|$i: usize| -> (q: usize) requires $i < range.end - range.start ensures q == range.start + $i { $e })`
//@@ spec
    requires range.start <= range.end <= buffer@.len(),
    ensures match r {
        Some(i) => range.start <= i && i + 2 <= range.end && crlf_at(buffer@, i as int) && forall|j: int| range.start <= j < i ==> !crlf_at(buffer@, j),
        None => forall|j: int| range.start <= j && j + 2 <= range.end ==> !crlf_at(buffer@, j),
    },
//@@ at entry
    proof {
        lemma_crlf(buffer@, range.start as int, range.end as int, seq![13u8, 10u8]);
    }
//@@ end
//@@ fn core/src/text/mod.rs :: find_prev_crlf_or_eof
//@@ ret r
//@@ sub? `memchr::memmem::rfind` => `memmem_rfind`
//@@ sub? `&buffer[range]` => `rt_slice(buffer, range)`
//@@ sub? `b"\r\n"` => `&rt_crlf()`
//@@ sub? `.map(|$i| $e)` => `.map(|$i: usize| -> (q: usize) requires $i < range.end - range.start ensures q == range.start + $i { $e })`
//@@ spec
    requires range.start <= range.end <= buffer@.len(),
    ensures match r {
        Some(i) => range.start <= i && i + 2 <= range.end && crlf_at(buffer@, i as int) && forall|j: int| i < j && j + 2 <= range.end ==> !crlf_at(buffer@, j),
        None => forall|j: int| range.start <= j && j + 2 <= range.end ==> !crlf_at(buffer@, j),
    },
//@@ at entry
    proof {
        lemma_crlf(buffer@, range.start as int, range.end as int, seq![13u8, 10u8]);
    }
//@@ end

//@@ fn core/src/text/mod.rs :: is_char_boundary
//@@ ret r
//@@ spec
    // not a continuation byte, or the very end
    ensures r == (offset == buffer@.len() || (offset < buffer@.len() && !(0x80 <= buffer@[offset as int] < 0xC0))),
//@@ end
}
fn main() {}
