//@@ include rules.vrs
// groups of patterns: CHECK-DAG (MatchAll) and CHECK-NOT (MatchAny)
verus! {
// ---------------------------------------------------------------- ordered match results
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
/// by position in the input, failures without a position last
pub open spec fn kcmp(a: MatchResult<'_>, b: MatchResult<'_>) -> Ordering {
    match (a.info, b.info) {
        (None, None) => Ordering::Equal,
        (Some(_), None) => Ordering::Less,
        (None, Some(_)) => Ordering::Greater,
        (Some(x), Some(y)) => then(then(icmp(x.s(), y.s()), icmp(x.e(), y.e())), icmp(x.pattern_span.s(), y.pattern_span.s())),
    }
}
pub fn rt_cmp(a: ByteIndex, b: ByteIndex) -> (r: Ordering) ensures r == icmp(a.at(), b.at()) { if a.0 < b.0 { Ordering::Less } else if a.0 == b.0 { Ordering::Equal } else { Ordering::Greater } }
pub fn rt_then(a: Ordering, b: Ordering) -> (r: Ordering) ensures r == then(a, b) { match a { Ordering::Equal => b, _ => a } }
pub open spec fn sorted(s: Seq<MatchResult<'_>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> kcmp(#[trigger] s[i], #[trigger] s[j]) != Ordering::Greater }
pub open spec fn same_elems(s: Seq<MatchResult<'_>>, t: Seq<MatchResult<'_>>) -> bool {
    s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> t.contains(#[trigger] s[i])) && (forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i]))
}
#[verifier::external_body] // slice::sort_unstable_by
pub fn rt_sort<'i, F: Fn(&MatchResult<'i>, &MatchResult<'i>) -> Ordering>(v: &mut Vec<MatchResult<'i>>, f: F)
    requires forall|a: &MatchResult<'i>, b: &MatchResult<'i>| f.requires((a, b)),
        forall|a: &MatchResult<'i>, b: &MatchResult<'i>, o: Ordering| f.ensures((a, b), o) ==> o == kcmp(*a, *b),
    ensures same_elems(old(v)@, final(v)@), sorted(final(v)@),
{ unimplemented!() }
#[verifier::external_body] // slice::binary_search_by: some index of the slice or its end
pub fn rt_search_index(n: usize) -> (r: usize) ensures r <= n { unimplemented!() }
/// every reported position lies in the input
pub open spec fn placed(s: Seq<MatchResult<'_>>, n: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]).info is Some ==> s[i].info->0.s() <= s[i].info->0.e() <= n)
}
pub open spec fn all_hits(s: Seq<MatchResult<'_>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).hit() }
pub fn rt_first_range(v: &[MatchResult<'_>]) -> (r: Option<Range<usize>>)
    requires placed(v@, u32::MAX as int)
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).info is Some && x.start == v@[i].info->0.s() && x.end == v@[i].info->0.e() && forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).info is None,
        None => forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j]).info is None,
    }
{
    let mut i = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), placed(v@, u32::MAX as int), forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).info is None,
        decreases v@.len() - i
    {
        if let Some(info) = &v[i].info { return Some(info.matched_range()); }
        i += 1;
    }
    None
}
pub fn rt_last_range(v: &[MatchResult<'_>]) -> (r: Option<Range<usize>>)
    requires placed(v@, u32::MAX as int)
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).info is Some && x.start == v@[i].info->0.s() && x.end == v@[i].info->0.e() && forall|j: int| i < j < v@.len() ==> (#[trigger] v@[j]).info is None,
        None => forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j]).info is None,
    }
{
    let mut i = v.len();
    while i > 0
        invariant 0 <= i <= v@.len(), placed(v@, u32::MAX as int), forall|j: int| i <= j < v@.len() ==> (#[trigger] v@[j]).info is None,
        decreases i
    {
        i -= 1;
        if let Some(info) = &v[i].info { return Some(info.matched_range()); }
    }
    None
}
/// those that have a position are in order
pub open spec fn psorted(s: Seq<MatchResult<'_>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).info is Some && (#[trigger] s[j]).info is Some ==> kcmp(s[i], s[j]) != Ordering::Greater }
pub open spec fn fst(s: Seq<MatchResult<'_>>) -> Option<int> decreases s.len() { if s.len() == 0 { None } else if s[0].info is Some { Some(s[0].info->0.s()) } else { fst(s.drop_first()) } }
pub open spec fn lst(s: Seq<MatchResult<'_>>) -> Option<int> decreases s.len() { if s.len() == 0 { None } else if s.last().info is Some { Some(s.last().info->0.e()) } else { lst(s.drop_last()) } }
/// from the start of the first to the end of the last of those that have a position
pub open spec fn mrange(s: Seq<MatchResult<'_>>) -> Option<(int, int)> { match (fst(s), lst(s)) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
pub proof fn fst_is(s: Seq<MatchResult<'_>>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).info is None, i < s.len() ==> s[i].info is Some
    ensures fst(s) == (if i < s.len() { Some(s[i].info->0.s()) } else { None })
    decreases s.len()
{ if i > 0 { let d = s.drop_first(); assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] d[j]).info is None by { assert(s[j + 1].info is None); } assert(s[0].info is None); fst_is(d, i - 1); } }
pub proof fn lst_is(s: Seq<MatchResult<'_>>, i: int)
    requires -1 <= i < s.len(), forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).info is None, i >= 0 ==> s[i].info is Some
    ensures lst(s) == (if i >= 0 { Some(s[i].info->0.e()) } else { None })
    decreases s.len()
{ if i < s.len() - 1 { let d = s.drop_last(); assert(s[s.len() - 1].info is None); assert forall|j: int| i < j < d.len() implies (#[trigger] d[j]).info is None by { assert(s[j].info is None); } lst_is(d, i); } }
pub proof fn extent_mrange(s: Seq<MatchResult<'_>>, r: Option<Range<usize>>)
    requires is_extent(s, r)
    ensures mrange(s) == (match r { Some(x) => Some((x.start as int, x.end as int)), None => None })
{
    match r {
        Some(x) => {
            let (i, k) = choose|i: int, k: int| 0 <= i <= k < s.len() && (#[trigger] s[i]).info is Some && (#[trigger] s[k]).info is Some && x.start == s[i].info->0.s() && x.end == s[k].info->0.e()
                && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).info is None) && (forall|j: int| k < j < s.len() ==> (#[trigger] s[j]).info is None);
            fst_is(s, i); lst_is(s, k);
        }
        None => { fst_is(s, s.len() as int); lst_is(s, -1); }
    }
}
/// where the positions of results that are in order lie
pub proof fn mrange_in(s: Seq<MatchResult<'_>>, n: int)
    requires psorted(s), placed(s, n)
    ensures match mrange(s) { Some((a, b)) => 0 <= a <= b <= n, None => true }
    decreases s.len()
{
    fst_exists(s); lst_exists(s);
    if mrange(s) is Some {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).info is Some && fst(s) == Some(s[i].info->0.s()) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).info is None;
        let k = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).info is Some && lst(s) == Some(s[i].info->0.e());
        assert(i <= k);
    }
}
pub proof fn fst_exists(s: Seq<MatchResult<'_>>)
    ensures fst(s) is Some ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).info is Some && fst(s) == Some(s[i].info->0.s()) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).info is None
    decreases s.len()
{
    if s.len() > 0 {
        if s[0].info is Some { assert(fst(s) == Some(s[0].info->0.s())); }
        else if fst(s) is Some {
            let d = s.drop_first();
            fst_exists(d);
            let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).info is Some && fst(d) == Some(d[i].info->0.s()) && forall|j: int| 0 <= j < i ==> (#[trigger] d[j]).info is None;
            assert(s[i + 1] == d[i]);
            assert forall|j: int| 0 <= j < i + 1 implies (#[trigger] s[j]).info is None by { if j > 0 { assert(d[j - 1].info is None); } }
        }
    }
}
pub proof fn lst_exists(s: Seq<MatchResult<'_>>)
    ensures lst(s) is Some ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).info is Some && lst(s) == Some(s[i].info->0.e())
    decreases s.len()
{
    if s.len() > 0 {
        if s.last().info is Some { assert(s[s.len() - 1].info is Some); }
        else if lst(s) is Some {
            let d = s.drop_last();
            lst_exists(d);
            let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).info is Some && lst(d) == Some(d[i].info->0.e());
            assert(s[i] == d[i]);
        }
    }
}
/// the extent of ordered results: from the start of the first to the end of the last of those that have a position
pub open spec fn is_extent(s: Seq<MatchResult<'_>>, r: Option<Range<usize>>) -> bool {
    match r {
        Some(x) => exists|i: int, k: int| 0 <= i <= k < s.len() && (#[trigger] s[i]).info is Some && (#[trigger] s[k]).info is Some && x.start == s[i].info->0.s() && x.end == s[k].info->0.e()
            && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).info is None) && (forall|j: int| k < j < s.len() ==> (#[trigger] s[j]).info is None),
        None => forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).info is None,
    }
}
impl<'input> Matches<'input> {
    pub open spec fn wf(self, n: int) -> bool { psorted(self.s()) && placed(self.s(), n) }
    pub fn rt_default() -> (r: Self) ensures r.s() == Seq::<MatchResult<'input>>::empty() { Matches(Vec::new()) }
//@@ fn filecheck/src/pattern/matches.rs :: impl Matches#0 :: len
//@@ ret r
//@@ spec
    ensures r == self.s().len(),
//@@ end
//@@ fn filecheck/src/pattern/matches.rs :: impl Matches#0 :: is_ok
//@@ ret r
//@@ pre `self.0.iter().all(|mr| mr.is_ok())` => `{ let mut rt_i = 0; let mut rt_r = true; while rt_r && rt_i < self.0.len() { let mr = &self.0[rt_i]; assert(*mr == self.s()[rt_i as int]); if !mr.is_ok() { rt_r = false; } rt_i += 1; } rt_r }`
//@@ spec
    ensures r == self.ok_s(),
//@@ loop 0
    invariant 0 <= rt_i <= self.0@.len(), rt_r ==> (forall|j: int| 0 <= j < rt_i ==> (#[trigger] self.s()[j]).ok_s()), !rt_r ==> !self.ok_s(),
    decreases self.0@.len() - rt_i,
//@@ end
//@@ fn filecheck/src/pattern/matches.rs :: impl Matches#0 :: push
//@@ pre `self.0.binary_search_by(|probe| $x)` => `rt_found(rt_search_index(self.0.len()))`
//@@ spec
    ensures exists|k: int| 0 <= k <= old(self).s().len() && final(self).s() == old(self).s().insert(k, result),
//@@ at after `self.0.insert(index, result);`
    proof { assert(self.s() == old(self).s().insert(index as int, result)); }
//@@ end
//@@ fn filecheck/src/pattern/matches.rs :: impl Matches#0 :: sort
//@@ pre `use core::cmp::Ordering;` => ``
//@@ pre `self.0.sort_unstable_by(|a, b| $x)` => `rt_sort(&mut self.0, |a: &MatchResult<'input>, b: &MatchResult<'input>| -> (o: Ordering) ensures o == kcmp(*a, *b) { $x })`
//@@ pre `a.span.start().cmp(&b.span.start()).then_with(|| a.span.end().cmp(&b.span.end())).then_with(|| a.pattern_span.start().cmp(&b.pattern_span.start()))` => `rt_then(rt_then(rt_cmp(a.span.start(), b.span.start()), rt_cmp(a.span.end(), b.span.end())), rt_cmp(a.pattern_span.start(), b.pattern_span.start()))`
//@@ spec
    ensures same_elems(old(self).s(), final(self).s()), sorted(final(self).s()),
//@@ end
//@@ fn filecheck/src/pattern/matches.rs :: impl FromIterator for Matches#0 :: from_iter
//@@ sig `pub fn from_iter(iter: Vec<MatchResult<'input>>) -> (r: Self)`
//@@ pre `SmallVec::from_iter(iter)` => `iter`
//@@ spec
    ensures same_elems(iter@, r.s()), sorted(r.s()),
//@@ end
//@@ fn filecheck/src/pattern/matches.rs :: impl Matches#0 :: range
//@@ ret r
//@@ pre! `match self.0.as_slice() { [MatchResult { info: Some(info), ty, },] if $a => $b, [MatchResult { info: Some(info), ty, }, .., MatchResult { info: Some(info2), ty: ty2, },] if $c => Some(Range::new($d, $e,)), matches => matches.iter().find_map(|mr| mr.matched_range()).map(|start_range| { matches.iter().rev().find_map(|mr| { mr.matched_range().map(|r| $f) }).unwrap_or(start_range) }), }` => `{ let matches = self.0.as_slice(); if matches.len() == 1 { if let MatchResult { info: Some(info), ty } = &matches[0] { if $a { let rt_x = $b; proof { extent_mrange(self.s(), rt_x); } return rt_x; } } } if matches.len() >= 2 { if let MatchResult { info: Some(info), ty } = &matches[0] { if let MatchResult { info: Some(info2), ty: ty2 } = &matches[matches.len() - 1] { if $c { let rt_x = Some(Range::<usize>::new($d, $e)); proof { extent_mrange(self.s(), rt_x); } return rt_x; } } } } let rt_x = match rt_first_range(matches) { Some(start_range) => Some(match rt_last_range(matches) { Some(r) => $f, None => start_range }), None => None }; proof { extent_mrange(self.s(), rt_x); } rt_x }`
//@@ pre `Range::new` => `Range::<usize>::new`
//@@ spec
    requires self.wf(u32::MAX as int),
    ensures is_extent(self.s(), r), r is Some ==> r->0.start <= r->0.end,
        mrange(self.s()) == (match r { Some(x) => Some((x.start as int, x.end as int)), None => None }),
//@@ at entry
    proof {
        if self.s().len() > 0 { assert(self.0@[0] == self.s()[0]); assert(self.0@[self.s().len() - 1] == self.s().last()); } }
//@@ end
}
pub fn rt_found(i: usize) -> (r: Result<usize, usize>) ensures r == Ok::<usize, usize>(i) || r == Err::<usize, usize>(i) { Ok(i) }

// ---------------------------------------------------------------- assigning matches to the patterns of a group
/// the regions of the text that no match has taken yet, in order
pub type Free = Seq<(int, int)>;
pub open spec fn fv(f: Seq<Range<usize>>) -> Free { Seq::new(f.len(), |i: int| (f[i].start as int, f[i].end as int)) }
/// the first region, from the k-th on, in which the pattern matches
pub open spec fn first_free(p: Pattern<'_>, b: Seq<u8>, f: Free, k: int) -> Option<int> decreases f.len() - k {
    if k < 0 || k >= f.len() { None } else if pm(p, b, f[k].0, f[k].1) is Some { Some(k) } else { first_free(p, b, f, k + 1) }
}
/// the first match of a pattern in the text not taken yet
pub open spec fn fm(p: Pattern<'_>, b: Seq<u8>, f: Free) -> Option<(int, (int, int))> {
    match first_free(p, b, f, 0) { Some(r) => Some((r, pm(p, b, f[r].0, f[r].1)->0)), None => None }
}
/// what is left of the text when `m`, in the r-th region, is taken
pub open spec fn split(f: Free, r: int, m: (int, int)) -> Free { f.update(r, (f[r].0, m.0)).insert(r + 1, (m.1, f[r].1)) }
/// matches assigned so far: (pattern, start, end)
pub type Asg = Seq<(int, int, int)>;
/// the patterns from the k-th on take, in order, their first match in the text not taken yet
pub open spec fn inorder(ps: Seq<Pattern<'_>>, b: Seq<u8>, k: int, f: Free, acc: Asg) -> Option<Asg> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { Some(acc) } else {
        match fm(ps[k], b, f) { None => None, Some((r, m)) => inorder(ps, b, k + 1, split(f, r, m), acc.push((k, m.0, m.1))) }
    }
}
/// the best candidate among the first `k` pending patterns: the leftmost match, the longest of those
pub open spec fn bestof(ps: Seq<Pattern<'_>>, b: Seq<u8>, f: Free, pending: Seq<int>, k: int) -> Option<(int, (int, int))> decreases k {
    if k <= 0 { None } else {
        let o = bestof(ps, b, f, pending, k - 1);
        match fm(ps[pending[k - 1]], b, f) {
            None => o,
            Some((_, m)) => match o { None => Some((k - 1, m)), Some((_, c)) => if m.0 < c.0 || (m.0 == c.0 && m.1 > c.1) { Some((k - 1, m)) } else { o } },
        }
    }
}
pub proof fn best_in(ps: Seq<Pattern<'_>>, b: Seq<u8>, f: Free, pending: Seq<int>, k: int)
    requires k <= pending.len()
    ensures match bestof(ps, b, f, pending, k) { Some((i, m)) => 0 <= i < k && fm(ps[pending[i]], b, f) is Some && (fm(ps[pending[i]], b, f)->0).1 == m, None => true }
    decreases k
{ if k > 0 { best_in(ps, b, f, pending, k - 1); } }
/// the pending patterns take matches in the order of their position
pub open spec fn bypos(ps: Seq<Pattern<'_>>, b: Seq<u8>, f: Free, pending: Seq<int>, acc: Asg) -> (Asg, Seq<int>) decreases pending.len() {
    match bestof(ps, b, f, pending, pending.len() as int) {
        None => (acc, pending),
        Some((i, m)) => if 0 <= i < pending.len() {
            let r = (fm(ps[pending[i]], b, f)->0).0;
            bypos(ps, b, split(f, r, m), pending.remove(i), acc.push((pending[i], m.0, m.1)))
        } else { (acc, pending) },
    }
}
pub open spec fn iota(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| i) }
/// the matches a group of CHECK-DAG patterns takes in `[lo, hi)`
pub open spec fn dagm(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int) -> Option<Asg> {
    let f = seq![(lo, hi)];
    match inorder(ps, b, 0, f, seq![]) {
        Some(m) => Some(m),
        None => { let (m, left) = bypos(ps, b, f, iota(ps.len() as int), seq![]); if left.len() == 0 { Some(m) } else { None } },
    }
}
// every pattern gets a match of its own, and no two of them overlap
pub open spec fn disjoint(x: (int, int, int), y: (int, int, int)) -> bool { x.2 <= y.1 || y.2 <= x.1 }
pub open spec fn own_match(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int, x: (int, int, int)) -> bool {
    0 <= x.0 < ps.len() && lo <= x.1 <= x.2 <= hi && exists|l: int, h: int| lo <= l <= h <= hi && #[trigger] pm(ps[x.0], b, l, h) == Some((x.1, x.2))
}
pub open spec fn assigned(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int, m: Asg) -> bool {
    &&& forall|i: int| 0 <= i < m.len() ==> own_match(ps, b, lo, hi, #[trigger] m[i])
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> disjoint(#[trigger] m[i], #[trigger] m[j]) && m[i].0 != m[j].0
}
pub open spec fn free_ok(f: Free, lo: int, hi: int, m: Asg) -> bool {
    &&& forall|i: int| 0 <= i < f.len() ==> lo <= (#[trigger] f[i]).0 <= f[i].1 <= hi
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).1 <= (#[trigger] f[j]).0
    &&& forall|i: int, k: int| 0 <= i < f.len() && 0 <= k < m.len() ==> (#[trigger] f[i]).1 <= (#[trigger] m[k]).1 || m[k].2 <= f[i].0
}
pub proof fn first_free_in(p: Pattern<'_>, b: Seq<u8>, f: Free, k: int)
    requires 0 <= k
    ensures match first_free(p, b, f, k) { Some(r) => k <= r < f.len() && pm(p, b, f[r].0, f[r].1) is Some && (forall|j: int| k <= j < r ==> pm(p, b, (#[trigger] f[j]).0, f[j].1) is None),
        None => forall|j: int| k <= j < f.len() ==> pm(p, b, (#[trigger] f[j]).0, f[j].1) is None }
    decreases f.len() - k
{ if k < f.len() && pm(p, b, f[k].0, f[k].1) is None { first_free_in(p, b, f, k + 1); } }
/// taking one more match keeps everything in order
pub proof fn take_ok(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int, f: Free, m: Asg, id: int)
    requires free_ok(f, lo, hi, m), assigned(ps, b, lo, hi, m), 0 <= id < ps.len(), fm(ps[id], b, f) is Some, forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 != id
    ensures ({
        let (r, x) = fm(ps[id], b, f)->0;
        0 <= r < f.len() && f[r].0 <= x.0 <= x.1 <= f[r].1 && free_ok(split(f, r, x), lo, hi, m.push((id, x.0, x.1))) && assigned(ps, b, lo, hi, m.push((id, x.0, x.1)))
    })
{
    first_free_in(ps[id], b, f, 0);
    let (r, x) = fm(ps[id], b, f)->0;
    let g = split(f, r, x);
    let y = (id, x.0, x.1);
    let n = m.push(y);
    assert(g.len() == f.len() + 1);
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] == (if i < r { f[i] } else if i == r { (f[r].0, x.0) } else if i == r + 1 { (x.1, f[r].1) } else { f[i - 1] }) by { }
    assert(own_match(ps, b, lo, hi, y)) by { assert(pm(ps[y.0], b, f[r].0, f[r].1) == Some((y.1, y.2))); }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies disjoint(#[trigger] n[i], #[trigger] n[j]) && n[i].0 != n[j].0 by {
        if j == m.len() { assert(f[r].1 <= m[i].1 || m[i].2 <= f[r].0); }
    }
    assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[i]).1 <= (#[trigger] g[j]).0 by {
        let (a, c) = (if i > r { i - 1 } else { i }, if j > r { j - 1 } else { j });
        if a < c { assert(f[a].1 <= f[c].0); }
    }
    assert forall|i: int, k: int| 0 <= i < g.len() && 0 <= k < n.len() implies (#[trigger] g[i]).1 <= (#[trigger] n[k]).1 || n[k].2 <= g[i].0 by {
        let a = if i > r { i - 1 } else { i };
        if k < m.len() { assert(f[a].1 <= m[k].1 || m[k].2 <= f[a].0); }
        else if a < r { assert(f[a].1 <= f[r].0); } else if a > r { assert(f[r].1 <= f[a].0); }
    }
}
pub open spec fn taken(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int, f: Free, m: Asg) -> bool { 0 <= lo <= hi <= b.len() && free_ok(f, lo, hi, m) && assigned(ps, b, lo, hi, m) }
pub proof fn inorder_valid(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int, k: int, f: Free, acc: Asg)
    requires 0 <= k <= ps.len(), free_ok(f, lo, hi, acc), assigned(ps, b, lo, hi, acc), acc.len() == k, forall|i: int| 0 <= i < acc.len() ==> (#[trigger] acc[i]).0 == i
    ensures match inorder(ps, b, k, f, acc) { Some(m) => m.len() == ps.len() && assigned(ps, b, lo, hi, m), None => true }
    decreases ps.len() - k
{
    if k < ps.len() && fm(ps[k], b, f) is Some {
        take_ok(ps, b, lo, hi, f, acc, k);
        let (r, x) = fm(ps[k], b, f)->0;
        inorder_valid(ps, b, lo, hi, k + 1, split(f, r, x), acc.push((k, x.0, x.1)));
    }
}
/// pending patterns are distinct and have no match yet
pub open spec fn pend_ok(n: int, pending: Seq<int>, acc: Asg) -> bool {
    &&& acc.len() + pending.len() == n
    &&& forall|i: int| 0 <= i < pending.len() ==> 0 <= #[trigger] pending[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < pending.len() ==> #[trigger] pending[i] != #[trigger] pending[j]
    &&& forall|i: int, k: int| 0 <= i < pending.len() && 0 <= k < acc.len() ==> #[trigger] pending[i] != (#[trigger] acc[k]).0
}
pub proof fn pend_step(n: int, pending: Seq<int>, acc: Asg, i: int, s: int, e: int)
    requires pend_ok(n, pending, acc), 0 <= i < pending.len()
    ensures pend_ok(n, pending.remove(i), acc.push((pending[i], s, e)))
{
    let p = pending.remove(i);
    assert forall|j: int| 0 <= j < p.len() implies #[trigger] p[j] == (if j < i { pending[j] } else { pending[j + 1] }) by { }
}
pub proof fn bypos_valid(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int, f: Free, pending: Seq<int>, acc: Asg)
    requires free_ok(f, lo, hi, acc), assigned(ps, b, lo, hi, acc), pend_ok(ps.len() as int, pending, acc)
    ensures ({ let (m, left) = bypos(ps, b, f, pending, acc); m.len() + left.len() == ps.len() && assigned(ps, b, lo, hi, m) })
    decreases pending.len()
{
    best_in(ps, b, f, pending, pending.len() as int);
    if let Some((i, m)) = bestof(ps, b, f, pending, pending.len() as int) {
        take_ok(ps, b, lo, hi, f, acc, pending[i]);
        pend_step(ps.len() as int, pending, acc, i, m.0, m.1);
        let r = (fm(ps[pending[i]], b, f)->0).0;
        bypos_valid(ps, b, lo, hi, split(f, r, m), pending.remove(i), acc.push((pending[i], m.0, m.1)));
    }
}
/// P04: a group succeeds only with a match of its own for every pattern, in the region, without overlap
pub proof fn dag_valid(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int)
    requires lo <= hi
    ensures match dagm(ps, b, lo, hi) { Some(m) => m.len() == ps.len() && assigned(ps, b, lo, hi, m), None => true }
{
    let f = seq![(lo, hi)];
    inorder_valid(ps, b, lo, hi, 0, f, seq![]);
    bypos_valid(ps, b, lo, hi, f, iota(ps.len() as int), seq![]);
}

// ---------------------------------------------------------------- the code
//@@ item filecheck/src/pattern/matcher/matchers/all.rs :: struct MatchAll
//@@ end
pub open spec fn free_in(f: Seq<Range<usize>>, n: int) -> bool { forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).start <= f[i].end <= n }
//@@ fn filecheck/src/pattern/matcher/matchers/all.rs :: try_match_free
//@@ sig `pub fn try_match_free<'input>(pattern: &Pattern<'_>, input: Input<'input>, free: &[Range<usize>], context: &mut Ctx<'input>) -> (r: DiagResult<Result<(usize, MatchInfo<'input>), MatchResult<'input>>>)`
//@@ pre `for (region, range) in free.iter().enumerate() { $X } Ok` => `let mut rt_i = 0; while rt_i < free.len() { let region = rt_i; let range = &free[rt_i]; $X rt_i += 1; } Ok`
//@@ pre `let mut failed = None;` => `let mut failed: Option<MatchResult<'input>> = None;`
//@@ pre `failed.or(Some(result))` => `match failed { Some(rt_f) => Some(rt_f), None => Some(result) }`
//@@ pre `failed.unwrap_or_else(|| { $X })` => `match failed { Some(rt_f) => rt_f, None => { $X } }`
//@@ pre `CheckFailedError::match_none(pattern.span(), $X, context,)` => `rt_match_none($X)`
//@@ spec
    requires input.wf(), free_in(free@, input.b().len() as int),
    ensures *final(context) == *old(context),
        match r {
            Ok(Ok((region, info))) => info.s() <= info.e() <= input.b().len() && fm(*pattern, input.b(), fv(free@)) == Some((region as int, (info.s(), info.e()))),
            Ok(Err(m)) => fm(*pattern, input.b(), fv(free@)) is None && m.rt_bad(input.b().len() as int),
            Err(_) => false,
        },
//@@ loop 0
    invariant 0 <= rt_i <= free@.len(), input.wf(), free_in(free@, input.b().len() as int), *context == *old(context),
        first_free(*pattern, input.b(), fv(free@), 0) == first_free(*pattern, input.b(), fv(free@), rt_i as int),
        failed is Some ==> failed->0.rt_bad(input.b().len() as int),
    decreases free@.len() - rt_i,
//@@ at loop 0 start
    proof { assert(fv(free@)[rt_i as int] == (free@[rt_i as int].start as int, free@[rt_i as int].end as int)); }
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/all.rs :: take
//@@ pre `Range::new` => `Range::<usize>::new`
//@@ spec
    requires region < old(free)@.len(), old(free)@[region as int].start <= range.start <= range.end <= old(free)@[region as int].end,
    ensures final(free)@.len() == old(free)@.len() + 1,
        fv(final(free)@) == split(fv(old(free)@), region as int, (range.start as int, range.end as int)),
//@@ at entry
    let rt_n = free.len();
//@@ at end
    proof { assert(fv(free@) =~= split(fv(old(free)@), region as int, (range.start as int, range.end as int))); }
//@@ end

pub proof fn taken_free(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int, f: Seq<Range<usize>>, m: Asg)
    requires taken(ps, b, lo, hi, fv(f), m)
    ensures free_in(f, b.len() as int)
{ assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).start <= f[i].end <= b.len() by { assert(fv(f)[i] == (f[i].start as int, f[i].end as int)); } }
/// `x` is the match that was assigned as `a`
pub open spec fn is_asg(x: MatchResult<'_>, a: (int, int, int)) -> bool { x.found(a.1, a.2) && x.ty is MatchFoundAndExpected }
pub open spec fn are_asg(s: Seq<MatchResult<'_>>, m: Asg) -> bool { s.len() == m.len() && forall|i: int| 0 <= i < m.len() ==> is_asg(#[trigger] s[i], m[i]) }
/// the result of a group of patterns: exactly the assigned matches, or at least one failure
pub open spec fn dag_res(ms: Matches<'_>, m: Option<Asg>, n: int) -> bool {
    &&& ms.wf(n)
    &&& match m {
        Some(m) => exists|t: Seq<MatchResult<'_>>| #![trigger same_elems(t, ms.s())] are_asg(t, m) && same_elems(t, ms.s()),
        None => !ms.ok_s() && ms.s().len() > 0,
    }
}
/// results sorted from those of an assignment are results of the assignment
pub proof fn asg_res(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int, m: Asg, t: Seq<MatchResult<'_>>, ms: Matches<'_>)
    requires 0 <= lo <= hi <= b.len(), assigned(ps, b, lo, hi, m), are_asg(t, m), same_elems(t, ms.s()), sorted(ms.s())
    ensures dag_res(ms, Some(m), b.len() as int), ms.ok_s()
{
    assert forall|i: int| 0 <= i < ms.s().len() implies (#[trigger] ms.s()[i]).hit() && ms.s()[i].info->0.e() <= b.len() by {
        assert(t.contains(ms.s()[i]));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == ms.s()[i];
        assert(is_asg(t[j], m[j]) && own_match(ps, b, lo, hi, m[j]));
    }
}
pub open spec fn ids(p: Seq<usize>) -> Seq<int> { Seq::new(p.len(), |i: int| p[i] as int) }
#[verifier::external_body] // (0..n).collect()
pub fn rt_iota(n: usize) -> (r: Vec<usize>) ensures ids(r@) == iota(n as int) { (0..n).collect() }
pub fn rt_vec_range(x: Range<usize>) -> (r: Vec<Range<usize>>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); assert(v@ =~= seq![x]); v }
impl<'a> MatchAll<'a> {
    pub open spec fn wf(self) -> bool { self.uses_variables@.len() == self.patterns@.len() && forall|i: int| 0 <= i < self.uses_variables@.len() ==> !#[trigger] self.uses_variables@[i] }
    pub open spec fn ps(self) -> Seq<Pattern<'a>> { self.patterns@ }
//@@ fn filecheck/src/pattern/matcher/matchers/all.rs :: impl MatchAll#0 :: try_match_in_order
//@@ sig `pub fn try_match_in_order<'input>(&self, input: Input<'input>, context: &mut Ctx<'input>) -> (r: DiagResult<Option<Matches<'input>>>)`
//@@ pre `vec![input.bounds()]` => `rt_vec_range(input.bounds())`
//@@ pre `for (id, pattern) in self.patterns.iter().enumerate() { $X } Ok` => `let mut rt_i = 0; while rt_i < self.patterns.len() { let id = rt_i; let pattern = &self.patterns[rt_i]; let ghost rt_free0 = free@; $X rt_i += 1; } Ok`
//@@ pre `Ok(Some(Matches::from_iter(matched)))` => `Ok({ let ghost rt_t = matched@; let rt_m = Matches::from_iter(matched); proof { asg_res(self.ps(), b, lo, hi, acc, rt_t, rt_m); } Some(rt_m) })`
//@@ spec
    requires input.wf(), self.wf(),
    ensures *final(context) == *old(context), r is Ok,
        match r->Ok_0 {
            Some(ms) => { let m = inorder(self.ps(), input.b(), 0, seq![(input.lo(), input.hi())], seq![]); m is Some && dag_res(ms, m, input.b().len() as int) },
            None => inorder(self.ps(), input.b(), 0, seq![(input.lo(), input.hi())], seq![]) is None,
        },
//@@ at entry
    let ghost mut acc: Asg = seq![];
    let ghost (lo, hi) = (input.lo(), input.hi());
    let ghost b = input.b();
//@@ loop 0
    invariant 0 <= rt_i <= self.patterns@.len(), input.wf(), self.wf(), *context == *old(context),
        lo == input.lo(), hi == input.hi(), b == input.b(),
        inorder(self.ps(), b, 0, seq![(lo, hi)], seq![]) == inorder(self.ps(), b, rt_i as int, fv(free@), acc),
        taken(self.ps(), b, lo, hi, fv(free@), acc), acc.len() == rt_i, are_asg(matched@, acc),
        forall|i: int| 0 <= i < acc.len() ==> (#[trigger] acc[i]).0 == i,
    decreases self.patterns@.len() - rt_i,
//@@ at before `while rt_i`
    proof { assert(fv(free@) =~= seq![(lo, hi)]); }
//@@ at loop 0 start
    proof { taken_free(self.ps(), b, lo, hi, free@, acc); }
//@@ at before `take(`
    proof { take_ok(self.ps(), b, lo, hi, fv(free@), acc, rt_i as int); }
//@@ at after `matched.push($X);`
    proof { let m = fm(self.ps()[rt_i as int], b, fv(rt_free0)).unwrap().1; acc = acc.push((rt_i as int, m.0, m.1)); }
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/all.rs :: impl MatchAll#0 :: try_match_by_position
//@@ sig `pub fn try_match_by_position<'input>(&self, input: Input<'input>, context: &mut Ctx<'input>) -> (r: DiagResult<Matches<'input>>)`
//@@ pre `vec![input.bounds()]` => `rt_vec_range(input.bounds())`
//@@ pre `(0..self.patterns.len()).collect::<Vec<usize>>()` => `rt_iota(self.patterns.len())`
//@@ pre `for (index, &id) in pending.iter().enumerate() { $X } let Some` => `let mut rt_i = 0; while rt_i < pending.len() { let index = rt_i; let id = pending[rt_i]; rt_i += 1; $X } let Some`
//@@ pre `for id in pending { $X } Ok(Matches::from_iter(matched))` => `let mut rt_k = 0; while rt_k < pending.len() { let id = pending[rt_k]; rt_k += 1; $X } Ok({ let ghost rt_t = matched@; let rt_m = Matches::from_iter(matched); proof { bad_res(self.ps(), b, lo, hi, acc, rt_t, rt_m); } rt_m })`
//@@ pre `best.is_none_or(|(_, best)| { $X })` => `(match best { None => true, Some((_, best)) => { $X } })`
//@@ pre `let id = pending.remove(index);` => `let ghost rt_p0 = pending@; let id = pending.remove(index); let ghost rt_free0 = free@;`
//@@ spec
    requires input.wf(), self.wf(),
    ensures *final(context) == *old(context), r is Ok, ({
        let (m, left) = bypos(self.ps(), input.b(), seq![(input.lo(), input.hi())], iota(self.ps().len() as int), seq![]);
        dag_res(r->Ok_0, if left.len() == 0 { Some(m) } else { None::<Asg> }, input.b().len() as int) && (left.len() == 0 <==> r->Ok_0.ok_s())
    }),
//@@ at entry
    let ghost mut acc: Asg = seq![];
    let ghost (lo, hi) = (input.lo(), input.hi());
    let ghost b = input.b();
//@@ at before `loop`
    proof { assert(fv(free@) =~= seq![(lo, hi)]); assert(ids(pending@).len() == self.ps().len()); }
//@@ loop 0
    invariant_except_break 
        bypos(self.ps(), b, fv(free@), ids(pending@), acc) == bypos(self.ps(), b, seq![(lo, hi)], iota(self.ps().len() as int), seq![]),
    invariant input.wf(), self.wf(), *context == *old(context), lo == input.lo(), hi == input.hi(), b == input.b(),
        taken(self.ps(), b, lo, hi, fv(free@), acc), are_asg(matched@, acc), pend_ok(self.ps().len() as int, ids(pending@), acc),
    ensures bypos(self.ps(), b, seq![(lo, hi)], iota(self.ps().len() as int), seq![]) == (acc, ids(pending@)),
        forall|j: int| 0 <= j < pending@.len() ==> fm(self.ps()[#[trigger] pending@[j] as int], b, fv(free@)) is None,
    decreases pending@.len(),
//@@ at loop 0 start
    proof { taken_free(self.ps(), b, lo, hi, free@, acc); }
//@@ loop 1
    invariant 0 <= rt_i <= pending@.len(), input.wf(), self.wf(), *context == *old(context), b == input.b(), free_in(free@, b.len() as int),
        pend_ok(self.ps().len() as int, ids(pending@), acc),
        match best {
            Some((index, range)) => bestof(self.ps(), b, fv(free@), ids(pending@), rt_i as int) == Some((index as int, (range.start as int, range.end as int))),
            None => bestof(self.ps(), b, fv(free@), ids(pending@), rt_i as int) is None,
        },
        best is None ==> forall|j: int| 0 <= j < rt_i ==> fm(self.ps()[#[trigger] pending@[j] as int], b, fv(free@)) is None,
    decreases pending@.len() - rt_i,
//@@ at loop 1 start
    proof { assert(ids(pending@)[rt_i as int] == pending@[rt_i as int] as int); }
//@@ at before `let Some`
    proof { best_in(self.ps(), b, fv(free@), ids(pending@), pending@.len() as int); }
//@@ at before `take(`
    proof {
        assert(ids(rt_p0)[index as int] == id as int);
        take_ok(self.ps(), b, lo, hi, fv(free@), acc, id as int);
        let m = (fm(self.ps()[id as int], b, fv(free@))->0).1;
        pend_step(self.ps().len() as int, ids(rt_p0), acc, index as int, m.0, m.1);
        assert(ids(rt_p0).remove(index as int) =~= ids(pending@));
    }
//@@ at after `matched.push(MatchResult::ok($X));`
    proof { let m = (fm(self.ps()[id as int], b, fv(rt_free0))->0).1; acc = acc.push((id as int, m.0, m.1)); }
//@@ at after `let mut rt_k = 0;`
    proof { taken_free(self.ps(), b, lo, hi, free@, acc); }
//@@ loop 2
    invariant 0 <= rt_k <= pending@.len(), input.wf(), self.wf(), *context == *old(context), lo == input.lo(), hi == input.hi(), b == input.b(), free_in(free@, b.len() as int),
        taken(self.ps(), b, lo, hi, fv(free@), acc), pend_ok(self.ps().len() as int, ids(pending@), acc),
        forall|j: int| 0 <= j < pending@.len() ==> fm(self.ps()[#[trigger] pending@[j] as int], b, fv(free@)) is None,
        asg_or_bad(matched@, acc, b.len() as int), matched@.len() == acc.len() + rt_k,
    decreases pending@.len() - rt_k,
//@@ at loop 2 start
    proof { assert(ids(pending@)[rt_k as int] == pending@[rt_k as int] as int); }
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/all.rs :: impl MatchAll#0 :: try_match_all
//@@ sig `pub fn try_match_all<'input>(&self, input: Input<'input>, context: &mut Ctx<'input>) -> (r: DiagResult<Matches<'input>>)`
//@@ pre `guard.save();` => `*context = guard;`
//@@ pre `drop(guard);` => ``
//@@ spec
    requires input.wf(), self.wf(),
    ensures *final(context) == *old(context), r is Ok,
        dag_res(r->Ok_0, dagm(self.ps(), input.b(), input.lo(), input.hi()), input.b().len() as int),
        r->Ok_0.ok_s() <==> dagm(self.ps(), input.b(), input.lo(), input.hi()) is Some,
//@@ at before `return Ok(matches)`
    proof {
        dag_valid(self.ps(), input.b(), input.lo(), input.hi());
        let m = dagm(self.ps(), input.b(), input.lo(), input.hi())->0;
        let t = choose|t: Seq<MatchResult<'_>>| #![trigger same_elems(t, matches.s())] are_asg(t, m) && same_elems(t, matches.s());
        asg_res(self.ps(), input.b(), input.lo(), input.hi(), m, t, matches);
    }
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/all.rs :: impl MatchAll#0 :: pattern_len
//@@ ret r
//@@ spec
    ensures r == self.ps().len(),
//@@ end
}
/// the matches of an assignment, then failures
pub open spec fn asg_or_bad(s: Seq<MatchResult<'_>>, m: Asg, n: int) -> bool {
    &&& m.len() <= s.len()
    &&& forall|i: int| 0 <= i < m.len() ==> is_asg(#[trigger] s[i], m[i])
    &&& forall|i: int| m.len() <= i < s.len() ==> (#[trigger] s[i]).rt_bad(n)
}
pub proof fn bad_res(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int, m: Asg, t: Seq<MatchResult<'_>>, ms: Matches<'_>)
    requires 0 <= lo <= hi <= b.len(), assigned(ps, b, lo, hi, m), asg_or_bad(t, m, b.len() as int), same_elems(t, ms.s()), sorted(ms.s())
    ensures dag_res(ms, if t.len() == m.len() { Some(m) } else { None::<Asg> }, b.len() as int), t.len() == m.len() <==> ms.ok_s()
{
    if t.len() == m.len() { asg_res(ps, b, lo, hi, m, t, ms); }
    else {
        assert(ms.s().contains(t[m.len() as int]));
        let j = choose|j: int| 0 <= j < ms.s().len() && ms.s()[j] == t[m.len() as int];
        assert(!ms.s()[j].ok_s());
        assert forall|i: int| 0 <= i < ms.s().len() implies ((#[trigger] ms.s()[i]).info is Some ==> ms.s()[i].info->0.s() <= ms.s()[i].info->0.e() <= b.len()) by {
            assert(t.contains(ms.s()[i]));
            let j = choose|j: int| 0 <= j < t.len() && t[j] == ms.s()[i];
            if j < m.len() { assert(is_asg(t[j], m[j]) && own_match(ps, b, lo, hi, m[j])); }
        }
    }
}

// ---------------------------------------------------------------- CHECK-NOT
//@@ item filecheck/src/pattern/matcher/matchers/any.rs :: struct MatchAny
//@@ end
/// none of the patterns matches in the region
pub open spec fn none_match(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int) -> bool { forall|i: int| 0 <= i < ps.len() ==> pm(#[trigger] ps[i], b, lo, hi) is None }
#[verifier::external_body]
pub fn rt_first_span(patterns: &Vec<Pattern<'_>>) -> SourceSpan { unimplemented!() }
impl<'a> MatchAny<'a> {
    pub open spec fn ps(self) -> Seq<Pattern<'a>> { self.patterns@ }
//@@ fn filecheck/src/pattern/matcher/matchers/any.rs :: impl From for MatchAny#0 :: from
//@@ ret r
//@@ spec
    ensures r.ps() == match_all.ps(),
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/any.rs :: impl MatchAny#0 :: pattern_len
//@@ ret r
//@@ spec
    ensures r == self.ps().len(),
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/any.rs :: impl MatchAny#0 :: first_pattern_span
//@@ ret r
//@@ pre `first_pattern_span(&self.patterns)` => `rt_first_span(&self.patterns)`
//@@ spec
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/any.rs :: impl MatcherMut for MatchAny#0 :: try_match_mut
//@@ sig `pub fn try_match_mut<'input>(&self, input: Input<'input>, context: &mut Ctx<'input>) -> (r: DiagResult<MatchResult<'input>>)`
//@@ pre `for (id, pattern) in self.patterns.iter().enumerate() { $X } Ok` => `let mut rt_i = 0; while rt_i < self.patterns.len() { let id = rt_i; let pattern = &self.patterns[rt_i]; rt_i += 1; $X } Ok`
//@@ pre `CheckFailedError::match_none(self.first_pattern_span(), $X, context,)` => `rt_match_none($X)`
//@@ spec
    requires input.wf(),
    ensures *final(context) == *old(context), r is Ok,
        none_match(self.ps(), input.b(), input.lo(), input.hi()) <==> !r->Ok_0.ok_s(),
        r->Ok_0.ok_s() ==> r->Ok_0.info is Some && input.lo() <= r->Ok_0.info->0.s() <= r->Ok_0.info->0.e() <= input.hi(),
//@@ loop 0
    invariant 0 <= rt_i <= self.patterns@.len(), input.wf(), *context == *old(context),
        forall|i: int| 0 <= i < rt_i ==> pm(#[trigger] self.ps()[i], input.b(), input.lo(), input.hi()) is None,
    decreases self.patterns@.len() - rt_i,
//@@ end
}

// ---------------------------------------------------------------- CHECK-DAG
//@@ item filecheck/src/rules/dag.rs :: struct CheckDag
//@@ end
/// where the first of the matches starts, and where the last of them ends
pub open spec fn min_s(m: Asg) -> int decreases m.len() { if m.len() == 0 { 0 } else if m.len() == 1 { m[0].1 } else { let x = min_s(m.drop_last()); if m.last().1 < x { m.last().1 } else { x } } }
pub open spec fn max_e(m: Asg) -> int decreases m.len() { if m.len() == 0 { 0 } else if m.len() == 1 { m[0].2 } else { let x = max_e(m.drop_last()); if m.last().2 > x { m.last().2 } else { x } } }
/// The region a group of CHECK-DAG matches in
pub open spec fn dsem(ps: Seq<Pattern<'_>>, b: Seq<u8>, pos: int, end: int) -> Option<(int, int)> {
    match dagm(ps, b, pos, end) { Some(m) => Some((min_s(m), max_e(m))), None => None }
}
pub proof fn min_s_is(m: Asg)
    requires m.len() > 0
    ensures exists|i: int| 0 <= i < m.len() && min_s(m) == (#[trigger] m[i]).1, forall|i: int| 0 <= i < m.len() ==> min_s(m) <= (#[trigger] m[i]).1
    decreases m.len()
{
    if m.len() > 1 {
        let d = m.drop_last();
        min_s_is(d);
        let i = choose|i: int| 0 <= i < d.len() && min_s(d) == (#[trigger] d[i]).1;
        assert(m[i] == d[i]);
        assert(m[m.len() - 1] == m.last());
        assert forall|i: int| 0 <= i < m.len() implies min_s(m) <= (#[trigger] m[i]).1 by { if i < d.len() { assert(m[i] == d[i]); } }
    } else { assert(m[0].1 == min_s(m)); }
}
pub proof fn max_e_is(m: Asg)
    requires m.len() > 0
    ensures exists|i: int| 0 <= i < m.len() && max_e(m) == (#[trigger] m[i]).2, forall|i: int| 0 <= i < m.len() ==> max_e(m) >= (#[trigger] m[i]).2
    decreases m.len()
{
    if m.len() > 1 {
        let d = m.drop_last();
        max_e_is(d);
        let i = choose|i: int| 0 <= i < d.len() && max_e(d) == (#[trigger] d[i]).2;
        assert(m[i] == d[i]);
        assert(m[m.len() - 1] == m.last());
        assert forall|i: int| 0 <= i < m.len() implies max_e(m) >= (#[trigger] m[i]).2 by { if i < d.len() { assert(m[i] == d[i]); } }
    } else { assert(m[0].2 == max_e(m)); }
}
pub proof fn dsem_in(ps: Seq<Pattern<'_>>, b: Seq<u8>, pos: int, end: int)
    requires pos <= end, ps.len() > 0
    ensures match dsem(ps, b, pos, end) { Some((s, e)) => pos <= s <= e <= end, None => true }
{
    dag_valid(ps, b, pos, end);
    if let Some(m) = dagm(ps, b, pos, end) {
        min_s_is(m); max_e_is(m);
        assert(own_match(ps, b, pos, end, m[0]));
        let i = choose|i: int| 0 <= i < m.len() && min_s(m) == (#[trigger] m[i]).1;
        let j = choose|i: int| 0 <= i < m.len() && max_e(m) == (#[trigger] m[i]).2;
        assert(own_match(ps, b, pos, end, m[i]) && own_match(ps, b, pos, end, m[j]));
    }
}
/// the largest end of the results that have a position
pub open spec fn is_max_end(s: Seq<MatchResult<'_>>, x: int) -> bool {
    (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).info is Some && s[i].info->0.e() == x) && (forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).info is Some ==> s[i].info->0.e() <= x)
}
#[verifier::spinoff_prover]
pub proof fn dag_range(ps: Seq<Pattern<'_>>, b: Seq<u8>, lo: int, hi: int, m: Asg, t: Seq<MatchResult<'_>>, s: Seq<MatchResult<'_>>)
    requires m.len() > 0, assigned(ps, b, lo, hi, m), are_asg(t, m), same_elems(t, s), psorted(s)
    ensures mrange(s) == Some((min_s(m), max_e(m)))
{
    let n = s.len() as int;
    assert forall|i: int| #![trigger s[i]] 0 <= i < n implies exists|p: int| 0 <= p < m.len() && t[p] == s[i] && #[trigger] is_asg(s[i], m[p]) by {
        assert(t.contains(s[i]));
        let p = choose|p: int| 0 <= p < t.len() && t[p] == s[i];
        assert(is_asg(t[p], m[p]));
    }
    let k = n - 1;
    let p0 = choose|p: int| 0 <= p < m.len() && t[p] == s[0] && #[trigger] is_asg(s[0], m[p]);
    let pk = choose|p: int| 0 <= p < m.len() && t[p] == s[k] && #[trigger] is_asg(s[k], m[p]);
    fst_is(s, 0); lst_is(s, k);
    min_s_is(m); max_e_is(m);
    let i = choose|i: int| 0 <= i < m.len() && min_s(m) == (#[trigger] m[i]).1;
    assert(is_asg(t[i], m[i]) && s.contains(t[i]));
    let x = choose|x: int| 0 <= x < n && s[x] == t[i];
    if x > 0 { assert(kcmp(s[0], s[x]) != Ordering::Greater); }
    assert(m[p0].1 >= min_s(m));
    let j = choose|j: int| 0 <= j < m.len() && max_e(m) == (#[trigger] m[j]).2;
    assert(is_asg(t[j], m[j]) && s.contains(t[j]));
    let y = choose|y: int| 0 <= y < n && s[y] == t[j];
    if y < k {
        assert(kcmp(s[y], s[k]) != Ordering::Greater);
        if j != pk { if j < pk { assert(disjoint(m[j], m[pk])); } else { assert(disjoint(m[pk], m[j])); } assert(own_match(ps, b, lo, hi, m[j]) && own_match(ps, b, lo, hi, m[pk])); }
    }
    assert(max_e(m) >= m[pk].2);
}
pub fn rt_max_end(ms: &Matches<'_>) -> (r: Option<usize>)
    requires ms.wf(u32::MAX as int)
    ensures match r {
        Some(x) => is_max_end(ms.s(), x as int),
        None => forall|i: int| 0 <= i < ms.s().len() ==> (#[trigger] ms.s()[i]).info is None,
    }
{
    let mut r: Option<usize> = None;
    let mut i = 0;
    while i < ms.0.len()
        invariant 0 <= i <= ms.s().len(), ms.wf(u32::MAX as int), match r {
            Some(x) => (exists|j: int| 0 <= j < i && (#[trigger] ms.s()[j]).info is Some && ms.s()[j].info->0.e() == x) && forall|j: int| 0 <= j < i && (#[trigger] ms.s()[j]).info is Some ==> ms.s()[j].info->0.e() <= x,
            None => forall|j: int| 0 <= j < i ==> (#[trigger] ms.s()[j]).info is None,
        }
        decreases ms.s().len() - i
    {
        assert(ms.0@[i as int] == ms.s()[i as int]);
        if let Some(range) = ms.0[i].matched_range() {
            r = match r { Some(x) => Some(rt_max(x, range.end)), None => Some(range.end) };
        }
        i += 1;
    }
    r
}
/// the largest end of the results is that of the assignment
pub proof fn max_of(m: Asg, t: Seq<MatchResult<'_>>, s: Seq<MatchResult<'_>>, x: int)
    requires m.len() > 0, are_asg(t, m), same_elems(t, s),
        is_max_end(s, x),
    ensures x == max_e(m)
{
    max_e_is(m);
    let i = choose|i: int| 0 <= i < m.len() && max_e(m) == (#[trigger] m[i]).2;
    assert(is_asg(t[i], m[i]) && s.contains(t[i]));
    let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i];
    assert(s[k].info->0.e() == max_e(m));
    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).info is Some && s[j].info->0.e() == x;
    assert(t.contains(s[j]));
    let l = choose|l: int| 0 <= l < t.len() && t[l] == s[j];
    assert(is_asg(t[l], m[l]) && max_e(m) >= m[l].2);
}
impl<'a> CheckDag<'a> {
    pub open spec fn wf(self) -> bool { self.patterns.wf() && self.ps().len() > 0 }
    pub open spec fn ps(self) -> Seq<Pattern<'a>> { self.patterns.ps() }
//@@ fn filecheck/src/rules/dag.rs :: impl CheckDag#0 :: new
//@@ ret r
//@@ spec
    ensures r.patterns == patterns,
//@@ end
//@@ fn filecheck/src/rules/dag.rs :: impl Rule for CheckDag#0 :: apply
//@@ sig `pub fn apply<'input>(&self, context: &mut Ctx<'input>) -> (r: DiagResult<Matches<'input>>)`
//@@ pre `guard.save();` => `*context = guard;`
//@@ pre `matches.iter().filter_map(|result| result.matched_range()).map(|range| range.end).max()` => `rt_max_end(&matches)`
//@@ spec
    requires old(context).wf(), self.wf(),
    ensures r is Ok, r->Ok_0.wf(old(context).b().len() as int), r->Ok_0.s().len() > 0,
        match dsem(self.ps(), old(context).b(), old(context).pos(), old(context).end()) {
            Some((s, e)) => dag_res(r->Ok_0, dagm(self.ps(), old(context).b(), old(context).pos(), old(context).end()), old(context).b().len() as int)
                && r->Ok_0.ok_s() && mrange(r->Ok_0.s()) == Some((s, e)) && final(context).at(*old(context), e),
            None => !r->Ok_0.ok_s() && *final(context) == *old(context),
        },
//@@ at before `if matches.is_ok()`
    proof {
        let (ps, b, lo, hi) = (self.ps(), old(context).b(), old(context).pos(), old(context).end());
        dag_valid(ps, b, lo, hi);
        if let Some(m) = dagm(ps, b, lo, hi) {
            let t = choose|t: Seq<MatchResult<'_>>| #![trigger same_elems(t, matches.s())] are_asg(t, m) && same_elems(t, matches.s());
            assert(t.contains(t[0]) && is_asg(t[0], m[0]));
            assert(matches.s().contains(t[0]));
            dsem_in(ps, b, lo, hi);
            dag_range(ps, b, lo, hi, m, t, matches.s());
            assert forall|x: int| #[trigger] is_max_end(matches.s(), x) implies x == max_e(m) by { max_of(m, t, matches.s(), x); }
        }
    }
//@@ end
}
}
fn main() {}
