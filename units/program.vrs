//@@ include check.vrs
// how the directives of a check file become groups, sections and label regions
verus! {
// ---------------------------------------------------------------- a double-ended queue and a peekable iterator, over Vec
pub struct VecDeque<T>(pub Vec<T>);
impl<T> VecDeque<T> {
    pub open spec fn view(self) -> Seq<T> { self.0@ }
    pub fn default() -> (r: Self) ensures r@ == Seq::<T>::empty() { VecDeque(Vec::new()) }
    pub fn from(v: Vec<T>) -> (r: Self) ensures r@ == v@ { VecDeque(v) }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.0.len() == 0 }
    pub fn front(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { if self.0.len() > 0 { Some(&self.0[0]) } else { None } }
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { if self.0.len() > 0 { let r = Some(self.0.remove(0)); proof { assert(self@ =~= old(self)@.drop_first()); } r } else { None } }
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { self.0.insert(0, x); proof { assert(self@ =~= seq![x] + old(self)@); } }
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.0.push(x); }
}
pub struct RtPeek<T>(pub Vec<T>);
impl<T> RtPeek<T> {
    pub open spec fn view(self) -> Seq<T> { self.0@ }
    pub fn new(v: Vec<T>) -> (r: Self) ensures r@ == v@ { RtPeek(v) }
    pub fn peek(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { if self.0.len() > 0 { Some(&self.0[0]) } else { None } }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { if self.0.len() > 0 { let r = Some(self.0.remove(0)); proof { assert(self@ =~= old(self)@.drop_first()); } r } else { None } }
}

// ---------------------------------------------------------------- lines of a check file
//@@ item filecheck/src/ast/directive.rs :: enum Check
//@@ derive Copy, Clone
//@@ end
#[verifier::external_body]
pub struct Config { _p: () }
#[verifier::external_body]
pub struct Modifiers { _p: () }
#[verifier::external_body]
pub struct CheckPattern<'a> { _p: &'a () }
#[verifier::external_body]
pub struct Comment<'a> { _p: &'a () }
pub struct CheckType { pub span: SourceSpan, pub kind: Check, pub modifiers: Modifiers }
pub struct CheckLine<'a> { pub span: SourceSpan, pub comment: Comment<'a>, pub ty: CheckType, pub pattern: CheckPattern<'a> }
pub uninterp spec fn literal(m: Modifiers) -> bool;
/// the pattern defines and uses no variables
pub uninterp spec fn novars(p: CheckPattern<'_>) -> bool;
/// what a pattern is compiled to: as it is, of a {LITERAL} directive, of a label
pub uninterp spec fn cp<'a>(p: CheckPattern<'a>) -> Pattern<'a>;
pub uninterp spec fn cpl<'a>(p: CheckPattern<'a>) -> Pattern<'a>;
pub uninterp spec fn cps<'a>(p: CheckPattern<'a>) -> Pattern<'a>;
impl<'a> Pattern<'a> {
    #[verifier::external_body] // the compilation of a pattern is a function of the pattern
    pub fn compile(pattern: CheckPattern<'a>, config: &Config) -> (r: DiagResult<Pattern<'a>>) ensures r is Ok ==> r->Ok_0 == cp(pattern) { unimplemented!() }
    #[verifier::external_body]
    pub fn compile_literal(pattern: CheckPattern<'a>, config: &Config) -> (r: DiagResult<Pattern<'a>>) ensures r is Ok ==> r->Ok_0 == cpl(pattern) { unimplemented!() }
    #[verifier::external_body]
    pub fn compile_static(span: SourceSpan, pattern: CheckPattern<'a>, config: &Config) -> (r: DiagResult<Pattern<'a>>) ensures r is Ok ==> r->Ok_0 == cps(pattern) { unimplemented!() }
}
impl<'a> CheckPattern<'a> {
    #[verifier::external_body] // `CheckPattern::Empty(_)`, that of CHECK-EMPTY
    pub fn rt_is_empty(&self) -> bool { unimplemented!() }
    #[verifier::external_body] // `self.locate_variables().next().is_some()`
    pub fn rt_uses_variables(&self) -> (r: bool) ensures r == !novars(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn rt_report() -> Report { unimplemented!() }
impl CheckType {
    #[verifier::external_body] // `self.modifiers.contains(CheckModifier::LITERAL)`
    pub fn is_literal_match(&self) -> (r: bool) ensures r == literal(self.modifiers) { unimplemented!() }
}
impl<'a> CheckLine<'a> {
    pub open spec fn k(self) -> Check { self.ty.kind }
    pub fn span(&self) -> (r: SourceSpan) ensures r == self.span { self.span }
//@@ fn filecheck/src/ast/file.rs :: impl CheckLine#0 :: kind
//@@ ret r
//@@ spec
    ensures r == self.k(),
//@@ end
}
/// the directives that may stand in a region: COUNT repeats at least once, COM is no directive
pub open spec fn line_ok(l: CheckLine<'_>) -> bool { novars(l.pattern) && match l.k() { Check::None | Check::Comment | Check::Label => false, Check::Count(n) => n > 0, _ => true } }
pub open spec fn lines_ok(ls: Seq<CheckLine<'_>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> line_ok(#[trigger] ls[i]) }
pub open spec fn lcp<'a>(l: CheckLine<'a>) -> Pattern<'a> { if literal(l.ty.modifiers) { cpl(l.pattern) } else { cp(l.pattern) } }
pub open spec fn cpq<'a>(ls: Seq<CheckLine<'a>>) -> Seq<Pattern<'a>> { Seq::new(ls.len(), |i: int| cp(ls[i].pattern)) }

// ---------------------------------------------------------------- what a list of directives asks of a region
pub open spec fn rof<'a>(k: Check, p: Pattern<'a>) -> R<'a> { match k { Check::Same => R::Same(p), Check::Next => R::Next(p), Check::Empty => R::Empty, _ => R::Plain(p) } }
pub open spec fn lrule<'a>(l: CheckLine<'a>) -> R<'a> { rof(l.k(), lcp(l)) }
/// the end of the run of CHECK-DAGs that starts at `k`
pub open spec fn dag_end(ls: Seq<CheckLine<'_>>, k: int) -> int decreases ls.len() - k { if 0 <= k < ls.len() && ls[k].k() is Dag { dag_end(ls, k + 1) } else { k } }
pub proof fn dag_end_in(ls: Seq<CheckLine<'_>>, k: int)
    requires 0 <= k <= ls.len()
    ensures k <= dag_end(ls, k) <= ls.len(), k < ls.len() && ls[k].k() is Dag ==> k < dag_end(ls, k), dag_end(ls, k) < ls.len() ==> !(ls[dag_end(ls, k)].k() is Dag), forall|i: int| k <= i < dag_end(ls, k) ==> (#[trigger] ls[i]).k() is Dag
    decreases ls.len() - k
{ if k < ls.len() && ls[k].k() is Dag { dag_end_in(ls, k + 1); } }
pub proof fn dag_end_is(ls: Seq<CheckLine<'_>>, k: int, m: int)
    requires 0 <= k <= m <= ls.len(), forall|i: int| k <= i < m ==> (#[trigger] ls[i]).k() is Dag, m == ls.len() || !(ls[m].k() is Dag)
    ensures dag_end(ls, k) == m
    decreases m - k
{ if k < m { assert(ls[k].k() is Dag); dag_end_is(ls, k + 1, m); } }
/// where the directive at `k` is done
pub open spec fn step_to(ls: Seq<CheckLine<'_>>, k: int) -> int { if ls[k].k() is Dag { dag_end(ls, k) } else { k + 1 } }
/// the match of the directive, or run of CHECK-DAGs, at `k`: where it starts and where it ends
pub open spec fn step_sem(ls: Seq<CheckLine<'_>>, b: Seq<u8>, k: int, pos: int, end: int) -> Option<(int, int)> {
    match ls[k].k() {
        Check::Dag => dsem(cpq(ls.subrange(k, dag_end(ls, k))), b, pos, end),
        Check::Count(n) => gseq(rep(R::Plain(lcp(ls[k])), n as int), b, pos, end),
        _ => rsem(lrule(ls[k]), b, pos, end),
    }
}
/// The directives from `k` on, after `pos`: each matches after the match of the one before it, and what CHECK-NOT
/// names (`nots`, of the directives just before `k`) does not match between the two, or up to the end of the region.
pub open spec fn bsem(ls: Seq<CheckLine<'_>>, b: Seq<u8>, k: int, nots: Seq<Pattern<'_>>, pos: int, end: int) -> Option<int>
    decreases ls.len() - k
    via bsem_down
{
    if k < 0 || k >= ls.len() { if none_match(nots, b, pos, end) { Some(pos) } else { None } }
    else if ls[k].k() is Not { bsem(ls, b, k + 1, nots.push(cp(ls[k].pattern)), pos, end) }
    else { match step_sem(ls, b, k, pos, end) { None => None, Some((s, e)) => if none_match(nots, b, pos, s) { bsem(ls, b, step_to(ls, k), seq![], e, end) } else { None } } }
}
#[via_fn]
proof fn bsem_down(ls: Seq<CheckLine<'_>>, b: Seq<u8>, k: int, nots: Seq<Pattern<'_>>, pos: int, end: int) { if 0 <= k < ls.len() { dag_end_in(ls, k); } }
pub open spec fn no<'a>() -> Seq<Pattern<'a>> { Seq::<Pattern<'a>>::empty() }

// ---------------------------------------------------------------- groups of the directives
/// the group stands for the directives from `k` to `m`
pub open spec fn covers(g: CheckGroup<'_>, ls: Seq<CheckLine<'_>>, k: int, m: int) -> bool {
    forall|b: Seq<u8>, nots: Seq<Pattern<'_>>, pos: int, end: int| #[trigger] bsem(ls, b, k, nots, pos, end) == after(gsem(g, b, pos, end), ls, b, m, nots, pos, end)
}
pub open spec fn after(x: Option<(int, int)>, ls: Seq<CheckLine<'_>>, b: Seq<u8>, m: int, nots: Seq<Pattern<'_>>, pos: int, end: int) -> Option<int> {
    match x { None => None, Some((s, e)) => if none_match(nots, b, pos, s) { bsem(ls, b, m, no(), e, end) } else { None } }
}
pub type Pend<'a> = Option<(Option<Box<CheckTree<'a>>>, MatchAny<'a>)>;
/// the groups formed so far, the tree that waits for its right side, and the directives that are left
pub open spec fn st(gs: Seq<CheckGroup<'_>>, pend: Pend<'_>, ls: Seq<CheckLine<'_>>, b: Seq<u8>, k: int, pos: int, end: int) -> Option<int> {
    match gsq(gs, b, 0, pos, end) {
        None => None,
        Some(x) => match pend {
            None => bsem(ls, b, k, no(), x, end),
            Some((None, root)) => bsem(ls, b, k, root.ps(), x, end),
            Some((Some(left), root)) => match tsem(*left, b, x, end) { None => None, Some((_, e)) => bsem(ls, b, k, root.ps(), e, end) },
        },
    }
}
pub open spec fn pend_wf(pend: Pend<'_>, ls: Seq<CheckLine<'_>>, k: int) -> bool {
    match pend { None => true, Some((l, root)) => k < ls.len() && !(ls[k].k() is Not) && (match l { Some(t) => twf(*t), None => true }) }
}
pub open spec fn keeps(gs: Seq<CheckGroup<'_>>, pend: Pend<'_>, ls: Seq<CheckLine<'_>>, k: int) -> bool {
    &&& 0 <= k <= ls.len() && gs_wf(gs) && pend_wf(pend, ls, k)
    &&& forall|b: Seq<u8>, pos: int, end: int| #[trigger] st(gs, pend, ls, b, k, pos, end) == bsem(ls, b, 0, no(), pos, end)
}
/// the groups ask for what the directives do
pub open spec fn equiv(gs: Seq<CheckGroup<'_>>, ls: Seq<CheckLine<'_>>) -> bool {
    forall|b: Seq<u8>, pos: int, end: int| #[trigger] gsq(gs, b, 0, pos, end) == bsem(ls, b, 0, no(), pos, end)
}
pub proof fn gsq_push(gs: Seq<CheckGroup<'_>>, g: CheckGroup<'_>, b: Seq<u8>, k: int, pos: int, end: int)
    requires 0 <= k <= gs.len()
    ensures gsq(gs.push(g), b, k, pos, end) == (match gsq(gs, b, k, pos, end) { None => None, Some(x) => match gsem(g, b, x, end) { None => None, Some((_, e)) => Some(e) } })
    decreases gs.len() - k
{
    let h = gs.push(g);
    if k < gs.len() { assert(h[k] == gs[k]); if let Some((_, e)) = gsem(gs[k], b, pos, end) { gsq_push(gs, g, b, k + 1, e, end); } }
    else { assert(h[k] == g); if let Some((_, e)) = gsem(g, b, pos, end) { assert(gsq(h, b, k + 1, e, end) == Some(e)); } }
}
pub open spec fn tree_of<'a>(x: CheckGroup<'a>) -> CheckTree<'a> { *(x->Tree_0) }
/// `x` is the group `g`, with the waiting tree around it
pub open spec fn is_wrap(x: CheckGroup<'_>, pend: Pend<'_>, g: CheckGroup<'_>) -> bool {
    match pend {
        None => x == g,
        Some((None, rt)) => x is Tree && (match tree_of(x) { CheckTree::MatchAfter { root, right } => root == rt && *right == CheckTree::MatchAll(g), _ => false }),
        Some((Some(lf), rt)) => x is Tree && (match tree_of(x) { CheckTree::MatchAround { root, left, right } => root == rt && left == lf && *right == CheckTree::MatchAll(g), _ => false }),
    }
}
pub proof fn push_group(gs: Seq<CheckGroup<'_>>, pend: Pend<'_>, ls: Seq<CheckLine<'_>>, k: int, m: int, g: CheckGroup<'_>, gs1: Seq<CheckGroup<'_>>)
    requires keeps(gs, pend, ls, k), covers(g, ls, k, m), k <= m <= ls.len(), gwf(g), !(g is Never), gs1.len() == gs.len() + 1, gs1 == gs.push(gs1.last()), is_wrap(gs1.last(), pend, g),
    ensures keeps(gs1, None, ls, m)
{
    hide(gsq); hide(bsem); hide(none_match);
    let x = gs1.last();
    reveal_with_fuel(gwf, 3); reveal_with_fuel(twf, 3);
    assert(gwf(x));
    assert forall|i: int| 0 <= i < gs1.len() implies gwf(#[trigger] gs1[i]) by { if i < gs.len() { assert(gs1[i] == gs[i]); } }
    assert forall|b: Seq<u8>, pos: int, end: int| #[trigger] st(gs1, None, ls, b, m, pos, end) == bsem(ls, b, 0, no(), pos, end) by {
        assert(st(gs, pend, ls, b, k, pos, end) == bsem(ls, b, 0, no(), pos, end));
        gsq_push(gs, x, b, 0, pos, end);
        if let Some(p) = gsq(gs, b, 0, pos, end) {
            reveal_with_fuel(gsem, 3); reveal_with_fuel(tsem, 3);
            match pend {
                None => { assert(bsem(ls, b, k, no(), p, end) == after(gsem(g, b, p, end), ls, b, m, no(), p, end)); none_none(b); }
                Some((None, root)) => { assert(bsem(ls, b, k, root.ps(), p, end) == after(gsem(g, b, p, end), ls, b, m, root.ps(), p, end)); }
                Some((Some(left), root)) => { if let Some((_, e)) = tsem(*left, b, p, end) { assert(bsem(ls, b, k, root.ps(), e, end) == after(gsem(g, b, e, end), ls, b, m, root.ps(), e, end)); } }
            }
        }
    }
}
pub proof fn none_none(b: Seq<u8>) ensures forall|lo: int, hi: int| none_match(no(), b, lo, hi) { }

// ---------------------------------------------------------------- groups of kinds of directives
/// CHECK, CHECK-SAME, CHECK-NEXT, CHECK-EMPTY
pub open spec fn single(l: CheckLine<'_>) -> bool { !(l.k() is Not) && !(l.k() is Dag) && !(l.k() is Count) }
pub proof fn bsem_singles(ls: Seq<CheckLine<'_>>, k: int, m: int, rs: Seq<R<'_>>, b: Seq<u8>, i: int, pos: int, end: int)
    requires 0 <= k <= m <= ls.len(), rs.len() == m - k, forall|j: int| 0 <= j < m - k ==> single(#[trigger] ls[k + j]) && rs[j] == lrule(ls[k + j]), 0 <= i <= m - k
    ensures bsem(ls, b, k + i, no(), pos, end) == (match oseq(rs, b, i, pos, end) { None => None, Some(e) => bsem(ls, b, m, no(), e, end) })
    decreases m - k - i
{
    none_none(b);
    if i < m - k {
        let l = ls[k + i];
        assert(single(l) && rs[i] == lrule(l));
        assert(step_sem(ls, b, k + i, pos, end) == rsem(rs[i], b, pos, end));
        if let Some((_, e)) = rsem(rs[i], b, pos, end) { bsem_singles(ls, k, m, rs, b, i + 1, e, end); assert(k + (i + 1) == step_to(ls, k + i)); }
    }
}
pub proof fn covers_ordered(ls: Seq<CheckLine<'_>>, k: int, m: int, g: CheckGroup<'_>)
    requires 0 <= k < m <= ls.len(), g is Ordered, srules(g).len() == m - k, forall|j: int| 0 <= j < m - k ==> single(#[trigger] ls[k + j]) && srules(g)[j] == lrule(ls[k + j])
    ensures covers(g, ls, k, m), gwf(g)
{
    let rs = srules(g);
    assert(single(ls[k + 0]));
    assert forall|b: Seq<u8>, nots: Seq<Pattern<'_>>, pos: int, end: int| #[trigger] bsem(ls, b, k, nots, pos, end) == after(gsem(g, b, pos, end), ls, b, m, nots, pos, end) by {
        assert(step_sem(ls, b, k, pos, end) == rsem(rs[0], b, pos, end));
        if let Some((s, e)) = rsem(rs[0], b, pos, end) { bsem_singles(ls, k, m, rs, b, 1, e, end); assert(oseq(rs, b, 0, pos, end) == oseq(rs, b, 1, e, end)); }
    }
}
pub proof fn covers_count(ls: Seq<CheckLine<'_>>, k: int, g: CheckGroup<'_>)
    requires 0 <= k < ls.len(), g is Repeated, ls[k].k() is Count, g->count == ls[k].k()->Count_0, g->count > 0, g->rule.sem() == R::Plain(lcp(ls[k]))
    ensures covers(g, ls, k, k + 1), gwf(g)
{
    assert forall|b: Seq<u8>, nots: Seq<Pattern<'_>>, pos: int, end: int| #[trigger] bsem(ls, b, k, nots, pos, end) == after(gsem(g, b, pos, end), ls, b, k + 1, nots, pos, end) by { }
}
pub proof fn covers_dag(ls: Seq<CheckLine<'_>>, k: int, m: int, g: CheckGroup<'_>)
    requires 0 <= k < m <= ls.len(), g is Unordered, g->Unordered_0.wf(), ls[k].k() is Dag, dag_end(ls, k) == m, g->Unordered_0.ps() == cpq(ls.subrange(k, m))
    ensures covers(g, ls, k, m), gwf(g)
{
    assert forall|b: Seq<u8>, nots: Seq<Pattern<'_>>, pos: int, end: int| #[trigger] bsem(ls, b, k, nots, pos, end) == after(gsem(g, b, pos, end), ls, b, m, nots, pos, end) by { }
}
pub proof fn covers_bounded(ls: Seq<CheckLine<'_>>, k: int, m: int, n: int, g: CheckGroup<'_>)
    requires 0 <= k < m <= n <= ls.len(), g is Bounded, g->left.wf(), ls[k].k() is Dag, dag_end(ls, k) == m, g->left.ps() == cpq(ls.subrange(k, m)),
        simple(bnd_r(g)), srules(bnd_r(g)).len() > 0, forall|i: int| 0 <= i < srules(bnd_r(g)).len() ==> (#[trigger] srules(bnd_r(g))[i]) is Plain, covers(bnd_r(g), ls, m, n)
    ensures covers(g, ls, k, n), gwf(g)
{
    let r = bnd_r(g);
    assert forall|b: Seq<u8>, nots: Seq<Pattern<'_>>, pos: int, end: int| #[trigger] bsem(ls, b, k, nots, pos, end) == after(gsem(g, b, pos, end), ls, b, n, nots, pos, end) by {
        none_none(b);
        if let Some((s, e)) = dsem(g->left.ps(), b, pos, end) { assert(bsem(ls, b, m, no(), e, end) == after(gsem(r, b, e, end), ls, b, n, no(), e, end)); }
    }
}
/// a run of CHECK-NOTs
pub proof fn bsem_nots(ls: Seq<CheckLine<'_>>, k: int, m: int, b: Seq<u8>, nots: Seq<Pattern<'_>>, pos: int, end: int)
    requires 0 <= k <= m <= ls.len(), forall|i: int| k <= i < m ==> (#[trigger] ls[i]).k() is Not
    ensures bsem(ls, b, k, nots, pos, end) == bsem(ls, b, m, nots + cpq(ls.subrange(k, m)), pos, end)
    decreases m - k
{
    let q = cpq(ls.subrange(k, m));
    if k < m {
        assert(ls[k].k() is Not);
        let n1 = nots.push(cp(ls[k].pattern));
        bsem_nots(ls, k + 1, m, b, n1, pos, end);
        assert(n1 + cpq(ls.subrange(k + 1, m)) =~= nots + q);
    } else { assert(nots + q =~= nots); }
}
/// the tree a CHECK-NOT is put behind
pub open spec fn is_left(g: CheckGroup<'_>, left: CheckTree<'_>) -> bool { (g is Tree && tree_of(g) == left) || (g is Unordered && left == CheckTree::MatchAll(g)) }
pub open spec fn not_last(gs: Seq<CheckGroup<'_>>, gs1: Seq<CheckGroup<'_>>, root: MatchAny<'_>) -> bool {
    gs1.len() > 0 && ({ let x = gs1.last();
        ||| gs1 == gs.push(x) && x is Never && *(x->Never_0) == root
        ||| gs.len() > 0 && gs1 == gs.drop_last().push(x) && x is Tree && (match tree_of(x) { CheckTree::MatchBefore { root: rt, left } => rt == root && is_left(gs.last(), *left), _ => false })
    })
}
pub open spec fn not_pend(gs: Seq<CheckGroup<'_>>, gs1: Seq<CheckGroup<'_>>, pend: Pend<'_>, root: MatchAny<'_>) -> bool {
    match pend {
        None => false,
        Some((None, rt)) => gs1 == gs && rt == root,
        Some((Some(left), rt)) => rt == root && gs.len() > 0 && gs1 == gs.drop_last() && is_left(gs.last(), *left),
    }
}
pub proof fn left_sem(g: CheckGroup<'_>, left: CheckTree<'_>)
    requires gwf(g), is_left(g, left)
    ensures twf(left), forall|b: Seq<u8>, pos: int, end: int| #[trigger] tsem(left, b, pos, end) == gsem(g, b, pos, end)
{ reveal_with_fuel(gwf, 3); reveal_with_fuel(twf, 3); reveal_with_fuel(gsem, 3); reveal_with_fuel(tsem, 3); }
pub proof fn not_ends(gs: Seq<CheckGroup<'_>>, ls: Seq<CheckLine<'_>>, k: int, gs1: Seq<CheckGroup<'_>>, root: MatchAny<'_>)
    requires keeps(gs, None, ls, k), not_last(gs, gs1, root), root.ps() == cpq(ls.subrange(k, ls.len() as int)), forall|i: int| k <= i < ls.len() ==> (#[trigger] ls[i]).k() is Not
    ensures keeps(gs1, None, ls, ls.len() as int)
{
    let x = gs1.last();
    let n = ls.len() as int;
    let d = gs.drop_last();
    if !(x is Never) { assert(gwf(gs.last())); left_sem(gs.last(), *(tree_of(x)->MatchBefore_left)); assert(gs =~= d.push(gs.last())); }
    reveal_with_fuel(gwf, 3); reveal_with_fuel(twf, 3);
    assert(gwf(x));
    assert forall|i: int| 0 <= i < gs1.len() implies gwf(#[trigger] gs1[i]) by { if i < gs1.len() - 1 { assert(gs1[i] == gs[i]); } }
    assert forall|b: Seq<u8>, pos: int, end: int| #[trigger] st(gs1, None, ls, b, n, pos, end) == bsem(ls, b, 0, no(), pos, end) by {
        assert(st(gs, None, ls, b, k, pos, end) == bsem(ls, b, 0, no(), pos, end));
        none_none(b);
        if x is Never { gsq_push(gs, x, b, 0, pos, end); } else { gsq_push(d, x, b, 0, pos, end); gsq_push(d, gs.last(), b, 0, pos, end); }
        if let Some(p) = gsq(gs, b, 0, pos, end) { bsem_nots(ls, k, n, b, no(), p, end); assert(no() + root.ps() =~= root.ps()); }
        reveal_with_fuel(gsem, 3); reveal_with_fuel(tsem, 3);
    }
}
pub proof fn not_waits(gs: Seq<CheckGroup<'_>>, ls: Seq<CheckLine<'_>>, k: int, m: int, gs1: Seq<CheckGroup<'_>>, pend: Pend<'_>, root: MatchAny<'_>)
    requires keeps(gs, None, ls, k), k <= m < ls.len(), not_pend(gs, gs1, pend, root), root.ps() == cpq(ls.subrange(k, m)), forall|i: int| k <= i < m ==> (#[trigger] ls[i]).k() is Not, !(ls[m].k() is Not)
    ensures keeps(gs1, pend, ls, m)
{
    let d = gs.drop_last();
    let l = (pend->Some_0).0;
    if l is Some { assert(gwf(gs.last())); left_sem(gs.last(), *(l->Some_0)); assert(gs =~= d.push(gs.last())); }
    assert forall|i: int| 0 <= i < gs1.len() implies gwf(#[trigger] gs1[i]) by { assert(gs1[i] == gs[i]); }
    assert forall|b: Seq<u8>, pos: int, end: int| #[trigger] st(gs1, pend, ls, b, m, pos, end) == bsem(ls, b, 0, no(), pos, end) by {
        assert(st(gs, None, ls, b, k, pos, end) == bsem(ls, b, 0, no(), pos, end));
        if l is Some { gsq_push(d, gs.last(), b, 0, pos, end); }
        if let Some(p) = gsq(gs, b, 0, pos, end) { bsem_nots(ls, k, m, b, no(), p, end); assert(no() + root.ps() =~= root.ps()); }
    }
}

pub proof fn keeps_start(ls: Seq<CheckLine<'_>>)
    ensures keeps(Seq::<CheckGroup<'_>>::empty(), None, ls, 0)
{ }
pub proof fn waits_ok(gs: Seq<CheckGroup<'_>>, pend: Pend<'_>, ls: Seq<CheckLine<'_>>, k: int)
    requires keeps(gs, pend, ls, k)
    ensures gs_wf(gs), pend is Some ==> k < ls.len() && !(ls[k].k() is Not)
{ }
pub proof fn keeps_end(gs: Seq<CheckGroup<'_>>, ls: Seq<CheckLine<'_>>)
    requires keeps(gs, None, ls, ls.len() as int)
    ensures gs_wf(gs), equiv(gs, ls)
{
    none_none(seq![]);
    assert forall|b: Seq<u8>, pos: int, end: int| #[trigger] gsq(gs, b, 0, pos, end) == bsem(ls, b, 0, no(), pos, end) by { none_none(b); assert(st(gs, None, ls, b, ls.len() as int, pos, end) == bsem(ls, b, 0, no(), pos, end)); }
}
pub fn rt_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { let mut x = Vec::new(); let n = v.len(); x.append(v); proof { assert(x@ =~= old(v)@); } x }
pub type Blk<'a> = (Option<CheckLine<'a>>, Vec<CheckLine<'a>>);
/// the directives before the first label, or from a label to the next
pub open spec fn blk_ok(x: Blk<'_>, j: int) -> bool { lines_ok(x.1@) && match x.0 { Some(l) => l.k() is Label, None => j == 0 && x.1@.len() > 0 } }
pub open spec fn blks_ok(bs: Seq<Blk<'_>>) -> bool { forall|j: int| 0 <= j < bs.len() ==> blk_ok(#[trigger] bs[j], j) }
pub open spec fn bo(bs: Seq<Blk<'_>>) -> int { if bs.len() > 0 && bs[0].0 is None { 1 } else { 0 } }
pub open spec fn is_section(s: CheckSection<'_>, x: Blk<'_>) -> bool { s is Block && s->Block_label == cps((x.0->Some_0).pattern) && equiv(s->Block_body@, x.1@) }
/// the sections of the first `n` blocks
pub open spec fn compiled(ss: Seq<CheckSection<'_>>, g: int, bs: Seq<Blk<'_>>, n: int) -> bool {
    let o = if n == 0 { 0 } else { bo(bs) };
    &&& secs_wf(ss, g) && 0 <= n <= bs.len() && ss.len() == g + (n - o) && (o == 0 ==> g == 0)
    &&& o == 1 ==> equiv(grps(ss.take(g)), bs[0].1@)
    &&& forall|j: int| bo(bs) <= j < n ==> is_section(#[trigger] ss[g + (j - bo(bs))], bs[j])
}
/// a directive that those which depend on a match can follow
pub open spec fn anchors(l: CheckLine<'_>) -> bool { l.k() is Label || l.k() is Plain || l.k() is Count || l.k() is Dag }
/// the lines of a block
pub open spec fn one<'a>(x: Blk<'a>) -> Seq<CheckLine<'a>> { (match x.0 { Some(l) => seq![l], None => seq![] }) + x.1@ }
pub open spec fn flat<'a>(bs: Seq<Blk<'a>>) -> Seq<CheckLine<'a>> decreases bs.len() { if bs.len() == 0 { seq![] } else { flat(bs.drop_last()) + one(bs.last()) } }
/// the lines, divided before every label
pub open spec fn is_split(bs: Seq<Blk<'_>>, ls: Seq<CheckLine<'_>>) -> bool { blks_ok(bs) && flat(bs) == ls }
pub open spec fn file_ok(ls: Seq<CheckLine<'_>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).k() is Label || line_ok(ls[i]) }
/// the sections are those of the lines
pub open spec fn made(ss: Seq<CheckSection<'_>>, ls: Seq<CheckLine<'_>>) -> bool { exists|g: int, bs: Seq<Blk<'_>>| is_split(bs, ls) && #[trigger] compiled(ss, g, bs, bs.len() as int) }
pub open spec fn cur<'a>(label: Option<CheckLine<'a>>, block: Seq<CheckLine<'a>>) -> Seq<CheckLine<'a>> { (match label { Some(l) => seq![l], None => seq![] }) + block }
/// the lines, divided up to the current block
pub open spec fn splits(ls: Seq<CheckLine<'_>>, bs: Seq<Blk<'_>>, label: Option<CheckLine<'_>>, block: Seq<CheckLine<'_>>, rest: Seq<CheckLine<'_>>) -> bool {
    &&& blks_ok(bs) && flat(bs) + cur(label, block) + rest == ls && lines_ok(block)
    &&& (match label { Some(l) => l.k() is Label, None => bs.len() == 0 })
}
pub proof fn flat_empty(bs: Seq<Blk<'_>>) requires bs.len() == 0 ensures flat(bs) == Seq::<CheckLine<'_>>::empty(), blks_ok(bs) { }
pub proof fn rest_ok(ls: Seq<CheckLine<'_>>, bs: Seq<Blk<'_>>, label: Option<CheckLine<'_>>, block: Seq<CheckLine<'_>>, rest: Seq<CheckLine<'_>>)
    requires file_ok(ls), splits(ls, bs, label, block, rest), rest.len() > 0
    ensures rest[0].k() is Label || line_ok(rest[0])
{ let a = flat(bs) + cur(label, block); assert((a + rest)[a.len() as int] == rest[0]); }
pub proof fn push_line(ls: Seq<CheckLine<'_>>, bs: Seq<Blk<'_>>, label: Option<CheckLine<'_>>, block: Seq<CheckLine<'_>>, rest: Seq<CheckLine<'_>>)
    requires file_ok(ls), splits(ls, bs, label, block, rest), rest.len() > 0, !(rest[0].k() is Label)
    ensures splits(ls, bs, label, block.push(rest[0]), rest.drop_first())
{
    rest_ok(ls, bs, label, block, rest);
    let b1 = block.push(rest[0]);
    assert(flat(bs) + cur(label, b1) + rest.drop_first() =~= flat(bs) + cur(label, block) + rest);
    assert forall|i: int| 0 <= i < b1.len() implies line_ok(#[trigger] b1[i]) by { if i < block.len() { assert(b1[i] == block[i]); } }
}
pub proof fn flush(ls: Seq<CheckLine<'_>>, bs: Seq<Blk<'_>>, label: Option<CheckLine<'_>>, block: Seq<CheckLine<'_>>, rest: Seq<CheckLine<'_>>, x: Blk<'_>)
    requires splits(ls, bs, label, block, rest), x.0 == label, x.1@ == block, label is Some || block.len() > 0
    ensures blks_ok(bs.push(x)), flat(bs.push(x)) + rest == ls
{
    let b1 = bs.push(x);
    assert(b1.drop_last() =~= bs);
    assert(flat(b1) + rest =~= flat(bs) + cur(label, block) + rest);
    assert forall|j: int| 0 <= j < b1.len() implies blk_ok(#[trigger] b1[j], j) by { if j < bs.len() { assert(b1[j] == bs[j]); } }
}
pub proof fn start_block(ls: Seq<CheckLine<'_>>, bs: Seq<Blk<'_>>, rest: Seq<CheckLine<'_>>, rest1: Seq<CheckLine<'_>>, label: Option<CheckLine<'_>>)
    requires blks_ok(bs), flat(bs) + rest == ls, rest.len() > 0, rest1 == rest.drop_first(), label == Some(rest[0]), rest[0].k() is Label
    ensures splits(ls, bs, label, seq![], rest1)
{ assert(flat(bs) + cur(label, seq![]) + rest1 =~= flat(bs) + rest); }
/// CHECK-NEXT, CHECK-SAME and CHECK-EMPTY follow a directive that matches something
pub open spec fn depends(l: CheckLine<'_>) -> bool { l.k() is Next || l.k() is Same || l.k() is Empty }
pub open spec fn lead_ok(ls: Seq<CheckLine<'_>>, n: int) -> bool { forall|i: int| 0 <= i < n && depends(#[trigger] ls[i]) ==> exists|j: int| 0 <= j < i && anchors(#[trigger] ls[j]) }
pub proof fn lead_line(ls: Seq<CheckLine<'_>>, bs: Seq<Blk<'_>>, label: Option<CheckLine<'_>>, block: Seq<CheckLine<'_>>, rest: Seq<CheckLine<'_>>)
    requires splits(ls, bs, label, block, rest), rest.len() > 0, lead_ok(ls, ls.len() - rest.len()),
        depends(rest[0]) ==> label is Some || exists|i: int| 0 <= i < block.len() && anchors(#[trigger] block[i])
    ensures lead_ok(ls, ls.len() - rest.len() + 1)
{
    let f = flat(bs); let c = cur(label, block); let n = ls.len() - rest.len();
    assert(ls[n] == rest[0]);
    if depends(rest[0]) {
        if let Some(l) = label { assert(ls[f.len() as int] == l); assert(anchors(ls[f.len() as int])); }
        else { let i = choose|i: int| 0 <= i < block.len() && anchors(#[trigger] block[i]); assert(ls[f.len() + i] == block[i]); }
    }
}
pub proof fn lead_label(ls: Seq<CheckLine<'_>>, bs: Seq<Blk<'_>>, label: Option<CheckLine<'_>>, block: Seq<CheckLine<'_>>, rest: Seq<CheckLine<'_>>)
    requires splits(ls, bs, label, block, rest), rest.len() > 0, lead_ok(ls, ls.len() - rest.len()), rest[0].k() is Label
    ensures lead_ok(ls, ls.len() - rest.len() + 1)
{ assert(ls[ls.len() - rest.len()] == rest[0]); }
pub proof fn ends(ls: Seq<CheckLine<'_>>, bs: Seq<Blk<'_>>)
    requires blks_ok(bs), flat(bs) + Seq::<CheckLine<'_>>::empty() == ls
    ensures is_split(bs, ls)
{ assert(flat(bs) + Seq::<CheckLine<'_>>::empty() =~= flat(bs)); }
//@@ item filecheck/src/ast/file.rs :: struct CheckFile
//@@ end
impl<'a> CheckFile<'a> {
//@@ fn filecheck/src/ast/file.rs :: impl CheckFile#0 :: into_lines
//@@ ret r
//@@ spec
    ensures r@ == self.lines@,
//@@ end
}
impl Config {
    #[verifier::external_body] // `self.options.implicit_check_not.is_empty()`; --implicit-check-not is not modelled
    pub fn rt_no_implicit(&self) -> (r: bool) ensures r { unimplemented!() }
}
impl<'a> CheckProgram<'a> { pub fn rt_default() -> (r: Self) ensures r.sections@.len() == 0 { CheckProgram { sections: Vec::new() } } }
// ---------------------------------------------------------------- the compiler
impl<'a> MatchAll<'a> {
//@@ fn filecheck/src/pattern/matcher/matchers/all.rs :: impl MatchAll#0 :: compile
//@@ ret r
//@@ pre `let mut patterns = Vec::with_capacity(unordered.len());` => `let mut patterns: Vec<Pattern<'a>> = Vec::new();`
//@@ pre `let mut uses_variables = Vec::with_capacity(unordered.len());` => `let mut uses_variables: Vec<bool> = Vec::new();`
//@@ pre `for line in unordered { $X } Ok` => `let ghost all = unordered@; let mut unordered = unordered; while unordered.len() > 0 { let line = unordered.remove(0); $X } Ok`
//@@ pre `if let CheckPattern::Empty(span) = line.pattern { $X }` => `if line.pattern.rt_is_empty() { return Err(rt_report()); }`
//@@ pre `line.pattern.locate_variables().next().is_some()` => `line.pattern.rt_uses_variables()`
//@@ spec
    requires forall|i: int| 0 <= i < unordered@.len() ==> novars((#[trigger] unordered@[i]).pattern),
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.ps() == cpq(unordered@),
//@@ loop 0
    invariant unordered@.len() <= all.len(), unordered@ == all.skip(all.len() - unordered@.len()), uses_variables@.len() == patterns@.len() == all.len() - unordered@.len(),
        forall|i: int| 0 <= i < all.len() ==> novars((#[trigger] all[i]).pattern),
        forall|i: int| 0 <= i < uses_variables@.len() ==> !#[trigger] uses_variables@[i], forall|i: int| 0 <= i < patterns@.len() ==> #[trigger] patterns@[i] == cp(all[i].pattern),
    decreases unordered@.len(),
//@@ at loop 0 start
    let ghost rt_k = all.len() - unordered@.len();
    proof { assert(unordered@[0] == all[rt_k]); }
//@@ at after `while $c { $X }`
    proof { assert(patterns@ =~= cpq(all)); }
//@@ end
}
/// an arm of the compilation took the directives from `k0` on up to where `body` now starts
pub open spec fn arm_done(gs: Seq<CheckGroup<'_>>, pend: Pend<'_>, ls: Seq<CheckLine<'_>>, body: Seq<CheckLine<'_>>, k0: int) -> bool {
    let k = ls.len() - body.len();
    k0 < k <= ls.len() && body == ls.skip(k) && keeps(gs, pend, ls, k)
}
impl<'a> CheckProgram<'a> {
//@@ fn filecheck/src/check/program.rs :: impl CheckProgram#0 :: compile_rule
//@@ sig `pub fn compile_rule(&mut self, ty: CheckType, pattern: CheckPattern<'a>, config: &Config) -> (r: DiagResult<AnyRule<'a>>)`
//@@ pre `Ok(Box::new(CheckPlain::new(pattern.into_matcher_mut())))` => `Ok(AnyRule::Plain(CheckPlain::new(pattern)))`
//@@ pre `Ok(Box::new(CheckSame::new(pattern.into_matcher_mut())))` => `Ok(AnyRule::Same(CheckSame::new(pattern)))`
//@@ pre `Ok(Box::new(CheckNext::new(pattern.into_matcher_mut())))` => `Ok(AnyRule::Next(CheckNext::new(pattern)))`
//@@ pre `kind => unreachable!($X)` => `_ => rt_unreachable()`
//@@ spec
    requires ty.kind is Plain || ty.kind is Count || ty.kind is Same || ty.kind is Next,
    ensures *final(self) == *old(self), r is Ok ==> r->Ok_0.sem() == rof(ty.kind, if literal(ty.modifiers) { cpl(pattern) } else { cp(pattern) }),
//@@ end
//@@ fn filecheck/src/check/program.rs :: impl CheckProgram#0 :: compile_blocks
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn compile_nots(&mut self, line: CheckLine<'a>, body: &mut VecDeque<CheckLine<'a>>, groups: &mut Vec<CheckGroup<'a>>, pending_tree: &mut Pend<'a>, config: &Config, Ghost(ls): Ghost<Seq<CheckLine<'a>>>, Ghost(k0): Ghost<int>) -> (r: DiagResult<()>)`
//@@ only `Check::Not => { $X } Check::Dag => { $Y } Check::Count(count)` => `$X Ok(())`
//@@ pre `pending_tree = Some($x);` => `*pending_tree = Some($x);`
//@@ pre `while let Some(next) = body.pop_front() { $X }` => `loop { let rt_next = body.pop_front(); match rt_next { Some(next) => { $X } None => { break; } } }`
//@@ pre `matches!(next.kind(), $p)` => `(match next.kind() { $p => true, _ => false })`
//@@ pre `vec![line]` => `rt_vec1(line)`
//@@ spec
    requires lines_ok(ls), 0 <= k0 < ls.len(), line == ls[k0], ls[k0].k() is Not, old(body)@ == ls.skip(k0 + 1), keeps(old(groups)@, *old(pending_tree), ls, k0),
    ensures *final(self) == *old(self), r is Ok ==> arm_done(final(groups)@, *final(pending_tree), ls, final(body)@, k0),
//@@ at entry
    hide(keeps); hide(gwf); hide(none_match);
    let ghost (gs0, pend0) = (groups@, *pending_tree);
    let ghost mut k: int = k0 + 1;
    let ghost mut rt_root: MatchAny<'a> = arbitrary();
    proof { waits_ok(gs0, pend0, ls, k0); assert(line_ok(ls[k0])); }
//@@ at after `let mut nots = $e;`
    proof { assert(nots@ =~= ls.subrange(k0, k)); }
//@@ loop 0
    invariant_except_break body@ == ls.skip(k), nots@ == ls.subrange(k0, k),
    invariant lines_ok(ls), 0 <= k0 < k <= ls.len(), forall|i: int| k0 <= i < k ==> (#[trigger] ls[i]).k() is Not,
    ensures body@ == ls.skip(k), nots@ == ls.subrange(k0, k), k < ls.len() ==> !(ls[k].k() is Not),
    decreases ls.len() - k,
//@@ at loop 0 start
    proof { if k < ls.len() { assert(ls.skip(k)[0] == ls[k]); assert(ls.skip(k).drop_first() =~= ls.skip(k + 1)); assert(seq![ls[k]] + ls.skip(k + 1) =~= ls.skip(k)); assert(ls.subrange(k0, k).push(ls[k]) =~= ls.subrange(k0, k + 1)); } }
//@@ at after `nots.push(next);`
    proof { k = k + 1; }
//@@ at after `let matcher = $e;`
    proof { rt_root = matcher; }
//@@ at before `Ok(())`
    proof {
        let d = gs0.drop_last();
        if gs0.len() > 0 { assert(d.push(gs0.last()) =~= gs0); }
        if k == ls.len() { let x = groups@.last(); if x is Never { assert(groups@ =~= gs0.push(x)); } else { assert(groups@ =~= d.push(x)); } }
        else { match *pending_tree { Some((Some(_), _)) => { assert(groups@ =~= d); } _ => { assert(groups@ =~= gs0); } } }
        if k == ls.len() { not_ends(gs0, ls, k0, groups@, rt_root); } else { not_waits(gs0, ls, k0, k, groups@, *pending_tree, rt_root); }
    }
//@@ end
//@@ fn filecheck/src/check/program.rs :: impl CheckProgram#0 :: compile_blocks
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn compile_dags(&mut self, line: CheckLine<'a>, body: &mut VecDeque<CheckLine<'a>>, groups: &mut Vec<CheckGroup<'a>>, pending_tree: &mut Pend<'a>, config: &Config, Ghost(ls): Ghost<Seq<CheckLine<'a>>>, Ghost(k0): Ghost<int>) -> (r: DiagResult<()>)`
//@@ only `Check::Dag => { $X } Check::Count(count) => { $Y } _ => { $Z }` => `$X Ok(())`
//@@ pre `while let Some(next) = body.pop_front() { $X }` => `loop { let rt_next = body.pop_front(); match rt_next { Some(next) => { $X } None => { break; } } }`
//@@ pre `matches!(next.kind(), $p)` => `(match next.kind() { $p => true, _ => false })`
//@@ pre `matches!(body.front().map(|line| line.kind()), Some($p))` => `(match body.front() { Some(rt_l) => match rt_l.kind() { $p => true, _ => false }, None => false })`
//@@ pre `vec![line]` => `rt_vec1(line)`
//@@ pre `vec![self.compile_rule($X)?]` => `rt_vec1(self.compile_rule($X)?)`
//@@ pre `unsafe { std::hint::unreachable_unchecked() }` => `rt_unreachable()`
//@@ spec
    requires lines_ok(ls), 0 <= k0 < ls.len(), line == ls[k0], ls[k0].k() is Dag, old(body)@ == ls.skip(k0 + 1), keeps(old(groups)@, *old(pending_tree), ls, k0),
    ensures *final(self) == *old(self), r is Ok ==> arm_done(final(groups)@, *final(pending_tree), ls, final(body)@, k0),
//@@ at entry
    hide(gsq); hide(bsem); hide(gsem); hide(tsem); hide(keeps); hide(covers); hide(gwf); hide(dag_end); hide(none_match);
    let ghost (gs0, pend0) = (groups@, *pending_tree);
    let ghost mut k: int = k0 + 1;
    let ghost mut rt_g: CheckGroup<'a> = arbitrary();
    proof { waits_ok(gs0, pend0, ls, k0); assert(line_ok(ls[k0])); }
//@@ at after `let mut dags = $e;`
    proof { assert(dags@ =~= ls.subrange(k0, k)); }
//@@ loop 0
    invariant_except_break body@ == ls.skip(k), dags@ == ls.subrange(k0, k),
    invariant lines_ok(ls), 0 <= k0 < k <= ls.len(), forall|i: int| k0 <= i < k ==> (#[trigger] ls[i]).k() is Dag,
    ensures body@ == ls.skip(k), dags@ == ls.subrange(k0, k), k < ls.len() ==> !(ls[k].k() is Dag),
    decreases ls.len() - k,
//@@ at loop 0 start
    proof { if k < ls.len() { assert(ls.skip(k)[0] == ls[k]); assert(ls.skip(k).drop_first() =~= ls.skip(k + 1)); assert(seq![ls[k]] + ls.skip(k + 1) =~= ls.skip(k)); assert(ls.subrange(k0, k).push(ls[k]) =~= ls.subrange(k0, k + 1)); } }
//@@ at after `dags.push(next);`
    proof { k = k + 1; }
//@@ at after `let check_dag = $e;`
    let ghost m = k;
    proof { dag_end_is(ls, k0, m); assert(lines_ok(ls.subrange(k0, k))); }
//@@ at after `let line = body.pop_front().unwrap();`
    proof { assert(ls.skip(k)[0] == ls[k]); assert(ls.skip(k).drop_first() =~= ls.skip(k + 1)); assert(line_ok(ls[k])); k = k + 1; }
//@@ at before `CheckGroup::Bounded {`
    proof {
        let r = bounding_group;
        if ls[m].k() is Plain { assert(srules(r) =~= seq![lrule(ls[m])]); assert forall|j: int| 0 <= j < 1 implies single(#[trigger] ls[m + j]) && srules(r)[j] == lrule(ls[m + j]) by { } covers_ordered(ls, m, k, r); } else { covers_count(ls, m, r); }
    }
//@@ at before `if let Some((maybe_left, root)) = pending_tree.take()`#0
    proof { rt_g = group; if group is Bounded { covers_bounded(ls, k0, m, k, group); } else { covers_dag(ls, k0, k, group); } }
//@@ at before `Ok(())`
    proof { push_group(gs0, pend0, ls, k0, k, rt_g, groups@); }
//@@ end
//@@ fn filecheck/src/check/program.rs :: impl CheckProgram#0 :: compile_blocks
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn compile_count(&mut self, line: CheckLine<'a>, count: usize, body: &mut VecDeque<CheckLine<'a>>, groups: &mut Vec<CheckGroup<'a>>, pending_tree: &mut Pend<'a>, config: &Config, Ghost(ls): Ghost<Seq<CheckLine<'a>>>, Ghost(k0): Ghost<int>) -> (r: DiagResult<()>)`
//@@ only `Check::Count(count) => { $X } _ => { $Y } } } assert!(pending_tree.is_none());` => `$X Ok(())`
//@@ spec
    requires lines_ok(ls), 0 <= k0 < ls.len(), line == ls[k0], ls[k0].k() == Check::Count(count), old(body)@ == ls.skip(k0 + 1), keeps(old(groups)@, *old(pending_tree), ls, k0),
    ensures *final(self) == *old(self), r is Ok ==> arm_done(final(groups)@, *final(pending_tree), ls, final(body)@, k0),
//@@ at entry
    hide(gsq); hide(bsem); hide(gsem); hide(tsem); hide(keeps); hide(covers); hide(gwf); hide(dag_end); hide(none_match);
    let ghost (gs0, pend0) = (groups@, *pending_tree);
    let ghost mut k: int = k0 + 1;
    let ghost mut rt_g: CheckGroup<'a> = arbitrary();
    proof { waits_ok(gs0, pend0, ls, k0); assert(line_ok(ls[k0])); }
//@@ at before `if let Some((maybe_left, root)) = pending_tree.take()`#0
    proof { rt_g = group; covers_count(ls, k0, group); }
//@@ at before `Ok(())`
    proof { push_group(gs0, pend0, ls, k0, k, rt_g, groups@); }
//@@ end
//@@ fn filecheck/src/check/program.rs :: impl CheckProgram#0 :: compile_blocks
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn compile_ordered(&mut self, line: CheckLine<'a>, body: &mut VecDeque<CheckLine<'a>>, groups: &mut Vec<CheckGroup<'a>>, pending_tree: &mut Pend<'a>, config: &Config, Ghost(ls): Ghost<Seq<CheckLine<'a>>>, Ghost(k0): Ghost<int>) -> (r: DiagResult<()>)`
//@@ only `Check::Count(count) => { $Y } _ => { $X } } } assert!(pending_tree.is_none());` => `$X Ok(())`
//@@ pre `while let Some(next) = body.pop_front() { $X }` => `loop { let rt_next = body.pop_front(); match rt_next { Some(next) => { $X } None => { break; } } }`
//@@ pre `let mut rules: Vec<Box<dyn DynRule + 'a>> = vec![];` => `let mut rules: Vec<AnyRule<'a>> = Vec::new();`
//@@ pre `rules.push(Box::new(CheckEmpty::new($x)))` => `rules.push(AnyRule::Empty(CheckEmpty::new($x)))`
//@@ spec
    requires lines_ok(ls), 0 <= k0 < ls.len(), line == ls[k0], single(ls[k0]), old(body)@ == ls.skip(k0 + 1), keeps(old(groups)@, *old(pending_tree), ls, k0),
    ensures *final(self) == *old(self), r is Ok ==> arm_done(final(groups)@, *final(pending_tree), ls, final(body)@, k0),
//@@ at entry
    hide(gsq); hide(bsem); hide(gsem); hide(tsem); hide(keeps); hide(covers); hide(gwf); hide(dag_end); hide(none_match);
    let ghost (gs0, pend0) = (groups@, *pending_tree);
    let ghost mut k: int = k0 + 1;
    let ghost mut rt_g: CheckGroup<'a> = arbitrary();
    proof { waits_ok(gs0, pend0, ls, k0); assert(line_ok(ls[k0])); }
//@@ at after `body.push_front(line);`
    proof { k = k0; assert(body@ =~= ls.skip(k0)); }
//@@ loop 0
    invariant_except_break body@ == ls.skip(k),
    invariant lines_ok(ls), *self == *old(self), 0 <= k0 <= k <= ls.len(), k0 < ls.len(), single(ls[k0]), rules@.len() == k - k0,
        forall|j: int| 0 <= j < k - k0 ==> single(#[trigger] ls[k0 + j]) && rules@[j].sem() == lrule(ls[k0 + j]),
    ensures body@ == ls.skip(k), k0 < k,
    decreases ls.len() - k,
//@@ at loop 0 start
    proof { if k < ls.len() { assert(ls.skip(k)[0] == ls[k]); assert(ls.skip(k).drop_first() =~= ls.skip(k + 1)); assert(seq![ls[k]] + ls.skip(k + 1) =~= ls.skip(k)); assert(line_ok(ls[k])); } }
//@@ at loop 0 end
    proof { assert(ls[k0 + (k - k0)] == ls[k]); k = k + 1; }
//@@ at before `if let Some((maybe_left, root)) = pending_tree.take()`#0
    proof { rt_g = group; assert forall|j: int| 0 <= j < k - k0 implies single(#[trigger] ls[k0 + j]) && srules(group)[j] == lrule(ls[k0 + j]) by { } covers_ordered(ls, k0, k, group); }
//@@ at before `Ok(())`
    proof { push_group(gs0, pend0, ls, k0, k, rt_g, groups@); }
//@@ end
//@@ fn filecheck/src/check/program.rs :: impl CheckProgram#0 :: compile_blocks
//@@ sig `pub fn compile_body(&mut self, body: VecDeque<CheckLine<'a>>, groups: &mut Vec<CheckGroup<'a>>, pending_tree: &mut Pend<'a>, config: &Config) -> (r: DiagResult<()>)`
//@@ only `while let Some(line) = body.pop_front() { $X } assert!(pending_tree.is_none());` => `let ghost ls = body@; let mut body = body; loop { let rt_line = body.pop_front(); match rt_line { Some(line) => { $X } None => { break; } } } assert!(pending_tree.is_none()); Ok(())`
//@@ pre! `Check::Not => { $X } Check::Dag => { $Y } Check::Count($c) => { $Z } _ => { $W }` => `Check::Not => { self.compile_nots(line, &mut body, groups, pending_tree, config, Ghost(ls), Ghost(k0))?; } Check::Dag => { self.compile_dags(line, &mut body, groups, pending_tree, config, Ghost(ls), Ghost(k0))?; } Check::Count($c) => { self.compile_count(line, $c, &mut body, groups, pending_tree, config, Ghost(ls), Ghost(k0))?; } _ => { self.compile_ordered(line, &mut body, groups, pending_tree, config, Ghost(ls), Ghost(k0))?; }`
//@@ spec
    requires lines_ok(body@), old(groups)@.len() == 0, *old(pending_tree) is None,
    ensures *final(self) == *old(self), r is Ok ==> gs_wf(final(groups)@) && equiv(final(groups)@, body@) && *final(pending_tree) is None,
//@@ at entry
    hide(keeps); hide(gwf); hide(bsem);
//@@ at before `loop`#0
    let ghost mut k: int = 0;
    proof { keeps_start(ls); assert(groups@ =~= Seq::empty()); assert(ls.skip(0) =~= ls); }
//@@ loop 0
    invariant_except_break body@ == ls.skip(k),
    invariant lines_ok(ls), *self == *old(self), 0 <= k <= ls.len(), keeps(groups@, *pending_tree, ls, k),
    ensures k == ls.len(),
    decreases ls.len() - k,
//@@ at loop 0 start
    let ghost k0 = k;
    proof { waits_ok(groups@, *pending_tree, ls, k0); if k < ls.len() { assert(ls.skip(k)[0] == ls[k]); assert(ls.skip(k).drop_first() =~= ls.skip(k + 1)); assert(line_ok(ls[k])); } }
//@@ at loop 0 end
    proof { k = ls.len() - body@.len(); }
//@@ at before `assert`#0
    proof { waits_ok(groups@, *pending_tree, ls, k); keeps_end(groups@, ls); }
//@@ end
//@@ fn filecheck/src/check/program.rs :: impl CheckProgram#0 :: compile_blocks
//@@ opt #[verifier::spinoff_prover]
//@@ sig `pub fn compile_blocks(&mut self, blocks: &mut VecDeque<Blk<'a>>, config: &Config) -> (r: DiagResult<()>)`
//@@ pre! `let mut groups = vec![];` => `let mut groups: Vec<CheckGroup<'a>> = Vec::new();`
//@@ pre! `let mut pending_tree = None;` => `let mut pending_tree: Pend<'a> = None;`
//@@ pre! `while let Some(line) = body.pop_front() { $X } assert!(pending_tree.is_none());` => `self.compile_body(body, &mut groups, &mut pending_tree, config)?;`
//@@ pre! `while let Some((maybe_label, body)) = blocks.pop_front() { $X } Ok` => `loop { let rt_block = blocks.pop_front(); match rt_block { Some((maybe_label, body)) => { $X } None => { break; } } } Ok`
//@@ pre `core::mem::take(&mut groups)` => `rt_take_vec(&mut groups)`
//@@ pre `for body in $v.into_iter() { $X }` => `let mut rt_gs = $v; let ghost rt_all = rt_gs@; while rt_gs.len() > 0 { let body = rt_gs.remove(0); $X }`
//@@ spec
    requires old(self).sections@.len() == 0, blks_ok(old(blocks)@),
    ensures r is Ok ==> exists|g: int| #[trigger] compiled(final(self).sections@, g, old(blocks)@, old(blocks)@.len() as int),
//@@ at entry
    hide(equiv); hide(gwf);
    let ghost bs = blocks@;
    let ghost mut k: int = 0;
    let ghost mut g: int = 0;
    proof { assert(bs.skip(0) =~= bs); }
//@@ loop 0
    invariant blks_ok(bs), 0 <= k <= bs.len(), blocks@ == bs.skip(k), groups@.len() == 0, pending_tree is None, compiled(self.sections@, g, bs, k),
    ensures k == bs.len(),
    decreases bs.len() - k,
//@@ at loop 0 start
    let ghost ss0 = self.sections@;
    proof { if k < bs.len() { assert(bs.skip(k)[0] == bs[k]); assert(bs.skip(k).drop_first() =~= bs.skip(k + 1)); assert(blk_ok(bs[k], k)); } }
//@@ loop 1
    invariant gs_wf(rt_all), rt_gs@.len() <= rt_all.len(), rt_gs@ == rt_all.skip(rt_all.len() - rt_gs@.len()), self.sections@.len() == rt_all.len() - rt_gs@.len(),
        forall|i: int| 0 <= i < self.sections@.len() ==> (#[trigger] self.sections@[i]) is Group && grp(self.sections@[i]) == rt_all[i],
    decreases rt_gs@.len(),
//@@ at loop 1 start
    proof { assert(rt_gs@[0] == rt_all[rt_all.len() - rt_gs@.len()]); }
//@@ at after `while $c { $X }`
    proof { g = rt_all.len() as int; assert(grps(self.sections@.take(g)) =~= rt_all); }
//@@ at loop 0 end
    proof {
        let ss = self.sections@;
        if bs[k].0 is Some {
            assert(ss.take(g) =~= ss0.take(g)); assert(ss =~= ss0.push(ss.last()));
            assert forall|i: int| 0 <= i < g implies (#[trigger] ss[i]) is Group && gwf(grp(ss[i])) by { assert(ss[i] == ss0[i]); }
            assert forall|i: int| g <= i < ss.len() implies (#[trigger] ss[i]) is Block && gs_wf(ss[i]->Block_body@) by { if i < ss0.len() { assert(ss[i] == ss0[i]); } }
            assert forall|j: int| bo(bs) <= j < k + 1 implies is_section(#[trigger] ss[g + (j - bo(bs))], bs[j]) by { if j < k { assert(ss[g + (j - bo(bs))] == ss0[g + (j - bo(bs))]); } }
        } else {
            assert forall|i: int| 0 <= i < g implies (#[trigger] ss[i]) is Group && gwf(grp(ss[i])) by { assert(gwf(grps(ss.take(g))[i])); }
        }
        k = k + 1;
    }
//@@ end
//@@ fn filecheck/src/check/program.rs :: can_insert_dependent_positive_check
//@@ sig `pub fn rt_can_insert(block: &Vec<CheckLine<'_>>, label: Option<&CheckLine<'_>>) -> (r: bool)`
//@@ pre `block.iter().any(|line| { matches!(line.ty.kind, $p) })` => `let mut rt_i = 0; let mut rt_r = false; while rt_i < block.len() && !rt_r { let line = &block[rt_i]; rt_r = match line.ty.kind { $p => true, _ => false }; rt_i += 1; } rt_r`
//@@ spec
    ensures r == (label is Some || exists|i: int| 0 <= i < block@.len() && anchors(#[trigger] block@[i])),
//@@ loop 0
    invariant 0 <= rt_i <= block@.len(), !rt_r ==> forall|i: int| 0 <= i < rt_i ==> !anchors(#[trigger] block@[i]), rt_r ==> rt_i > 0 && anchors(block@[rt_i - 1]),
    decreases block@.len() - rt_i,
//@@ end
//@@ fn filecheck/src/check/program.rs :: impl CheckProgram#0 :: compile_lines
//@@ sig `pub fn compile_lines(&mut self, lines: Vec<CheckLine<'a>>, config: &Config) -> (r: DiagResult<()>)`
//@@ pre! `let mut iter = lines.into_iter().peekable();` => `let mut iter = RtPeek::new(lines);`
//@@ pre! `let mut label = None;` => `let mut label: Option<CheckLine<'a>> = None;`
//@@ pre! `let mut block = vec![];` => `let mut block: Vec<CheckLine<'a>> = Vec::new();`
//@@ pre! `let mut blocks: VecDeque<(Option<CheckLine<'a>>, Vec<CheckLine<'a>>)> = VecDeque::default();` => `let mut blocks: VecDeque<Blk<'a>> = VecDeque::default();`
//@@ pre! `let implicit_check_not_pattern = if config.options.implicit_check_not.is_empty() { None } else { $X };` => ``
//@@ pre `if let Some($p) = implicit_check_not_pattern.as_ref() { $X }` => ``
//@@ pre! `match next.kind() { Check::Label => { $A } $p if !can_insert_dependent_positive_check(&block, label.as_ref()) => { $B } $C }` => `let rt_dep = match next.kind() { $p => true, _ => false }; if rt_dep && !Self::rt_can_insert(&block, label.as_ref()) { return Err(rt_report()); } match next.kind() { Check::Label => { $A } $C }`
//@@ pre `core::mem::take(&mut block)` => `rt_take_vec(&mut block)`
//@@ pre `while let Some(next) = iter.peek() { $X }` => `loop { match iter.peek() { Some(next) => { $X } None => { break; } } }`
//@@ pre `unreachable!()` => `rt_unreachable()`
//@@ spec
    requires old(self).sections@.len() == 0, file_ok(lines@),
    ensures r is Ok ==> made(final(self).sections@, lines@) && lead_ok(lines@, lines@.len() as int),
//@@ at entry
    hide(compiled);
    let ghost ls = lines@;
    proof { flat_empty(Seq::<Blk<'a>>::empty()); assert(Seq::<CheckLine<'a>>::empty() + ls =~= ls); }
//@@ loop 0
    invariant *self == *old(self), file_ok(ls), splits(ls, blocks@, label, block@, iter@), lead_ok(ls, ls.len() - iter@.len()),
    ensures iter@.len() == 0,
    decreases iter@.len(),
//@@ at loop 0 start
    let ghost (bs0, la0, bl0, it0) = (blocks@, label, block@, iter@);
    proof { if it0.len() > 0 { rest_ok(ls, bs0, la0, bl0, it0); } }
//@@ at before `label = iter.next();`
    proof { if la0 is Some || bl0.len() > 0 { let x = blocks@.last(); assert(blocks@ =~= bs0.push(x)); flush(ls, bs0, la0, bl0, it0, x); } }
//@@ at after `label = iter.next();`
    proof { start_block(ls, blocks@, it0, iter@, label); lead_label(ls, bs0, la0, bl0, it0); }
//@@ loop 1
    invariant *self == *old(self), file_ok(ls), splits(ls, blocks@, label, block@, iter@), label is Some, lead_ok(ls, ls.len() - iter@.len()), iter@.len() < it0.len(),
    decreases iter@.len(),
//@@ at loop 1 start
    let ghost (bl1, it1) = (block@, iter@);
    proof { if it1.len() > 0 { rest_ok(ls, blocks@, label, bl1, it1); if !(it1[0].k() is Label) { push_line(ls, blocks@, label, bl1, it1); lead_line(ls, blocks@, label, bl1, it1); } } }
//@@ at loop 1 end
    proof { assert(block@ =~= bl1.push(it1[0])); }
//@@ at loop 0 end
    proof { if !(it0[0].k() is Label) { push_line(ls, bs0, la0, bl0, it0); lead_line(ls, bs0, la0, bl0, it0); assert(block@ =~= bl0.push(it0[0])); } }
//@@ at before `if label.is_some() || !block.is_empty()`#1
    let ghost (bs0, la0, bl0) = (blocks@, label, block@);
//@@ at before `self.compile_blocks`
    proof { if la0 is Some || bl0.len() > 0 { let x = blocks@.last(); assert(blocks@ =~= bs0.push(x)); flush(ls, bs0, la0, bl0, iter@, x); } ends(ls, blocks@); }
    let ghost rt_bs = blocks@;
//@@ end
//@@ fn filecheck/src/check/program.rs :: impl CheckProgram#0 :: compile
//@@ ret r
//@@ pre! `config.options.implicit_check_not.is_empty()` => `config.rt_no_implicit()`
//@@ pre `Report::from(InvalidCheckFileError::Empty)` => `rt_report()`
//@@ pre `Self::default()` => `Self::rt_default()`
//@@ spec
    requires file_ok(check_file.lines@),
    ensures check_file.lines@.len() == 0 ==> r is Err,
        r is Ok ==> made(r->Ok_0.sections@, check_file.lines@) && lead_ok(check_file.lines@, check_file.lines@.len() as int),
//@@ end
}
// ---------------------------------------------------------------- what a check file asks of a text
pub open spec fn lab<'a>(bs: Seq<Blk<'a>>, j: int) -> Pattern<'a> { cps((bs[bo(bs) + j].0->Some_0).pattern) }
/// where the first `k` labels match: each on a later line than the one before it
pub open spec fn flabels(bs: Seq<Blk<'_>>, b: Seq<u8>, k: int) -> Option<Seq<int>> decreases k {
    if k <= 0 { Some(seq![]) } else { match flabels(bs, b, k - 1) { None => None, Some(v) =>
        if k > 1 && eol(b, v[k - 2]) >= b.len() { None } else { match pm(lab(bs, k - 1), b, if k > 1 { eol(b, v[k - 2]) + 1 } else { 0 }, b.len() as int) { None => None, Some((s, _)) => Some(v.push(s)) } } } }
}
/// All labels match, and the directives of every block hold in the region of their block
pub open spec fn fsem(bs: Seq<Blk<'_>>, b: Seq<u8>) -> bool {
    match flabels(bs, b, bs.len() - bo(bs)) {
        None => false,
        Some(v) => {
            &&& bo(bs) == 1 ==> bsem(bs[0].1@, b, 0, no(), 0, reg_end(b, v, 0)) is Some
            &&& forall|j: int| 0 <= j < v.len() ==> bsem((#[trigger] bs[bo(bs) + j]).1@, b, 0, no(), eol(b, v[j]), reg_end(b, v, j + 1)) is Some
        },
    }
}
pub proof fn flabels_are(ss: Seq<CheckSection<'_>>, g: int, bs: Seq<Blk<'_>>, b: Seq<u8>, k: int)
    requires compiled(ss, g, bs, bs.len() as int), 0 <= k <= bs.len() - bo(bs)
    ensures labels(ss, g, b, k) == flabels(bs, b, k)
    decreases k
{
    if k > 0 {
        flabels_are(ss, g, bs, b, k - 1);
        let j = bo(bs) + (k - 1);
        assert(is_section(ss[g + (j - bo(bs))], bs[j]));
        assert(ss[g + k - 1] == ss[g + (j - bo(bs))]);
    }
}
/// what is checked is what the directives ask for
pub proof fn program_sem(ss: Seq<CheckSection<'_>>, g: int, bs: Seq<Blk<'_>>, b: Seq<u8>)
    requires compiled(ss, g, bs, bs.len() as int), blks_ok(bs)
    ensures psem(ss, g, b) <==> fsem(bs, b), secs_wf(ss, g)
{
    hide(pm); hide(eol); hide(bol);
    let o = bo(bs);
    let n = bs.len() - o;
    flabels_are(ss, g, bs, b, n);
    assert(ss.len() - g == n);
    labels_in(ss, g, b, n);
    if let Some(v) = labels(ss, g, b, n) {
        let hi = reg_end(b, v, 0);
        if o == 1 { assert(gsq(grps(ss.take(g)), b, 0, 0, hi) == bsem(bs[0].1@, b, 0, no(), 0, hi)); }
        else { assert(grps(ss.take(g)).len() == 0); }
        assert forall|j: int| 0 <= j < v.len() implies gsq((#[trigger] ss[g + j])->Block_body@, b, 0, eol(b, v[j]), reg_end(b, v, j + 1)) == bsem(bs[o + j].1@, b, 0, no(), eol(b, v[j]), reg_end(b, v, j + 1)) by {
            let i = o + j; assert(is_section(ss[g + (i - o)], bs[i]));
        }
        if psem(ss, g, b) { assert forall|j: int| 0 <= j < v.len() implies bsem((#[trigger] bs[o + j]).1@, b, 0, no(), eol(b, v[j]), reg_end(b, v, j + 1)) is Some by { let x = ss[g + j]; } }
        if fsem(bs, b) { assert forall|j: int| 0 <= j < v.len() implies gsq((#[trigger] ss[g + j])->Block_body@, b, 0, eol(b, v[j]), reg_end(b, v, j + 1)) is Some by { let x = bs[o + j]; } }
    }
}
/// the whole of a check: a text passes exactly when it has what the check file asks for
pub fn rt_filecheck<'a, 'input>(check_file: CheckFile<'a>, config: &Config, allow_empty: bool, buffer: &'input [u8], source_id: SourceId) -> (r: DiagResult<TestResult>)
    requires file_ok(check_file.lines@), buffer@.len() <= u32::MAX, lf_text(buffer@),
    ensures check_file.lines@.len() == 0 ==> r is Err,
        r is Ok ==> lead_ok(check_file.lines@, check_file.lines@.len() as int) && exists|bs: Seq<Blk<'a>>| #[trigger] is_split(bs, check_file.lines@) && (r->Ok_0.n() == 0 <==> (allow_empty || buffer@.len() > 0) && fsem(bs, buffer@)),
{
    let ghost ls = check_file.lines@;
    let program = CheckProgram::compile(check_file, config)?;
    let ghost (g, bs) = choose|g: int, bs: Seq<Blk<'a>>| is_split(bs, ls) && #[trigger] compiled(program.sections@, g, bs, bs.len() as int);
    proof { program_sem(program.sections@, g, bs, buffer@); }
    let r = check_input(allow_empty, &program, buffer, source_id, Ghost(g));
    proof { assert(is_split(bs, ls)); }
    Ok(r)
}
}
fn main() {}
