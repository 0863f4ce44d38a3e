//@@ include prelude.inc
// the path tree: a map from paths to values, and the nearest directory stored above a path
verus! {
use Either::Left;
use Either::Right;
pub enum Comp { Root, Other(int) }
pub type Ps = Seq<Comp>;
pub open spec fn comps_ok(p: Ps) -> bool { forall|i: int| 0 < i < p.len() ==> #[trigger] p[i] != Comp::Root }
pub open spec fn pre(c: Ps, p: Ps) -> bool { c.len() <= p.len() && p.take(c.len() as int) == c }
pub open spec fn absolute(p: Ps) -> bool { p.len() > 0 && p[0] == Comp::Root }
pub open spec fn joined(p: Ps, q: Ps) -> Ps { if absolute(q) { q } else { p + q } }

// ---------------------------------------------------------------- std::path, by the components of a path
#[verifier::external_body]
pub struct Component { x: u8 }
impl Component { pub uninterp spec fn v(&self) -> Comp; }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Component {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.v() == other.v() }
}
impl PartialEq for Component {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub struct Components { x: u8 }
impl Components {
    pub uninterp spec fn v(&self) -> Ps;
    #[verifier::external_body] // Iterator::next
    pub fn next(&mut self) -> (r: Option<Component>)
        ensures match r { Some(c) => old(self).v().len() > 0 && c.v() == old(self).v()[0] && final(self).v() == old(self).v().skip(1), None => old(self).v().len() == 0 && final(self).v() == old(self).v() } { unimplemented!() }
    #[verifier::external_body] // DoubleEndedIterator::next_back
    pub fn next_back(&mut self) -> (r: Option<Component>)
        ensures match r { Some(c) => old(self).v().len() > 0 && c.v() == old(self).v().last() && final(self).v() == old(self).v().drop_last(), None => old(self).v().len() == 0 && final(self).v() == old(self).v() } { unimplemented!() }
}
#[derive(Debug)]
pub struct StripPrefixError { pub x: u8 }
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub type Path = PathBuf;
/// only the first component of a path is its root
pub broadcast axiom fn path_ok(p: PathBuf) ensures comps_ok(#[trigger] p.v()), p.v().len() <= isize::MAX;
impl PathBuf {
    pub uninterp spec fn v(&self) -> Ps;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.v() == Seq::<Comp>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn components(&self) -> (r: Components) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix(&self, c: &Path) -> (r: Result<&Path, StripPrefixError>)
        ensures match r { Ok(rest) => pre(c.v(), self.v()) && rest.v() == self.v().skip(c.v().len() as int), Err(_) => !pre(c.v(), self.v()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r.v() == self.v() { unimplemented!() }
    pub fn into_owned(self) -> (r: PathBuf) ensures r.v() == self.v() { self }
    pub fn as_path(&self) -> (r: &Path) ensures r.v() == self.v() { self }
    #[verifier::external_body] // push of a component
    pub fn rt_push(&mut self, c: Component) ensures final(self).v() == joined(old(self).v(), Seq::empty().push(c.v())) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, p: &Path) ensures final(self).v() == joined(old(self).v(), p.v()) { unimplemented!() }
    #[verifier::external_body] // false, and nothing changed, when there is no parent
    pub fn pop(&mut self) -> (r: bool) ensures final(self).v() == if old(self).v().len() > 0 && old(self).v().last() != Comp::Root { old(self).v().drop_last() } else { old(self).v() } { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PathBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.v() == other.v() }
}
impl PartialEq for PathBuf {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body] // Path::new("")
pub fn rt_empty() -> (r: &'static Path) ensures r.v() == Seq::<Comp>::empty() { unimplemented!() }
#[verifier::external_body] // PathBuf::from(component.as_os_str())
pub fn rt_from(c: Component) -> (r: PathBuf) ensures r.v() == Seq::empty().push(c.v()) { unimplemented!() }

// ---------------------------------------------------------------- the tree
pub enum Either<A, B> { Left(A), Right(B) }
//@@ item core/src/fs/path_tree.rs :: enum TryInsertError
//@@ end
//@@ item core/src/fs/path_tree.rs :: enum PathType
//@@ derive Copy, Clone, PartialEq, Eq, Structural
//@@ end
//@@ item core/src/fs/path_tree.rs :: struct DataKey
//@@ derive Copy, Clone, PartialEq, Eq, Structural
//@@ end
impl DataKey {
//@@ fn core/src/fs/path_tree.rs :: impl DataKey :: as_usize
//@@ ret r
//@@ spec
    ensures r == self.0,
//@@ end
}
//@@ item core/src/fs/path_tree.rs :: enum Prefix
//@@ end
//@@ item core/src/fs/path_tree.rs :: enum Node
//@@ end
impl Node {
    pub open spec fn cv(&self) -> Ps { match self { Node::Leaf { component, .. } => component.v(), Node::Branch { component, .. } => component.v() } }
    pub open spec fn dv(&self) -> Option<DataKey> { match self { Node::Leaf { data, .. } => *data, Node::Branch { data, .. } => *data } }
    pub open spec fn kids(&self) -> Seq<Node> { match self { Node::Leaf { .. } => Seq::empty(), Node::Branch { children, .. } => children@ } }
}
/// key `k` is stored at path `p` below `n` (`d`: as a directory)
pub open spec fn hold(n: Node, p: Ps, k: DataKey, d: bool) -> bool
    decreases n
{
    pre(n.cv(), p) && if p.len() == n.cv().len() { n.dv() == Some(k) && (d ==> n is Branch) } else {
        match n {
            Node::Leaf { .. } => false,
            Node::Branch { children, .. } => exists|i: int| 0 <= i < children@.len() && hold(#[trigger] children@[i], p.skip(n.cv().len() as int), k, d),
        }
    }
}
pub open spec fn hasl(s: Seq<Node>, p: Ps, k: DataKey, d: bool) -> bool { exists|i: int| 0 <= i < s.len() && hold(#[trigger] s[i], p, k, d) }
/// no two nodes start with the same component
pub open spec fn distinct(s: Seq<Node>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).cv()[0] != (#[trigger] s[j]).cv()[0] }
pub open spec fn wf(n: Node) -> bool
    decreases n
{
    n.cv().len() > 0 && match n {
        Node::Leaf { .. } => true,
        Node::Branch { children, .. } => distinct(children@) && forall|i: int| 0 <= i < children.len() ==> wf(#[trigger] children[i]) && children[i].cv()[0] != Comp::Root,
    }
}
pub open spec fn wfl(s: Seq<Node>) -> bool { distinct(s) && forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) }
pub proof fn lem_pre(c: Ps, p: Ps)
    requires pre(c, p), c.len() > 0
    ensures c[0] == p[0]
{ assert(p.take(c.len() as int)[0] == p[0]); }
pub proof fn lem_first(n: Node, p: Ps, k: DataKey, d: bool)
    requires wf(n), hold(n, p, k, d)
    ensures p.len() > 0, p[0] == n.cv()[0]
{ lem_pre(n.cv(), p); }
/// only the node which starts like the path can hold it
pub proof fn lem_only(s: Seq<Node>, i: int, p: Ps)
    requires wfl(s), 0 <= i < s.len(), p.len() > 0, s[i].cv()[0] == p[0]
    ensures forall|k: DataKey, d: bool| #[trigger] hasl(s, p, k, d) <==> hold(s[i], p, k, d)
{
    assert forall|k: DataKey, d: bool| #[trigger] hasl(s, p, k, d) <==> hold(s[i], p, k, d) by {
        if hasl(s, p, k, d) {
            let j = choose|j: int| 0 <= j < s.len() && hold(#[trigger] s[j], p, k, d);
            lem_first(s[j], p, k, d);
            if i < j { assert(s[i].cv()[0] != s[j].cv()[0]); }
            if j < i { assert(s[j].cv()[0] != s[i].cv()[0]); }
        }
    }
}
pub proof fn lem_none(s: Seq<Node>, p: Ps)
    requires wfl(s), p.len() > 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cv()[0] != p[0]
    ensures forall|k: DataKey, d: bool| !#[trigger] hasl(s, p, k, d)
{
    assert forall|k: DataKey, d: bool| !#[trigger] hasl(s, p, k, d) by {
        if hasl(s, p, k, d) {
            let j = choose|j: int| 0 <= j < s.len() && hold(#[trigger] s[j], p, k, d);
            lem_first(s[j], p, k, d);
        }
    }
}
/// what a node holds at a path: its own value, or what its child holds
pub proof fn lem_step(n: Node, p: Ps)
    requires wf(n), p.len() > 0
    ensures
        pre(n.cv(), p) ==> (p.len() == n.cv().len() <==> p.skip(n.cv().len() as int) == Seq::<Comp>::empty()),
        pre(n.cv(), p) ==> (p.len() == n.cv().len() <==> p == n.cv()),
        !pre(n.cv(), p) ==> forall|k: DataKey, d: bool| !#[trigger] hold(n, p, k, d),
        pre(n.cv(), p) && p.len() == n.cv().len() ==> p.skip(n.cv().len() as int).len() == 0 && forall|k: DataKey, d: bool| #[trigger] hold(n, p, k, d) <==> n.dv() == Some(k) && (d ==> n is Branch),
        pre(n.cv(), p) && p.len() > n.cv().len() ==> {
            &&& forall|k: DataKey, d: bool| #[trigger] hold(n, p, k, d) <==> hasl(n.kids(), p.skip(n.cv().len() as int), k, d)
            &&& (n is Branch ==> wfl(n.kids()))
            &&& (n is Branch ==> forall|i: int, k: DataKey, d: bool| 0 <= i < n.kids().len() && n.kids()[i].cv()[0] == p[n.cv().len() as int] ==> (#[trigger] hold(n, p, k, d) <==> #[trigger] hold(n.kids()[i], p.skip(n.cv().len() as int), k, d)))
            &&& ((forall|i: int| 0 <= i < n.kids().len() ==> (#[trigger] n.kids()[i]).cv()[0] != p[n.cv().len() as int]) ==> forall|k: DataKey, d: bool| !#[trigger] hold(n, p, k, d))
        },
{
    let c = n.cv();
    if pre(c, p) && p.len() == c.len() { assert(p.skip(c.len() as int) =~= Seq::<Comp>::empty()); assert(p.take(c.len() as int) =~= p); }
    if pre(c, p) && p.len() > c.len() { assert(p.skip(c.len() as int).len() > 0); }
    if pre(c, p) && p.len() > c.len() {
        let rest = p.skip(c.len() as int);
        assert(rest[0] == p[c.len() as int]);
        assert forall|k: DataKey, d: bool| #[trigger] hold(n, p, k, d) <==> hasl(n.kids(), rest, k, d) by {
            match n {
                Node::Leaf { .. } => { }
                Node::Branch { children, .. } => {
                    assert(n.kids() == children@);
                    if hold(n, p, k, d) { }
                    if hasl(n.kids(), rest, k, d) { }
                }
            }
        }
        if n is Branch {
            assert forall|i: int, k: DataKey, d: bool| 0 <= i < n.kids().len() && n.kids()[i].cv()[0] == p[c.len() as int] implies (#[trigger] hold(n, p, k, d) <==> #[trigger] hold(n.kids()[i], rest, k, d)) by {
                lem_only(n.kids(), i, rest);
                assert(hasl(n.kids(), rest, k, d) <==> hold(n.kids()[i], rest, k, d));
            }
            if forall|i: int| 0 <= i < n.kids().len() ==> (#[trigger] n.kids()[i]).cv()[0] != p[c.len() as int] { lem_none(n.kids(), rest); }
        }
    }
}
pub open spec fn vk(r: Option<(PathBuf, DataKey)>) -> Option<(Ps, DataKey)> { match r { Some((p, k)) => Some((p.v(), k)), None => None } }
pub open spec fn last_of(c: Seq<(PathBuf, DataKey)>) -> Option<(Ps, DataKey)> { if c.len() == 0 { None } else { Some((c.last().0.v(), c.last().1)) } }
/// `r` is the longest directory stored at a prefix of `p` shorter than `to`
pub open spec fn nearest(n: Node, p: Ps, to: int, r: Option<(Ps, DataKey)>) -> bool {
    match r {
        None => forall|j: int, k: DataKey| 0 <= j < to ==> !#[trigger] hold(n, p.take(j), k, true),
        Some((q, k)) => q.len() < to && q == p.take(q.len() as int) && hold(n, q, k, true) && forall|j: int, k: DataKey| q.len() < j < to ==> !#[trigger] hold(n, p.take(j), k, true),
    }
}
/// what the tree holds at prefixes of `p` longer than `at` is what `m` holds below it
pub open spec fn below(n: Node, m: Node, p: Ps, at: int) -> bool {
    forall|j: int, k: DataKey| at < j <= p.len() ==> (#[trigger] hold(n, p.take(j), k, true) <==> hold(m, p.skip(at).take(j - at), k, true))
}
pub proof fn lem_down(n: Node, m: Node, p: Ps, at: int, r: Option<(Ps, DataKey)>)
    requires wf(n), wf(m), 0 <= at < p.len(), below(n, m, p, at), nearest(n, p, at + 1, r)
    ensures
        !pre(m.cv(), p.skip(at)) || m is Leaf || at + m.cv().len() == p.len() ==> nearest(n, p, p.len() as int, r),
        pre(m.cv(), p.skip(at)) && m is Branch && at + m.cv().len() < p.len() ==> {
            let to = at + m.cv().len();
            let s = match m.dv() { Some(k) => Some((p.take(to), k)), None => r };
            &&& nearest(n, p, to + 1, s)
            &&& forall|i: int| 0 <= i < m.kids().len() && (#[trigger] m.kids()[i]).cv()[0] == p[to] ==> below(n, m.kids()[i], p, to)
            &&& ((forall|i: int| 0 <= i < m.kids().len() ==> (#[trigger] m.kids()[i]).cv()[0] != p[to]) ==> nearest(n, p, p.len() as int, s))
        },
{
    let rest = p.skip(at);
    let c = m.cv();
    let l = c.len() as int;
    let to = at + l;
    assert forall|j: int, k: DataKey| at < j <= p.len() && (j < to || !pre(c, rest) || m is Leaf) implies !#[trigger] hold(n, p.take(j), k, true) by {
        let q = rest.take(j - at);
        assert(hold(n, p.take(j), k, true) <==> hold(m, q, k, true));
        if pre(c, q) { assert(rest.take(l) =~= q.take(l)); }
    }
    if pre(c, rest) && m is Branch {
        assert(rest.take(l) == c);
        assert forall|k: DataKey| #[trigger] hold(n, p.take(to), k, true) <==> m.dv() == Some(k) by {
            let q = rest.take(to - at);
            assert(q.take(l) =~= q);
        }
        assert forall|j: int, k: DataKey| to < j <= p.len() implies (#[trigger] hold(n, p.take(j), k, true) <==> hasl(m.kids(), p.skip(to).take(j - to), k, true)) by {
            let q = rest.take(j - at);
            assert(q.take(l) =~= rest.take(l));
            lem_step(m, q);
            assert(q.skip(l) =~= p.skip(to).take(j - to));
            assert(hold(n, p.take(j), k, true) <==> hold(m, q, k, true));
        }
        if to < p.len() {
            assert(p.take(to).len() == to);
            assert forall|i: int| 0 <= i < m.kids().len() && (#[trigger] m.kids()[i]).cv()[0] == p[to] implies below(n, m.kids()[i], p, to) by {
                assert forall|j: int, k: DataKey| to < j <= p.len() implies (#[trigger] hold(n, p.take(j), k, true) <==> hold(m.kids()[i], p.skip(to).take(j - to), k, true)) by {
                    let q = p.skip(to).take(j - to);
                    assert(q[0] == p[to]);
                    lem_only(m.kids(), i, q);
                    assert(hasl(m.kids(), q, k, true) <==> hold(m.kids()[i], q, k, true));
                }
            }
            if forall|i: int| 0 <= i < m.kids().len() ==> (#[trigger] m.kids()[i]).cv()[0] != p[to] {
                assert forall|j: int, k: DataKey| to < j <= p.len() implies !#[trigger] hold(n, p.take(j), k, true) by {
                    let q = p.skip(to).take(j - to);
                    assert(q[0] == p[to]);
                    lem_none(m.kids(), q);
                    assert(!hasl(m.kids(), q, k, true));
                }
            }
        }
    }
}
/// children.iter().position(|c| c.has_common_prefix(path))
pub fn rt_position(s: &Vec<Node>, path: &Path) -> (r: Option<usize>)
    requires path.v().len() > 0, wfl(s@)
    ensures match r { Some(i) => i < s.len() && s[i as int].cv()[0] == path.v()[0], None => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cv()[0] != path.v()[0] }
{
    let mut i = 0;
    while i < s.len()
        invariant i <= s.len(), path.v().len() > 0, wfl(s@), forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).cv()[0] != path.v()[0]
        decreases s.len() - i
    {
        if s[i].has_common_prefix(path) { return Some(i); }
        i += 1;
    }
    None
}
// ---------------------------------------------------------------- changing the tree
/// `b` holds what `a` holds
pub open spec fn same(a: Node, b: Node) -> bool {
    &&& wf(b)
    &&& b.cv()[0] == a.cv()[0]
    &&& forall|q: Ps, k: DataKey, d: bool| #[trigger] hold(b, q, k, d) <==> hold(a, q, k, d)
}
/// `q` is a directory above `p`
pub open spec fn above(q: Ps, p: Ps) -> bool { q.len() < p.len() && pre(q, p) }
/// `b` holds what `a` holds, and `key` at `p`; the directories are those of `a`, those above `p`, and `p` if it is one
pub open spec fn ins(a: Node, b: Node, p: Ps, key: DataKey, ty: PathType) -> bool {
    &&& wf(b)
    &&& b.cv()[0] == a.cv()[0]
    &&& forall|q: Ps, k: DataKey| #[trigger] hold(b, q, k, false) <==> (if q == p { k == key } else { hold(a, q, k, false) })
    &&& forall|q: Ps, k: DataKey| q != p && #[trigger] hold(a, q, k, true) ==> hold(b, q, k, true)
    &&& forall|q: Ps, k: DataKey| #[trigger] hold(b, q, k, true) ==> q == p || hold(a, q, k, true) || above(q, p)
    &&& forall|q: Ps, k: DataKey| above(q, p) && #[trigger] hold(b, q, k, false) ==> hold(b, q, k, true)
    &&& (ty is Dir ==> hold(b, p, key, true))
}
pub open spec fn perm(a: Seq<Node>, b: Seq<Node>) -> bool { exists|f: Seq<int>| permuted(a, b, f) }
pub open spec fn permuted(a: Seq<Node>, b: Seq<Node>, f: Seq<int>) -> bool {
    &&& a.len() == b.len() == f.len()
    &&& forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < a.len() && b[i] == a[f[i]]
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> #[trigger] f[i] != #[trigger] f[j]
    &&& forall|x: int| 0 <= x < a.len() ==> #[trigger] f.contains(x)
}
pub open spec fn rootless(s: Seq<Node>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cv()[0] != Comp::Root }
#[verifier::external_body] // slice::sort, by Node::cmp
pub fn rt_sort(v: &mut Vec<Node>) ensures perm(old(v)@, final(v)@) { unimplemented!() }
#[verifier::external_body] // core::mem::take
pub fn rt_take(v: &mut Vec<Node>) -> (r: Vec<Node>) ensures r@ == old(v)@, final(v)@ == Seq::<Node>::empty() { unimplemented!() }
#[verifier::external_body] // core::mem::replace(component, PathBuf::new())
pub fn rt_take_path(v: &mut PathBuf) -> (r: PathBuf) ensures r.v() == old(v).v(), final(v).v() == Seq::<Comp>::empty() { unimplemented!() }
pub fn rt_vec1(n: Node) -> (r: Vec<Node>) ensures r@ == Seq::empty().push(n) { let mut v = Vec::new(); v.push(n); v }
#[verifier::external_body] // a mutable borrow of an element
pub fn rt_row(v: &mut Vec<Node>, i: usize) -> (r: &mut Node)
    requires i < old(v).len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
pub proof fn lem_perm(a: Seq<Node>, b: Seq<Node>)
    requires perm(a, b), wfl(a)
    ensures wfl(b), rootless(a) ==> rootless(b), forall|p: Ps, k: DataKey, d: bool| #[trigger] hasl(b, p, k, d) <==> hasl(a, p, k, d)
{
    let f = choose|f: Seq<int>| permuted(a, b, f);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).cv()[0] != (#[trigger] b[j]).cv()[0] by {
        assert(f[i] != f[j]);
        if f[i] < f[j] { assert(a[f[i]].cv()[0] != a[f[j]].cv()[0]); } else { assert(a[f[j]].cv()[0] != a[f[i]].cv()[0]); }
    }
    assert forall|i: int| 0 <= i < b.len() implies wf(#[trigger] b[i]) by { assert(b[i] == a[f[i]]); }
    assert forall|p: Ps, k: DataKey, d: bool| #[trigger] hasl(b, p, k, d) <==> hasl(a, p, k, d) by {
        if hasl(b, p, k, d) { let i = choose|i: int| 0 <= i < b.len() && hold(#[trigger] b[i], p, k, d); assert(hold(a[f[i]], p, k, d)); }
        if hasl(a, p, k, d) { let x = choose|x: int| 0 <= x < a.len() && hold(#[trigger] a[x], p, k, d); assert(f.contains(x)); let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(hold(b[i], p, k, d)); }
    }
    if rootless(a) { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).cv()[0] != Comp::Root by { assert(b[i] == a[f[i]]); } }
}
pub proof fn lem_wf(n: Node)
    ensures wf(n) <==> n.cv().len() > 0 && wfl(n.kids()) && rootless(n.kids())
{ }
/// a node, in one step
pub proof fn lem_has(n: Node, p: Ps, k: DataKey, d: bool)
    ensures hold(n, p, k, d) <==> pre(n.cv(), p) && if p.len() == n.cv().len() { n.dv() == Some(k) && (d ==> n is Branch) } else { hasl(n.kids(), p.skip(n.cv().len() as int), k, d) }
{
    match n {
        Node::Leaf { .. } => { }
        Node::Branch { children, .. } => { assert(n.kids() == children@); }
    }
}
/// the value of the node itself is replaced
pub proof fn lem_ins_here(a: Node, b: Node, key: DataKey, ty: PathType)
    requires wf(a), b.cv() == a.cv(), b.kids() == a.kids(), b.dv() == Some(key), a is Branch ==> b is Branch, ty is Dir ==> b is Branch
    ensures ins(a, b, a.cv(), key, ty)
{
    let p = a.cv();
    lem_wf(a); lem_wf(b);
    assert(p.take(p.len() as int) =~= p);
    assert forall|q: Ps, k: DataKey, d: bool| q != p implies (#[trigger] hold(b, q, k, d) <==> hold(a, q, k, d)) by {
        lem_has(a, q, k, d); lem_has(b, q, k, d);
        if pre(p, q) && q.len() == p.len() { assert(q.take(p.len() as int) =~= q); }
    }
    assert forall|k: DataKey, d: bool| #[trigger] hold(b, p, k, d) <==> k == key && (d ==> b is Branch) by { lem_has(b, p, k, d); }
    assert forall|q: Ps, k: DataKey| above(q, p) implies !#[trigger] hold(b, q, k, false) by { }
}
pub open spec fn stepped(a: Node, m: Node, b: Node, fm: Node, comp: Ps) -> bool {
    &&& forall|key: DataKey, ty: PathType| #[trigger] ins(m, fm, comp, key, ty) ==> ins(a, b, a.cv() + comp, key, ty)
    &&& same(m, fm) ==> same(a, b)
}
/// a child is replaced
pub proof fn lem_child(a: Node, b: Node, i: int, c2: Node, comp: Ps)
    requires wf(a), a is Branch, 0 <= i < a.kids().len(), comp.len() > 0, comps_ok(comp), comp[0] == a.kids()[i].cv()[0], b is Branch, b.cv() == a.cv(), b.dv() == a.dv(), b.kids() == a.kids().update(i, c2)
    ensures stepped(a, a.kids()[i], b, c2, comp)
{
    let s = a.kids(); let t = b.kids(); let c = a.cv(); let l = c.len() as int; let p = c + comp;
    lem_wf(a); lem_wf(b);
    assert(p.skip(l) =~= comp);
    assert(p.take(l) =~= c);
    if wf(c2) && c2.cv()[0] == s[i].cv()[0] {
        assert(wfl(t)) by { assert forall|x: int, y: int| 0 <= x < y < t.len() implies (#[trigger] t[x]).cv()[0] != (#[trigger] t[y]).cv()[0] by { assert(s[x].cv()[0] != s[y].cv()[0]); } }
        assert(rootless(t)) by { assert forall|x: int| 0 <= x < t.len() implies (#[trigger] t[x]).cv()[0] != Comp::Root by { assert(s[x].cv()[0] != Comp::Root); } }
        assert forall|q: Ps, k: DataKey, d: bool| q.len() > l && pre(c, q) implies (#[trigger] hold(b, q, k, d) <==> if q[l] == comp[0] { hold(c2, q.skip(l), k, d) } else { hold(a, q, k, d) }) && (q[l] == comp[0] ==> (hold(a, q, k, d) <==> hold(s[i], q.skip(l), k, d))) by {
            let r = q.skip(l);
            assert(r[0] == q[l]);
            lem_has(a, q, k, d); lem_has(b, q, k, d);
            if q[l] == comp[0] {
                lem_only(s, i, r); lem_only(t, i, r);
                assert(hasl(s, r, k, d) <==> hold(s[i], r, k, d));
                assert(hasl(t, r, k, d) <==> hold(t[i], r, k, d));
            } else {
                if hasl(t, r, k, d) { let x = choose|x: int| 0 <= x < t.len() && hold(#[trigger] t[x], r, k, d); lem_first(t[x], r, k, d); assert(x != i); assert(hold(s[x], r, k, d)); }
                if hasl(s, r, k, d) { let x = choose|x: int| 0 <= x < s.len() && hold(#[trigger] s[x], r, k, d); lem_first(s[x], r, k, d); assert(x != i); assert(hold(t[x], r, k, d)); }
            }
        }
        assert forall|q: Ps, k: DataKey, d: bool| !(q.len() > l && pre(c, q)) implies (#[trigger] hold(b, q, k, d) <==> hold(a, q, k, d)) by { lem_has(a, q, k, d); lem_has(b, q, k, d); }
    }
    if same(s[i], c2) {
        assert forall|q: Ps, k: DataKey, d: bool| #[trigger] hold(b, q, k, d) <==> hold(a, q, k, d) by {
            if q.len() > l && pre(c, q) { let r = q.skip(l); assert(hold(c2, r, k, d) <==> hold(s[i], r, k, d)); }
        }
    }
    assert forall|key: DataKey, ty: PathType| #[trigger] ins(s[i], c2, comp, key, ty) implies ins(a, b, p, key, ty) by {
        assert forall|q: Ps| q.len() > l && pre(c, q) implies (#[trigger] q.skip(l) == comp <==> q == p) && (above(q.skip(l), comp) <==> above(q, p)) by { lem_tail(c, q, comp); }
        assert(pre(c, p) && p.len() > l && p[l] == comp[0]);
        assert forall|q: Ps, k: DataKey| #[trigger] hold(b, q, k, false) <==> (if q == p { k == key } else { hold(a, q, k, false) }) by {
            if q.len() > l && pre(c, q) { let r = q.skip(l); assert(r[0] == q[l]); assert(hold(c2, r, k, false) <==> (if r == comp { k == key } else { hold(s[i], r, k, false) })); }
        }
        assert forall|q: Ps, k: DataKey| q != p && #[trigger] hold(a, q, k, true) implies hold(b, q, k, true) by {
            if q.len() > l && pre(c, q) { let r = q.skip(l); assert(r != comp); assert(hold(s[i], r, k, true) ==> hold(c2, r, k, true)); assert(hold(b, q, k, true)); } else { assert(hold(b, q, k, true)); }
        }
        assert forall|q: Ps, k: DataKey| #[trigger] hold(b, q, k, true) implies q == p || hold(a, q, k, true) || above(q, p) by {
            if q.len() > l && pre(c, q) { let r = q.skip(l); assert(hold(c2, r, k, true) ==> r == comp || hold(s[i], r, k, true) || above(r, comp)); }
        }
        assert forall|q: Ps, k: DataKey| above(q, p) && #[trigger] hold(b, q, k, false) implies hold(b, q, k, true) by {
            lem_has(b, q, k, false); lem_has(b, q, k, true);
            if q.len() > l && pre(c, q) {
                let r = q.skip(l);
                assert(above(r, comp));
                lem_pre(r, comp); assert(r[0] == q[l]);
                assert(hold(c2, r, k, false) ==> hold(c2, r, k, true));
                assert(hold(b, q, k, true));
            }
        }
        if ty is Dir { assert(hold(c2, comp, key, true)); assert(hold(b, p, key, true)); }
    }
}
pub proof fn lem_tail(c: Ps, q: Ps, comp: Ps)
    requires q.len() > c.len(), pre(c, q)
    ensures q.skip(c.len() as int) == comp <==> q == c + comp, above(q.skip(c.len() as int), comp) <==> above(q, c + comp)
{
    let l = c.len() as int; let r = q.skip(l); let p = c + comp;
    assert(q =~= c + r);
    assert(p.skip(l) =~= comp);
    if above(r, comp) { assert(p.take(q.len() as int) =~= c + comp.take(r.len() as int)); }
    if above(q, p) { assert(comp.take(r.len() as int) =~= p.take(q.len() as int).skip(l)); }
}
/// a child is added
pub proof fn lem_ins_new(a: Node, b: Node, comp: Ps, x: Node, key: DataKey, ty: PathType)
    requires
        wf(a), comp.len() > 0, comp[0] != Comp::Root, b is Branch, b.cv() == a.cv(), b.dv() == a.dv(), perm(a.kids().push(x), b.kids()),
        x.cv() == comp, x.dv() == Some(key), x.kids() == Seq::<Node>::empty(), ty is Dir ==> x is Branch, forall|i: int| 0 <= i < a.kids().len() ==> (#[trigger] a.kids()[i]).cv()[0] != comp[0],
    ensures ins(a, b, a.cv() + comp, key, ty)
{
    let s = a.kids(); let u = s.push(x); let t = b.kids(); let c = a.cv(); let l = c.len() as int; let p = c + comp;
    lem_wf(a); lem_wf(b); lem_wf(x);
    assert(p.skip(l) =~= comp);
    assert(p.take(l) =~= c);
    assert(wfl(u)) by { assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).cv()[0] != (#[trigger] u[j]).cv()[0] by { if j == s.len() { assert(s[i].cv()[0] != comp[0]); } else { assert(s[i].cv()[0] != s[j].cv()[0]); } } }
    assert(rootless(u)) by { assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).cv()[0] != Comp::Root by { if i < s.len() { assert(s[i].cv()[0] != Comp::Root); } } }
    lem_perm(u, t);
    assert forall|q: Ps, k: DataKey, d: bool| #[trigger] hold(x, q, k, d) <==> q == comp && k == key && (d ==> x is Branch) by {
        lem_has(x, q, k, d);
        if pre(comp, q) && q.len() == comp.len() { assert(q.take(comp.len() as int) =~= q); }
        assert(comp.take(comp.len() as int) =~= comp);
    }
    assert forall|q: Ps, k: DataKey, d: bool| #[trigger] hasl(u, q, k, d) <==> hasl(s, q, k, d) || hold(x, q, k, d) by {
        if hasl(u, q, k, d) { let i = choose|i: int| 0 <= i < u.len() && hold(#[trigger] u[i], q, k, d); if i < s.len() { assert(hold(s[i], q, k, d)); } }
        if hasl(s, q, k, d) { let i = choose|i: int| 0 <= i < s.len() && hold(#[trigger] s[i], q, k, d); assert(hold(u[i], q, k, d)); }
        if hold(x, q, k, d) { assert(hold(u[s.len() as int], q, k, d)); }
    }
    lem_none(s, comp);
    assert forall|q: Ps, k: DataKey, d: bool| q.len() > l && pre(c, q) implies (#[trigger] hold(b, q, k, d) <==> if q == p { k == key && (d ==> x is Branch) } else { hold(a, q, k, d) }) && (q == p ==> !hold(a, q, k, d)) by {
        lem_has(a, q, k, d); lem_has(b, q, k, d); lem_tail(c, q, comp);
        let r = q.skip(l);
        assert(hasl(t, r, k, d) <==> hasl(u, r, k, d));
        if r == comp { assert(!hasl(s, r, k, d)); }
    }
    assert forall|q: Ps, k: DataKey, d: bool| !(q.len() > l && pre(c, q)) implies (#[trigger] hold(b, q, k, d) <==> hold(a, q, k, false) && (d ==> hold(b, q, k, true))) by { lem_has(a, q, k, d); lem_has(b, q, k, d); lem_has(a, q, k, false); lem_has(b, q, k, true); }
    assert forall|q: Ps, k: DataKey| q != p && #[trigger] hold(a, q, k, true) implies hold(b, q, k, true) by { lem_has(a, q, k, true); lem_has(b, q, k, true); }
    assert forall|q: Ps, k: DataKey| #[trigger] hold(b, q, k, true) implies q == p || hold(a, q, k, true) || above(q, p) by {
        lem_has(b, q, k, true);
        if !(q.len() > l && pre(c, q)) { assert(q.take(l) =~= q); assert(q == c); }
    }
    assert forall|q: Ps, k: DataKey| above(q, p) && #[trigger] hold(b, q, k, false) implies hold(b, q, k, true) by {
        lem_has(b, q, k, false); lem_has(b, q, k, true);
        if q.len() > l && pre(c, q) {
            lem_tail(c, q, comp);
            let r = q.skip(l);
            lem_pre(r, comp);
            assert(hasl(s, r, k, false));
            let i = choose|i: int| 0 <= i < s.len() && hold(#[trigger] s[i], r, k, false);
            lem_first(s[i], r, k, false);
        }
    }
}
pub proof fn lem_same_ins(a: Node, m: Node, b: Node, p: Ps, key: DataKey, ty: PathType)
    requires same(a, m), ins(m, b, p, key, ty)
    ensures ins(a, b, p, key, ty)
{
    assert forall|q: Ps, k: DataKey| q != p && #[trigger] hold(a, q, k, true) implies hold(b, q, k, true) by { assert(hold(m, q, k, true)); }
    assert forall|q: Ps, k: DataKey| #[trigger] hold(b, q, k, false) <==> (if q == p { k == key } else { hold(a, q, k, false) }) by { assert(hold(m, q, k, false) <==> hold(a, q, k, false)); }
    assert forall|q: Ps, k: DataKey| #[trigger] hold(b, q, k, true) implies q == p || hold(a, q, k, true) || above(q, p) by { assert(hold(m, q, k, true) <==> hold(a, q, k, true)); }
}
pub open spec fn fresh(x: Node, comp: Ps, ty: PathType, data: Option<DataKey>) -> bool { x.cv() == comp && x.dv() == data && x.kids() == Seq::<Node>::empty() && (x is Branch <==> ty is Dir) }
/// splitting a node changes nothing
pub proof fn lem_split(a: Node, b: Node, c: Ps, x: Node)
    requires wf(a), comps_ok(a.cv()), 0 < c.len() < a.cv().len(), pre(c, a.cv()), b is Branch, b.cv() == c, b.dv() is None, b.kids() == Seq::empty().push(x), x.cv() == a.cv().skip(c.len() as int), x.dv() == a.dv(), x.kids() == a.kids(), x is Branch <==> a is Branch
    ensures same(a, b)
{
    lem_wf(a); lem_wf(b); lem_wf(x);
    let l = c.len() as int;
    lem_pre(c, a.cv());
    assert(x.cv()[0] == a.cv()[l]);
    assert forall|q: Ps, k: DataKey, d: bool| #[trigger] hold(b, q, k, d) <==> hold(a, q, k, d) by {
        lem_has(a, q, k, d); lem_has(b, q, k, d);
        let r = q.skip(l);
        if q.len() > l {
            lem_has(x, r, k, d);
            assert(hasl(b.kids(), r, k, d) <==> hold(x, r, k, d)) by { if hold(x, r, k, d) { assert(hold(b.kids()[0], r, k, d)); } }
            if pre(a.cv(), q) { assert(q.take(l) =~= q.take(a.cv().len() as int).take(l)); assert(r.take(x.cv().len() as int) =~= q.take(a.cv().len() as int).skip(l)); assert(r.skip(x.cv().len() as int) =~= q.skip(a.cv().len() as int)); }
            if pre(c, q) && pre(x.cv(), r) { assert(q.take(a.cv().len() as int) =~= c + x.cv()); assert(a.cv() =~= c + x.cv()); assert(r.skip(x.cv().len() as int) =~= q.skip(a.cv().len() as int)); }
        }
    }
}
impl Node {
//@@ fn core/src/fs/path_tree.rs :: impl Node :: component
//@@ ret r
//@@ spec
    ensures r.v() == self.cv(),
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: data
//@@ ret r
//@@ spec
    ensures r == self.dv(),
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: common_prefix
//@@ ret r
//@@ pre `assert_ne!($x);` => ``
//@@ pre `common_prefix.push($c);` => `common_prefix.rt_push($c);`
//@@ pre `Path::new("")` => `rt_empty()`
//@@ pre `common_prefix == $e` => `&common_prefix == $e`
//@@ pre `break $x,` => `return $x,`
//@@ pre `break None;` => `return None;`
//@@ pre `break Some($x);` => `return Some($x);`
//@@ spec
    requires self.cv().len() > 0, path.v().len() > 0,
    ensures match r {
        None => self.cv()[0] != path.v()[0],
        Some(Prefix::Exact) => self.cv() == path.v(),
        Some(Prefix::Child) => pre(self.cv(), path.v()) && self.cv().len() < path.v().len(),
        Some(Prefix::Ancestor) => pre(path.v(), self.cv()) && path.v().len() < self.cv().len(),
        Some(Prefix::Partial(c)) => 0 < c.v().len() < self.cv().len() && c.v().len() < path.v().len() && pre(c.v(), self.cv()) && pre(c.v(), path.v()) && self.cv()[c.v().len() as int] != path.v()[c.v().len() as int],
    },
//@@ at entry
    let ghost mut j: int = 0;
    broadcast use path_ok;
//@@ loop 0
    invariant
        self.cv().len() > 0, path.v().len() > 0, 0 <= j <= self.cv().len(), j <= path.v().len(), comps_ok(self.cv()), comps_ok(path.v()),
        ac.v() == self.cv().skip(j), bc.v() == path.v().skip(j), self.cv().take(j) == path.v().take(j), common_prefix.v() == self.cv().take(j),
    decreases self.cv().len() - j,
//@@ at loop 0 start
    proof {
        let a = self.cv(); let b = path.v();
        if j == a.len() { assert(a.take(j) =~= a); }
        if j == b.len() { assert(b.take(j) =~= b); }
        if j < a.len() && j < b.len() {
            assert(a.skip(j)[0] == a[j] && b.skip(j)[0] == b[j]);
            assert(a.skip(j).skip(1) =~= a.skip(j + 1));
            assert(b.skip(j).skip(1) =~= b.skip(j + 1));
            assert(a.take(j + 1) =~= a.take(j).push(a[j]));
            assert(b.take(j + 1) =~= b.take(j).push(b[j]));
            assert(a.take(j).push(a[j]) =~= a.take(j) + Seq::empty().push(a[j]));
            if j == 0 { assert(a.take(0) =~= Seq::empty()); assert(Seq::empty().push(a[0]) =~= a.take(0) + Seq::empty().push(a[0])); }
            assert(pre(a.take(j), a) && pre(a.take(j), b));
        }
    }
//@@ at after `common_prefix.rt_push(a);`
    proof { j = j + 1; }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: has_common_prefix
//@@ ret r
//@@ pre `assert_ne!($x);` => ``
//@@ pre `break true,` => `return true,`
//@@ pre `break has_minimum_prefix,` => `return has_minimum_prefix,`
//@@ spec
    requires self.cv().len() > 0, path.v().len() > 0,
    ensures r == (self.cv()[0] == path.v()[0]),
//@@ at entry
    let ghost mut j: int = 0;
//@@ loop 0
    invariant
        self.cv().len() > 0, path.v().len() > 0, 0 <= j <= self.cv().len(), j <= path.v().len(),
        ac.v() == self.cv().skip(j), bc.v() == path.v().skip(j), j > 0 ==> self.cv()[0] == path.v()[0], has_minimum_prefix == (j > 0),
    decreases self.cv().len() - j,
//@@ at loop 0 start
    proof {
        let a = self.cv(); let b = path.v();
        if j < a.len() { assert(a.skip(j)[0] == a[j]); assert(a.skip(j).skip(1) =~= a.skip(j + 1)); }
        if j < b.len() { assert(b.skip(j)[0] == b[j]); assert(b.skip(j).skip(1) =~= b.skip(j + 1)); }
    }
//@@ at after `has_minimum_prefix = true;`
    proof { j = j + 1; }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: contains
//@@ ret r
//@@ sub? `mut path` => `path0`
//@@ pre `while let Some(node) = next.take() {` => `loop { let node = match next.take() { Some(node) => node, None => break };`
//@@ pre `Path::new("")` => `rt_empty()`
//@@ pre `children.iter().position(|$c| $c.has_common_prefix($p))` => `rt_position(children, $p)`
//@@ spec
    requires wf(*self), path0.v().len() > 0,
    ensures r == exists|k: DataKey| hold(*self, path0.v(), k, false),
//@@ at entry
    let mut path = path0;
    let ghost p0 = path0.v();
//@@ loop 0
    invariant_except_break
        next matches Some(n) && wf(*n) && path.v().len() > 0 && forall|k: DataKey| #[trigger] hold(*self, p0, k, false) <==> hold(*n, path.v(), k, false),
    invariant
        wf(*self), p0.len() > 0, p0 == path0.v(),
    ensures
        forall|k: DataKey| !#[trigger] hold(*self, p0, k, false),
    decreases (if next is Some { 1int } else { 0 }), (match next { Some(n) => *n, None => *self }),
//@@ at after `let node = $x;`
    proof { lem_step(*node, path.v()); if path.v() == node.cv() { assert(path.v().take(node.cv().len() as int) =~= path.v()); } if let Some(k) = node.dv() { assert(hold(*self, p0, k, false) <==> hold(*node, path.v(), k, false)); } }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: get
//@@ ret r
//@@ sub? `mut path` => `path0`
//@@ pre `while let Some(node) = next.take() {` => `loop { let node = match next.take() { Some(node) => node, None => break };`
//@@ pre `Path::new("")` => `rt_empty()`
//@@ pre `children.iter().position(|$c| $c.has_common_prefix($p))` => `rt_position(children, $p)`
//@@ spec
    requires wf(*self), path0.v().len() > 0,
    ensures match r { Some(n) => forall|k: DataKey, d: bool| #[trigger] hold(*self, path0.v(), k, d) <==> n.dv() == Some(k) && (d ==> *n is Branch), None => forall|k: DataKey, d: bool| !#[trigger] hold(*self, path0.v(), k, d) },
//@@ at entry
    let mut path = path0;
    let ghost p0 = path0.v();
//@@ loop 0
    invariant
        wf(*self), p0.len() > 0, p0 == path0.v(), path.v().len() > 0,
        next matches Some(n) ==> wf(*n) && forall|k: DataKey, d: bool| #[trigger] hold(*self, p0, k, d) <==> hold(*n, path.v(), k, d),
        next is None ==> forall|k: DataKey, d: bool| !#[trigger] hold(*self, p0, k, d),
    ensures
        forall|k: DataKey, d: bool| !#[trigger] hold(*self, p0, k, d),
    decreases (if next is Some { 1int } else { 0 }), (match next { Some(n) => *n, None => *self }),
//@@ at after `let node = $x;`
    proof { lem_step(*node, path.v()); if path.v() == node.cv() { assert(path.v().take(node.cv().len() as int) =~= path.v()); } }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: nearest_ancestor
//@@ ret r
//@@ sub? `mut path` => `path0`
//@@ pre `use smallvec::SmallVec;` => ``
//@@ pre `SmallVec::<[(PathBuf, DataKey); 2]>::default()` => `Vec::<(PathBuf, DataKey)>::new()`
//@@ pre `while let Some(node) = next.take() {` => `loop { let node = match next.take() { Some(node) => node, None => break };`
//@@ pre `Path::new("")` => `rt_empty()`
//@@ pre `children.iter().position(|$c| $c.has_common_prefix($p))` => `rt_position(children, $p)`
//@@ pre `return data.map(|$d| $e).or_else(|| $f);` => `return match *data { Some($d) => Some($e), None => $f };`
//@@ spec
    requires wf(*self), path0.v().len() > 0,
    ensures nearest(*self, path0.v(), path0.v().len() as int, vk(r)),
//@@ at entry
    let mut path = path0;
    let ghost p0 = path0.v();
    let ghost mut at: int = 0;
    broadcast use path_ok;
    proof {
        assert(p0.skip(0) =~= p0);
        assert(p0.take(0) =~= Seq::<Comp>::empty());
        assert forall|k: DataKey| !#[trigger] hold(*self, p0.take(0), k, true) by { if hold(*self, p0.take(0), k, true) { lem_first(*self, p0.take(0), k, true); } }
        assert(below(*self, *self, p0, 0)) by { assert forall|j: int, k: DataKey| 0 < j <= p0.len() implies (#[trigger] hold(*self, p0.take(j), k, true) <==> hold(*self, p0.skip(0).take(j - 0), k, true)) by { } }
    }
//@@ loop 0
    invariant_except_break
        next matches Some(n) && wf(*n) && path.v().len() > 0 && n.cv()[0] == path.v()[0] && below(*self, *n, p0, at),
    invariant
        wf(*self), p0.len() > 0, p0 == path0.v(), 0 <= at < p0.len(), path.v() == p0.skip(at), ancestor.v() == p0.take(at), comps_ok(p0),
        nearest(*self, p0, at + 1, last_of(candidates@)),
        next matches Some(n) ==> at > 0 ==> n.cv()[0] != Comp::Root,
    ensures
        false,
    decreases (if next is Some { 1int } else { 0 }), (match next { Some(n) => *n, None => *self }),
//@@ at after `let node = $x;`
    proof { lem_step(*node, path.v()); lem_down(*self, *node, p0, at, last_of(candidates@)); }
//@@ at after `ancestor.push(component);`
    proof {
        let l = node.cv().len() as int;
        assert(p0.take(at) + p0.skip(at).take(l) =~= p0.take(at + l));
        if at == 0 { assert(p0.take(0) =~= Seq::<Comp>::empty()); assert(Seq::<Comp>::empty() + p0.skip(at).take(l) =~= p0.skip(at).take(l)); }
        assert(p0.skip(at).skip(l) =~= p0.skip(at + l));
        assert(ancestor.v() == p0.take(at + l));
    }
//@@ at after `path = rest;`
    proof { at = at + node.cv().len(); assert(p0.skip(at)[0] == p0[at]); }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: take
//@@ ret r
//@@ pre `core::mem::take($x)` => `rt_take($x)`
//@@ spec
    requires pre(prefix.v(), old(self).cv()),
    ensures r.cv() == old(self).cv().skip(prefix.v().len() as int), r.dv() == old(self).dv(), r.kids() == old(self).kids(), r is Branch <==> *old(self) is Branch,
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: split_at
//@@ pre `vec![$x]` => `rt_vec1($x)`
//@@ spec
    requires wf(*old(self)), 0 < common_prefix.v().len() < old(self).cv().len(), pre(common_prefix.v(), old(self).cv()),
    ensures same(*old(self), *final(self)), *final(self) is Branch, final(self).cv() == common_prefix.v(), final(self).kids().len() == 1, final(self).kids()[0].cv() == old(self).cv().skip(common_prefix.v().len() as int),
//@@ at entry
    let ghost a0 = *self;
    let ghost c0 = common_prefix.v();
    broadcast use path_ok;
//@@ at after `let split = $x;`
    let ghost x0 = split;
//@@ at end
    proof { lem_split(a0, *self, c0, x0); }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: set_type
//@@ ret r
//@@ pre `core::mem::replace(component, PathBuf::new())` => `rt_take_path(component)`
//@@ pre `vec![]` => `Vec::new()`
//@@ spec
    ensures
        r is Ok ==> final(self).cv() == old(self).cv() && final(self).dv() == old(self).dv() && final(self).kids() == old(self).kids() && (*old(self) is Branch ==> *final(self) is Branch) && (ty is Dir ==> *final(self) is Branch),
        r is Err ==> *final(self) == *old(self) && ty is File && *old(self) is Branch,
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: set_data
//@@ pre `Self::Branch { data: $x, .. } | Self::Leaf { data: $y, .. } => { $B }` => `Self::Branch { data: $x, .. } => { $B } Self::Leaf { data: $y, .. } => { $B }`
//@@ spec
    ensures final(self).cv() == old(self).cv(), final(self).dv() == Some(data), final(self).kids() == old(self).kids(), *old(self) is Branch <==> *final(self) is Branch,
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: push_child
//@@ ret r
//@@ pre `core::mem::replace(parent_component, PathBuf::new())` => `rt_take_path(parent_component)`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `vec![child]` => `rt_vec1(child)`
//@@ pre `children.sort();` => `rt_sort(children);`
//@@ spec
    requires wf(*old(self)), component.v().len() > 0, component.v()[0] != Comp::Root, forall|i: int| 0 <= i < old(self).kids().len() ==> (#[trigger] old(self).kids()[i]).cv()[0] != component.v()[0], *old(self) is Branch,
    ensures r is Ok, data matches Some(key) ==> ins(*old(self), *final(self), old(self).cv() + component.v(), key, ty),
//@@ at entry
    let ghost a0 = *self;
    let ghost c0 = component.v();
//@@ at before `match self`
    let ghost x0 = child;
//@@ at before `Ok(())`
    proof { if let Some(key) = data { lem_ins_new(a0, *self, c0, x0, key, ty); } }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Node :: try_insert_new
//@@ ret r
//@@ pre `core::mem::replace(parent_component, PathBuf::new())` => `rt_take_path(parent_component)`
//@@ pre `children.iter().position(|$c| $c.has_common_prefix($p))` => `rt_position(children, $p)`
//@@ pre `&mut children[index]` => `rt_row(children, index)`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `vec![child]` => `rt_vec1(child)`
//@@ pre `children.sort();` => `rt_sort(children);`
//@@ spec
    requires wf(*old(self)), component.v().len() > 0, component.v()[0] != Comp::Root,
    ensures match r {
        Left(Ok(_)) => data matches Some(key) ==> ins(*old(self), *final(self), old(self).cv() + component.v(), key, ty),
        Left(Err(_)) => *final(self) == *old(self),
        Right(m) => wf(*m) && m.cv()[0] == component.v()[0] && stepped(*old(self), *m, *final(self), *final(m), component.v()),
    },
//@@ at entry
    let ghost a0 = *self;
    let ghost c0 = component.v();
    let ghost d0 = data;
    broadcast use path_ok;
    proof { lem_wf(a0); }
//@@ at before `return Right($x);`
    proof {
        assert forall|b: Node, c2: Node| b is Branch && b.cv() == a0.cv() && b.dv() == a0.dv() && b.kids() == a0.kids().update(index as int, c2) implies #[trigger] stepped(a0, a0.kids()[index as int], b, c2, c0) by { lem_child(a0, b, index as int, c2, c0); }
    }
//@@ at before `children.push(child);`
    let ghost x0 = child;
//@@ at before `Left(Ok(()))`#0
    proof {
        let s1 = children@;
        if let Some(key) = d0 {
            assert forall|b: Node| b is Branch && b.cv() == a0.cv() && b.dv() == a0.dv() && b.kids() == s1 implies #[trigger] ins(a0, b, a0.cv() + c0, key, ty) by { lem_ins_new(a0, b, c0, x0, key, ty); }
        }
    }
//@@ at before `let children = $x;`
    let ghost x1 = child;
//@@ at before `Left(Ok(()))`#1
    proof {
        let f = Seq::empty().push(0int);
        assert(a0.kids().push(x1) =~= self.kids());
        assert(permuted(a0.kids().push(x1), self.kids(), f)) by { assert(f[0] == 0 && f.contains(0)); }
        if let Some(key) = d0 { lem_ins_new(a0, *self, c0, x1, key, ty); }
    }
//@@ end
}
pub open spec fn onward(a: Node, b: Node, p: Ps, m: Node, fm: Node, q: Ps, key: DataKey, ty: PathType) -> bool {
    &&& ins(m, fm, q, key, ty) ==> ins(a, b, p, key, ty)
    &&& same(m, fm) ==> same(a, b)
}
//@@ fn core/src/fs/path_tree.rs :: insert_into_prefix
//@@ ret r
//@@ sub? `mut path` => `path0`
//@@ pre `break Ok($x);` => `return Ok($x);`
//@@ pre `(node, 0)` => `(node, 0usize)`
//@@ spec
    requires wf(*old(node)), path0.v().len() > 0, path0.v()[0] == old(node).cv()[0],
    ensures match r { Ok(_) => ins(*old(node), *final(node), path0.v(), data, ty), Err(_) => same(*old(node), *final(node)) },
//@@ at entry
    let mut path = path0;
    broadcast use path_ok;
//@@ loop 0
    invariant
        path0.v().len() <= isize::MAX,
        next matches Some((m, depth)) && wf(*m) && path.v().len() > 0 && m.cv()[0] == path.v()[0] && depth + path.v().len() <= path0.v().len()
            && onward(*old(node), *final(node), path0.v(), *m, *final(m), path.v(), data, ty),
    decreases path.v().len(),
//@@ at loop 0 start
    broadcast use path_ok;
    let ghost q0 = path.v();
//@@ at after `let (node, depth) = $x;`
    let ghost m0 = *node;
//@@ at before `return Ok(depth);`#0
    proof { lem_ins_here(m0, *node, data, ty); }
//@@ at after `path = $x;`
    proof { lem_pre(m0.cv(), q0); assert(q0 =~= m0.cv() + path.v()); assert(path.v()[0] == q0[m0.cv().len() as int]); }
//@@ at before `node.set_data(data);`#1
    let ghost m1 = *node;
//@@ at before `return Ok(depth);`#1
    proof { lem_ins_here(m1, *node, data, ty); lem_same_ins(m0, m1, *node, q0, data, ty); }
//@@ at after `let component = $x;`
    let ghost c1 = component.v(); let ghost c0 = common_prefix.v();
    proof { assert(q0 =~= c0 + c1); assert(c1[0] == q0[c0.len() as int]); assert(m0.cv().skip(c0.len() as int)[0] == m0.cv()[c0.len() as int]); }
//@@ at before `node.push_child($x)?;`
    let ghost m1 = *node;
//@@ at before `return Ok(depth);`#2
    proof { lem_same_ins(m0, m1, *node, q0, data, ty); }
//@@ end
// ---------------------------------------------------------------- the forest
pub uninterp spec fn canon(p: Ps) -> Ps;
pub uninterp spec fn kind_of(p: Ps) -> PathType;
#[verifier::external_body] // the path as the file system knows it, or normalised lexically; bounded: the search
pub fn canonicalize_and_type(path: &Path) -> (r: (PathBuf, PathType)) ensures r.0.v() == canon(path.v()), r.1 == kind_of(path.v()) { unimplemented!() }
pub open spec fn insl(a: Seq<Node>, b: Seq<Node>, p: Ps, key: DataKey, ty: PathType) -> bool {
    &&& wfl(b)
    &&& forall|q: Ps, k: DataKey| #[trigger] hasl(b, q, k, false) <==> (if q == p { k == key } else { hasl(a, q, k, false) })
    &&& forall|q: Ps, k: DataKey| q != p && #[trigger] hasl(a, q, k, true) ==> hasl(b, q, k, true)
    &&& forall|q: Ps, k: DataKey| #[trigger] hasl(b, q, k, true) ==> q == p || hasl(a, q, k, true) || above(q, p)
    &&& forall|q: Ps, k: DataKey| above(q, p) && #[trigger] hasl(b, q, k, false) ==> hasl(b, q, k, true)
    &&& (ty is Dir ==> hasl(b, p, key, true))
}
pub open spec fn samel(a: Seq<Node>, b: Seq<Node>) -> bool { wfl(b) && forall|q: Ps, k: DataKey, d: bool| #[trigger] hasl(b, q, k, d) <==> hasl(a, q, k, d) }
pub open spec fn rooted(a: Seq<Node>, i: int, b: Seq<Node>, x: Node, p: Ps) -> bool {
    &&& forall|key: DataKey, ty: PathType| #[trigger] ins(a[i], x, p, key, ty) ==> insl(a, b, p, key, ty)
    &&& same(a[i], x) ==> samel(a, b)
}
pub proof fn lem_root(s: Seq<Node>, i: int, x: Node, p: Ps)
    requires wfl(s), 0 <= i < s.len(), p.len() > 0, p[0] == s[i].cv()[0]
    ensures rooted(s, i, s.update(i, x), x, p)
{
    let t = s.update(i, x);
    if wf(x) && x.cv()[0] == s[i].cv()[0] {
        assert(wfl(t)) by { assert forall|y: int, z: int| 0 <= y < z < t.len() implies (#[trigger] t[y]).cv()[0] != (#[trigger] t[z]).cv()[0] by { assert(s[y].cv()[0] != s[z].cv()[0]); } }
        assert forall|q: Ps, k: DataKey, d: bool| #[trigger] hasl(t, q, k, d) <==> (if q.len() > 0 && q[0] == p[0] { hold(x, q, k, d) } else { hasl(s, q, k, d) }) by {
            if q.len() > 0 && q[0] == p[0] { lem_only(t, i, q); assert(hasl(t, q, k, d) <==> hold(t[i], q, k, d)); } else {
                if hasl(t, q, k, d) { let j = choose|j: int| 0 <= j < t.len() && hold(#[trigger] t[j], q, k, d); lem_first(t[j], q, k, d); assert(j != i); assert(hold(s[j], q, k, d)); }
                if hasl(s, q, k, d) { let j = choose|j: int| 0 <= j < s.len() && hold(#[trigger] s[j], q, k, d); lem_first(s[j], q, k, d); assert(j != i); assert(hold(t[j], q, k, d)); }
            }
        }
        assert forall|q: Ps, k: DataKey, d: bool| q.len() > 0 && q[0] == p[0] implies (#[trigger] hasl(s, q, k, d) <==> hold(s[i], q, k, d)) by { lem_only(s, i, q); }
        assert forall|key: DataKey, ty: PathType| #[trigger] ins(s[i], x, p, key, ty) implies insl(s, t, p, key, ty) by {
            assert forall|q: Ps, k: DataKey| #[trigger] hasl(t, q, k, false) <==> (if q == p { k == key } else { hasl(s, q, k, false) }) by { assert(hold(x, q, k, false) <==> (if q == p { k == key } else { hold(s[i], q, k, false) })); }
            assert forall|q: Ps, k: DataKey| q != p && #[trigger] hasl(s, q, k, true) implies hasl(t, q, k, true) by { assert(hold(s[i], q, k, true) ==> hold(x, q, k, true)); assert(hasl(t, q, k, true) <==> (if q.len() > 0 && q[0] == p[0] { hold(x, q, k, true) } else { hasl(s, q, k, true) })); }
            assert forall|q: Ps, k: DataKey| #[trigger] hasl(t, q, k, true) implies q == p || hasl(s, q, k, true) || above(q, p) by { assert(hold(x, q, k, true) ==> q == p || hold(s[i], q, k, true) || above(q, p)); }
            assert forall|q: Ps, k: DataKey| above(q, p) && #[trigger] hasl(t, q, k, false) implies hasl(t, q, k, true) by {
                if q.len() > 0 { lem_pre(q, p); assert(hold(x, q, k, false) ==> hold(x, q, k, true)); assert(hasl(t, q, k, true) <==> hold(x, q, k, true)); }
                else { let j = choose|j: int| 0 <= j < s.len() && hold(#[trigger] s[j], q, k, false); lem_first(s[j], q, k, false); }
            }
            if ty is Dir { assert(hold(x, p, key, true)); assert(hasl(t, p, key, true)); }
        }
        if same(s[i], x) { assert forall|q: Ps, k: DataKey, d: bool| #[trigger] hasl(t, q, k, d) <==> hasl(s, q, k, d) by { assert(hold(x, q, k, d) <==> hold(s[i], q, k, d)); } }
    }
}
/// `x` holds `p` and nothing else
pub open spec fn lone(x: Node, p: Ps, key: DataKey, ty: PathType) -> bool {
    wf(x) && x.cv()[0] == p[0] && forall|q: Ps, k: DataKey, d: bool| #[trigger] hold(x, q, k, d) <==> q == p && k == key && (d ==> ty is Dir)
}
pub proof fn lem_new_root(s: Seq<Node>, x: Node, t: Seq<Node>, p: Ps, key: DataKey, ty: PathType)
    requires wfl(s), p.len() > 0, lone(x, p, key, ty), perm(s.push(x), t), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cv()[0] != p[0]
    ensures insl(s, t, p, key, ty)
{
    let u = s.push(x);
    assert(wfl(u)) by {
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).cv()[0] != (#[trigger] u[j]).cv()[0] by { if j == s.len() { assert(s[i].cv()[0] != p[0]); } else { assert(s[i].cv()[0] != s[j].cv()[0]); } }
        assert forall|i: int| 0 <= i < u.len() implies wf(#[trigger] u[i]) by { if i < s.len() { assert(u[i] == s[i]); } }
    }
    lem_perm(u, t);
    lem_none(s, p);
    assert forall|q: Ps, k: DataKey, d: bool| #[trigger] hasl(t, q, k, d) <==> (if q == p { k == key && (d ==> ty is Dir) } else { hasl(s, q, k, d) }) by {
        assert(hasl(t, q, k, d) <==> hasl(u, q, k, d));
        if hasl(u, q, k, d) { let i = choose|i: int| 0 <= i < u.len() && hold(#[trigger] u[i], q, k, d); if i < s.len() { assert(hold(s[i], q, k, d)); assert(hasl(s, q, k, d)); } }
        if hasl(s, q, k, d) { let i = choose|i: int| 0 <= i < s.len() && hold(#[trigger] s[i], q, k, d); assert(hold(u[i], q, k, d)); }
        if hold(x, q, k, d) { assert(hold(u[s.len() as int], q, k, d)); }
        if q == p { assert(!hasl(s, p, k, d)); assert(hold(x, q, k, d) <==> k == key && (d ==> ty is Dir)); }
    }
    assert forall|q: Ps, k: DataKey| above(q, p) && #[trigger] hasl(t, q, k, false) implies hasl(t, q, k, true) by {
        let i = choose|i: int| 0 <= i < s.len() && hold(#[trigger] s[i], q, k, false);
        lem_first(s[i], q, k, false); lem_pre(q, p);
    }
    assert forall|q: Ps, k: DataKey| q != p && #[trigger] hasl(s, q, k, true) implies hasl(t, q, k, true) by { assert(hasl(t, q, k, true) <==> hasl(s, q, k, true)); }
}
pub proof fn lem_lone_node(x: Node, p: Ps, key: DataKey, ty: PathType)
    requires p.len() > 0, x.cv() == p, x.dv() == Some(key), x.kids() == Seq::<Node>::empty(), x is Branch <==> ty is Dir
    ensures lone(x, p, key, ty)
{
    lem_wf(x);
    assert(p.take(p.len() as int) =~= p);
    assert forall|q: Ps, k: DataKey, d: bool| #[trigger] hold(x, q, k, d) <==> q == p && k == key && (d ==> ty is Dir) by { lem_has(x, q, k, d); if pre(p, q) && q.len() == p.len() { assert(q.take(p.len() as int) =~= q); } }
}
pub proof fn lem_lone_child(x: Node, y: Node, p: Ps, key: DataKey, ty: PathType)
    requires p.len() > 1, comps_ok(p), x is Branch, x.cv() == p.drop_last(), x.dv() is None, x.kids() == Seq::empty().push(y), y.cv() == Seq::empty().push(p.last()), y.dv() == Some(key), y is Leaf, !(ty is Dir)
    ensures lone(x, p, key, ty)
{
    lem_lone_node(y, Seq::empty().push(p.last()), key, ty);
    lem_wf(x);
    let c = p.drop_last(); let l = c.len() as int;
    assert(y.cv()[0] == p[p.len() - 1]);
    assert(p.take(l) =~= c); assert(p.skip(l) =~= y.cv()); assert(p =~= c + y.cv());
    assert forall|q: Ps, k: DataKey, d: bool| #[trigger] hold(x, q, k, d) <==> q == p && k == key && (d ==> ty is Dir) by {
        lem_has(x, q, k, d);
        if pre(c, q) && q.len() > l {
            let r = q.skip(l);
            lem_tail(c, q, y.cv());
            assert(hasl(x.kids(), r, k, d) <==> hold(y, r, k, d)) by { if hold(y, r, k, d) { assert(hold(x.kids()[0], r, k, d)); } }
        }
    }
}
pub open spec fn nearestl(s: Seq<Node>, p: Ps, to: int, r: Option<(Ps, DataKey)>) -> bool {
    match r {
        None => forall|j: int, k: DataKey| 0 <= j < to ==> !#[trigger] hasl(s, p.take(j), k, true),
        Some((q, k)) => q.len() < to && q == p.take(q.len() as int) && hasl(s, q, k, true) && forall|j: int, k: DataKey| q.len() < j < to ==> !#[trigger] hasl(s, p.take(j), k, true),
    }
}
pub proof fn lem_nearestl(s: Seq<Node>, i: int, p: Ps, r: Option<(Ps, DataKey)>)
    requires wfl(s), 0 <= i < s.len(), r is Some, nearest(s[i], p, p.len() as int, r)
    ensures nearestl(s, p, p.len() as int, r)
{
    let (q, k) = r->0;
    lem_first(s[i], q, k, true);
    assert(q[0] == p.take(q.len() as int)[0]);
    assert forall|j: int, k: DataKey| q.len() < j < p.len() implies !#[trigger] hasl(s, p.take(j), k, true) by {
        assert(p.take(j)[0] == p[0]);
        lem_only(s, i, p.take(j));
    }
}
pub open spec fn lacks(n: Node, p: Ps) -> bool { forall|k: DataKey| !#[trigger] hold(n, p, k, false) }
//@@ item core/src/fs/path_tree.rs :: struct PrefixTree
//@@ end
impl PrefixTree {
//@@ fn core/src/fs/path_tree.rs :: impl PrefixTree :: insert
//@@ ret r
//@@ pre `self.roots.sort();` => `rt_sort(&mut self.roots);`
//@@ spec
    requires wfl(old(self).roots@), canon(path.v()).len() > 0,
    ensures match r { Ok(_) => insl(old(self).roots@, final(self).roots@, canon(path.v()), data, kind_of(path.v())), Err(_) => samel(old(self).roots@, final(self).roots@) },
//@@ at entry
    let ghost p0 = path.v();
    let ghost a0 = self.roots@;
//@@ at before `if sort`
    let ghost a1 = self.roots@;
//@@ at before `return Ok(());`
    proof { if sort { lem_perm(a1, self.roots@); assert forall|q: Ps, k: DataKey| q != canon(p0) && #[trigger] hasl(a0, q, k, true) implies hasl(self.roots@, q, k, true) by { assert(hasl(a1, q, k, true)); } } }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PrefixTree :: try_insert_existing
//@@ ret r
//@@ pre `for root in self.roots.iter_mut() { $B }` => `let mut rt_i: usize = 0; while rt_i < self.roots.len() { let root = rt_row(&mut self.roots, rt_i); $B rt_i += 1; }`
//@@ pre `insert_into_prefix($x).map(|$d| $b)` => `match insert_into_prefix($x) { Ok($d) => Ok($b), Err(rt_e) => Err(rt_e) }`
//@@ spec
    requires wfl(old(self).roots@), path.v().len() > 0,
    ensures match r {
        Ok(Some(_)) => insl(old(self).roots@, final(self).roots@, path.v(), data, ty),
        Ok(None) => final(self).roots@ == old(self).roots@ && forall|i: int| 0 <= i < old(self).roots@.len() ==> (#[trigger] old(self).roots@[i]).cv()[0] != path.v()[0],
        Err(_) => samel(old(self).roots@, final(self).roots@),
    },
//@@ at entry
    let ghost a0 = self.roots@;
//@@ loop 0
    invariant rt_i <= self.roots.len(), self.roots@ == a0, wfl(a0), a0 == old(self).roots@, path.v().len() > 0, forall|i: int| 0 <= i < rt_i ==> (#[trigger] a0[i]).cv()[0] != path.v()[0],
    decreases a0.len() - rt_i,
//@@ at before `return match`
    proof { assert forall|x: Node| rooted(a0, rt_i as int, #[trigger] a0.update(rt_i as int, x), x, path.v()) by { lem_root(a0, rt_i as int, x, path.v()); } }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PrefixTree :: insert_new
//@@ sub? `mut path` => `path0`
//@@ pre `PathBuf::from($c.as_os_str())` => `rt_from($c)`
//@@ pre `vec![]` => `Vec::new()`
//@@ pre `vec![child]` => `rt_vec1(child)`
//@@ pre `self.roots.sort();` => `rt_sort(&mut self.roots);`
//@@ spec
    requires wfl(old(self).roots@), path0.v().len() > 0, forall|i: int| 0 <= i < old(self).roots@.len() ==> (#[trigger] old(self).roots@[i]).cv()[0] != path0.v()[0],
    ensures insl(old(self).roots@, final(self).roots@, path0.v(), data, ty),
//@@ at entry
    let mut path = path0;
    let ghost p0 = path0.v();
    let ghost a0 = self.roots@;
    let ghost ty0 = ty;
    broadcast use path_ok;
//@@ at after `path.pop();`
    proof { assert(path.v() == p0.drop_last()); assert(p0.drop_last().last() == p0[p0.len() - 2]); }
    let ghost y0 = child;
//@@ at before `self.roots.push(root);`
    let ghost x0 = root;
    proof {
        if ty0 is Dir || p0.len() == 1 { lem_lone_node(x0, p0, data, ty0); }
        else { lem_lone_child(x0, x0.kids()[0], p0, data, ty0); }
    }
//@@ at after `self.roots.push(root);`
    proof { assert(self.roots@ == a0.push(x0)); }
//@@ at end
    proof { lem_new_root(a0, x0, self.roots@, p0, data, ty0); }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PrefixTree :: clear
//@@ spec
    ensures final(self).roots@ == Seq::<Node>::empty(),
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PrefixTree :: contains
//@@ ret r
//@@ pre `self.roots.iter().any(|$r| $b)` => `let mut rt_i: usize = 0; while rt_i < self.roots.len() { let $r = &self.roots[rt_i]; if $b { return true; } rt_i += 1; } false`
//@@ sub? `path: &Path` => `path0: &Path`
//@@ spec
    requires wfl(self.roots@), canon(path0.v()).len() > 0,
    ensures r == exists|k: DataKey| hasl(self.roots@, canon(path0.v()), k, false),
//@@ at entry
    let path = path0;
    let ghost p0 = canon(path0.v());
//@@ loop 0
    invariant p0.len() > 0, p0 == canon(path0.v()), path.v() == p0, rt_i <= self.roots.len(), wfl(self.roots@), forall|i: int| 0 <= i < rt_i ==> lacks(#[trigger] self.roots@[i], p0),
    decreases self.roots.len() - rt_i,
//@@ at before `return true;`
    proof { let k = choose|k: DataKey| hold(self.roots@[rt_i as int], p0, k, false); assert(hasl(self.roots@, p0, k, false)); }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PrefixTree :: get
//@@ ret r
//@@ pre `self.roots.iter().find_map(|$r| $b)` => `let mut rt_i: usize = 0; while rt_i < self.roots.len() { let $r = &self.roots[rt_i]; let rt_f = $b; if rt_f.is_some() { return rt_f; } rt_i += 1; } None`
//@@ pre `root.get(&path).and_then(|$n| $b)` => `match root.get(&path) { Some($n) => $b, None => None }`
//@@ sub? `path: &Path` => `path0: &Path`
//@@ spec
    requires wfl(self.roots@), canon(path0.v()).len() > 0,
    ensures forall|k: DataKey| #[trigger] hasl(self.roots@, canon(path0.v()), k, false) <==> r == Some(k),
//@@ at entry
    let path = path0;
    let ghost p0 = canon(path0.v());
//@@ loop 0
    invariant p0.len() > 0, p0 == canon(path0.v()), path.v() == p0, rt_i <= self.roots.len(), wfl(self.roots@), forall|i: int| 0 <= i < rt_i ==> lacks(#[trigger] self.roots@[i], p0),
    decreases self.roots.len() - rt_i,
//@@ at loop 0 start
    proof {
        let s = self.roots@; let i = rt_i as int;
        if s[i].cv()[0] == p0[0] { lem_only(s, i, p0); } else { assert forall|k: DataKey, d: bool| !hold(s[i], p0, k, d) by { if hold(s[i], p0, k, d) { lem_first(s[i], p0, k, d); } } }
    }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PrefixTree :: nearest_ancestor
//@@ ret r
//@@ pre `self.roots.iter().find_map(|$r| $b)` => `let mut rt_i: usize = 0; while rt_i < self.roots.len() { let $r = &self.roots[rt_i]; let rt_f = $b; if rt_f.is_some() { return rt_f; } rt_i += 1; } None`
//@@ sub? `path: &Path` => `path0: &Path`
//@@ spec
    requires wfl(self.roots@), canon(path0.v()).len() > 0,
    ensures nearestl(self.roots@, canon(path0.v()), canon(path0.v()).len() as int, vk(r)),
//@@ at entry
    let path = path0;
    let ghost p0 = canon(path0.v());
//@@ loop 0
    invariant p0.len() > 0, p0 == canon(path0.v()), path.v() == p0, rt_i <= self.roots.len(), wfl(self.roots@), forall|i: int| 0 <= i < rt_i ==> nearest(#[trigger] self.roots@[i], p0, p0.len() as int, None),
    decreases self.roots.len() - rt_i,
//@@ at before `return rt_f;`
    proof { lem_nearestl(self.roots@, rt_i as int, p0, vk(rt_f)); }
//@@ at loop 0 after
    proof {
        assert forall|j: int, k: DataKey| 0 <= j < p0.len() implies !#[trigger] hasl(self.roots@, p0.take(j), k, true) by {
            if hasl(self.roots@, p0.take(j), k, true) { let i = choose|i: int| 0 <= i < self.roots@.len() && hold(#[trigger] self.roots@[i], p0.take(j), k, true); assert(nearest(self.roots@[i], p0, p0.len() as int, None)); }
        }
    }
//@@ end
}
/// a stored directory is stored
pub proof fn lem_dir(n: Node, p: Ps, k: DataKey)
    requires hold(n, p, k, true)
    ensures hold(n, p, k, false)
    decreases n
{
    if p.len() != n.cv().len() { match n { Node::Leaf { .. } => { } Node::Branch { children, .. } => {
        let i = choose|i: int| 0 <= i < children@.len() && hold(#[trigger] children@[i], p.skip(n.cv().len() as int), k, true);
        lem_dir(children@[i], p.skip(n.cv().len() as int), k);
    } } }
}
pub proof fn lem_dirs(s: Seq<Node>)
    ensures forall|p: Ps, k: DataKey| #[trigger] hasl(s, p, k, true) ==> hasl(s, p, k, false)
{
    assert forall|p: Ps, k: DataKey| #[trigger] hasl(s, p, k, true) implies hasl(s, p, k, false) by { let i = choose|i: int| 0 <= i < s.len() && hold(#[trigger] s[i], p, k, true); lem_dir(s[i], p, k); assert(hold(s[i], p, k, false)); }
}
#[verifier::external_body] // IndexMut
pub fn rt_at<V>(v: &mut Vec<V>, i: usize) -> (r: &mut V) requires i < old(v).len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
//@@ item core/src/fs/path_tree.rs :: struct Entry
//@@ end
//@@ item core/src/fs/path_tree.rs :: struct PathPrefixTree
//@@ end
#[verifier::external_body] // Result::expect: returns only for Ok
pub fn rt_expect(r: Result<(), TryInsertError>) ensures r is Ok { unimplemented!() }
impl<V> PathPrefixTree<V> {
    pub open spec fn ok(&self) -> bool { wfl(self.tree.roots@) && forall|q: Ps, k: DataKey| #[trigger] hasl(self.tree.roots@, q, k, false) ==> k.0 < self.data.len() }
    /// the map
    pub open spec fn maps(&self, q: Ps, v: V) -> bool { exists|k: DataKey| #[trigger] hasl(self.tree.roots@, q, k, false) && self.data[k.0 as int] == v }
    /// and its directories
    pub open spec fn maps_dir(&self, q: Ps, v: V) -> bool { exists|k: DataKey| #[trigger] hasl(self.tree.roots@, q, k, true) && self.data[k.0 as int] == v }
    /// the longest directory stored above `p`
    pub open spec fn nearest_dir(&self, p: Ps, r: Option<(Ps, V)>) -> bool {
        match r {
            None => forall|j: int, v: V| 0 <= j < p.len() ==> !#[trigger] self.maps_dir(p.take(j), v),
            Some((q, v)) => q.len() < p.len() && q == p.take(q.len() as int) && self.maps_dir(q, v) && forall|j: int, v: V| q.len() < j < p.len() ==> !#[trigger] self.maps_dir(p.take(j), v),
        }
    }
//@@ fn core/src/fs/path_tree.rs :: impl PathPrefixTree :: try_insert
//@@ ret r
//@@ sub? `<P: AsRef<Path>>` => ``
//@@ sub? `path: P` => `path: &Path`
//@@ pre `path.as_ref()` => `path`
//@@ pre `self.tree.insert($x)` => `let rt_r = self.tree.insert($x); rt_r`
//@@ spec
    requires old(self).ok(), canon(path.v()).len() > 0,
    ensures
        final(self).ok(),
        r is Ok ==> forall|q: Ps, v: V| #[trigger] final(self).maps(q, v) <==> (if q == canon(path.v()) { v == value } else { old(self).maps(q, v) }),
        r is Err ==> forall|q: Ps, v: V| #[trigger] final(self).maps(q, v) <==> old(self).maps(q, v),
//@@ at entry
    let ghost a0 = *self;
//@@ at after `let rt_r = $x;`
    proof {
        let c = canon(path.v());
        let s0 = a0.tree.roots@; let s1 = self.tree.roots@;
        assert(self.data@ == a0.data@.push(value));
        assert forall|q: Ps, v: V| rt_r is Ok implies (#[trigger] self.maps(q, v) <==> (if q == c { v == value } else { a0.maps(q, v) })) by {
            if q == c { assert(hasl(s1, c, DataKey(a0.data.len()), false)); }
            else if a0.maps(q, v) { let k = choose|k: DataKey| #[trigger] hasl(s0, q, k, false) && a0.data[k.0 as int] == v; assert(hasl(s1, q, k, false)); }
            else if self.maps(q, v) { let k = choose|k: DataKey| #[trigger] hasl(s1, q, k, false) && self.data[k.0 as int] == v; assert(hasl(s0, q, k, false)); }
        }
        assert forall|q: Ps, v: V| rt_r is Err implies (#[trigger] self.maps(q, v) <==> a0.maps(q, v)) by {
            if a0.maps(q, v) { let k = choose|k: DataKey| #[trigger] hasl(s0, q, k, false) && a0.data[k.0 as int] == v; assert(hasl(s1, q, k, false)); }
            if self.maps(q, v) { let k = choose|k: DataKey| #[trigger] hasl(s1, q, k, false) && self.data[k.0 as int] == v; assert(hasl(s0, q, k, false)); }
        }
    }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PathPrefixTree :: insert
//@@ sub? `<P: AsRef<Path>>` => ``
//@@ sub? `path: P` => `path: &Path`
//@@ pre `self.try_insert(path, value).expect($x)` => `rt_expect(self.try_insert(path, value))`
//@@ spec
    requires old(self).ok(), canon(path.v()).len() > 0,
    ensures final(self).ok(), forall|q: Ps, v: V| #[trigger] final(self).maps(q, v) <==> (if q == canon(path.v()) { v == value } else { old(self).maps(q, v) }),
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PathPrefixTree :: clear
//@@ spec
    ensures final(self).ok(), forall|q: Ps, v: V| !#[trigger] final(self).maps(q, v),
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PathPrefixTree :: contains
//@@ ret r
//@@ sub? `<P: AsRef<Path>>` => ``
//@@ sub? `path: P` => `path: &Path`
//@@ pre `path.as_ref()` => `path`
//@@ pre `self.tree.contains($x)` => `let rt_r = self.tree.contains($x); rt_r`
//@@ spec
    requires self.ok(), canon(path.v()).len() > 0,
    ensures r == exists|v: V| self.maps(canon(path.v()), v),
//@@ at after `let rt_r = $x;`
    proof {
        let c = canon(path.v());
        if rt_r { let k = choose|k: DataKey| hasl(self.tree.roots@, c, k, false); assert(self.maps(c, self.data[k.0 as int])); }
    }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PathPrefixTree :: get
//@@ ret r
//@@ sub? `<P: AsRef<Path>>` => ``
//@@ sub? `path: P` => `path: &Path`
//@@ pre `path.as_ref()` => `path`
//@@ pre `let key = $x?;` => `let key = match $x { Some(key) => key, None => return None };`
//@@ spec
    requires self.ok(), canon(path.v()).len() > 0,
    ensures forall|v: V| #[trigger] self.maps(canon(path.v()), v) <==> (r matches Some(x) && *x == v),
//@@ at after `let key = $x;`
    proof { assert(hasl(self.tree.roots@, canon(path.v()), key, false)); }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PathPrefixTree :: get_mut
//@@ ret r
//@@ sub? `<P: AsRef<Path>>` => ``
//@@ sub? `path: P` => `path: &Path`
//@@ pre `path.as_ref()` => `path`
//@@ pre `let key = $x?;` => `let key = match $x { Some(key) => key, None => return None };`
//@@ pre `&mut self.data[$x]` => `rt_at(&mut self.data, $x)`
//@@ spec
    requires old(self).ok(), canon(path.v()).len() > 0,
    ensures forall|v: V| #[trigger] old(self).maps(canon(path.v()), v) <==> (r matches Some(x) && *x == v), final(self).tree == old(self).tree,
//@@ at after `let key = $x;`
    proof { assert(hasl(self.tree.roots@, canon(path.v()), key, false)); }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PathPrefixTree :: nearest_ancestor
//@@ ret r
//@@ sub? `<P: AsRef<Path>>` => ``
//@@ sub? `path: P` => `path: &Path`
//@@ pre `path.as_ref()` => `path`
//@@ pre `self.tree.nearest_ancestor($x).map(|($a, $b)| $e)` => `match self.tree.nearest_ancestor($x) { Some(($a, $b)) => { let ghost rt_k = $b; Some($e) } None => None }`
//@@ spec
    requires self.ok(), canon(path.v()).len() > 0,
    ensures self.nearest_dir(canon(path.v()), match r { Some(e) => Some((e.path.v(), *e.data)), None => None }),
//@@ at after `let ghost rt_k = $x;`
    proof {
        let c = canon(path.v());
        let q = choose|q: Ps| #[trigger] hasl(self.tree.roots@, q, rt_k, true);
        lem_dirs(self.tree.roots@);
    }
//@@ end
}
// ---------------------------------------------------------------- iteration
/// what an iteration over the nodes of a list yields, in order; `leaves`: only files
pub open spec fn flat(s: Seq<Node>, at: Ps, leaves: bool) -> Seq<(Ps, DataKey)>
    decreases s
{
    if s.len() == 0 { Seq::empty() } else {
        let n = s[0];
        let q = joined(at, n.cv());
        own(n, q, leaves) + match n { Node::Leaf { .. } => Seq::empty(), Node::Branch { children, .. } => flat(children@, q, leaves) } + flat(s.subrange(1, s.len() as int), at, leaves)
    }
}
pub open spec fn own(n: Node, q: Ps, leaves: bool) -> Seq<(Ps, DataKey)> { match n.dv() { Some(k) => if leaves && n is Branch { Seq::empty() } else { Seq::empty().push((q, k)) }, None => Seq::empty() } }
pub proof fn lem_flat(s: Seq<Node>, at: Ps, leaves: bool)
    requires s.len() > 0
    ensures flat(s, at, leaves) == own(s[0], joined(at, s[0].cv()), leaves) + flat(s[0].kids(), joined(at, s[0].cv()), leaves) + flat(s.subrange(1, s.len() as int), at, leaves)
{
    match s[0] { Node::Leaf { .. } => { assert(flat(s[0].kids(), joined(at, s[0].cv()), leaves) =~= Seq::empty()); } Node::Branch { children, .. } => { assert(s[0].kids() == children@); } }
}
/// the nodes of a list, with everything below
pub open spec fn size(s: Seq<Node>) -> nat
    decreases s
{
    if s.len() == 0 { 0 } else { 1 + match s[0] { Node::Leaf { .. } => 0, Node::Branch { children, .. } => size(children@) } + size(s.subrange(1, s.len() as int)) }
}
pub proof fn lem_visit(s: Seq<Node>, at: Ps, leaves: bool)
    requires s.len() > 0
    ensures ({
        let q = joined(at, s[0].cv());
        let f = flat(s, at, leaves);
        let k = flat(s[0].kids(), q, leaves);
        let r = flat(s.subrange(1, s.len() as int), at, leaves);
        &&& (s[0].dv() is None || leaves && s[0] is Branch) ==> f == k + r
        &&& (s[0].dv() matches Some(d) && !(leaves && s[0] is Branch)) ==> f == Seq::empty().push((q, s[0].dv()->Some_0)) + (k + r)
        &&& s[0] is Leaf ==> k + r == r && size(s[0].kids()) == 0
        &&& size(s) == 1 + size(s[0].kids()) + size(s.subrange(1, s.len() as int))
    })
{
    lem_flat(s, at, leaves);
    let q = joined(at, s[0].cv());
    let o = own(s[0], q, leaves);
    let k = flat(s[0].kids(), q, leaves);
    let r = flat(s.subrange(1, s.len() as int), at, leaves);
    assert((o + k) + r =~= o + (k + r));
    assert(Seq::<(Ps, DataKey)>::empty() + (k + r) =~= k + r);
    match s[0] { Node::Leaf { .. } => { assert(k =~= Seq::empty()); assert(k + r =~= r); } Node::Branch { children, .. } => { assert(s[0].kids() == children@); } }
}
#[verifier::external_body] // slice::split_first
pub fn rt_split_first<'a>(s: &'a [Node]) -> (r: Option<(&'a Node, &'a [Node])>)
    ensures match r { Some((n, rest)) => s@.len() > 0 && *n == s@[0] && rest@ == s@.subrange(1, s@.len() as int), None => s@.len() == 0 } { unimplemented!() }
impl PathBuf {
    #[verifier::external_body]
    pub fn join(&self, p: &Path) -> (r: PathBuf) ensures r.v() == joined(self.v(), p.v()) { unimplemented!() }
}
impl Components {
    #[verifier::external_body] // Iterator::count
    pub fn count(self) -> (r: usize) ensures r == self.v().len() { unimplemented!() }
}
//@@ item core/src/fs/path_tree.rs :: struct DfsVisitor
//@@ end
impl<'a> DfsVisitor<'a> {
    pub open spec fn plain(&self) -> bool { self.component_prefix.v() == Seq::<Comp>::empty() }
    /// what is left to yield
    pub open spec fn rem(&self) -> Seq<(Ps, DataKey)> {
        match self.queued { Some((p, _, w)) => flat(w@, p.v(), self.only_leaves) + flat(self.worklist@, self.prefix.v(), self.only_leaves), None => flat(self.worklist@, self.prefix.v(), self.only_leaves) }
    }
    pub open spec fn work(&self) -> nat { (match self.queued { Some((_, _, w)) => 1 + 2 * size(w@), None => 0 }) + 2 * size(self.worklist@) }
//@@ fn core/src/fs/path_tree.rs :: impl DfsVisitor :: new
//@@ ret r
//@@ spec
    ensures r.plain(), r.prefix == prefix, r.worklist == worklist, r.queued is None, r.only_leaves == only_leaves, r.rem() == flat(worklist@, prefix.v(), only_leaves), r.work() == 2 * size(worklist@),
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl DfsVisitor :: strip_prefix
//@@ ret r
//@@ pre `Path::new("")` => `rt_empty()`
//@@ pre `self.component_prefix == $e` => `&self.component_prefix == $e`
//@@ spec
    requires pre(self.component_prefix.v(), path.v()),
    ensures r.v() == path.v().skip(self.component_prefix.v().len() as int),
//@@ at entry
    proof { assert(path.v().skip(0) =~= path.v()); }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl DfsVisitor :: exceeds_max_depth
//@@ ret r
//@@ spec
    requires max_depth is None,
    ensures !r,
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl DfsVisitor :: relative_depth
//@@ spec
    requires max_depth is None,
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl DfsVisitor :: next
//@@ ret r
//@@ pre `self.worklist.split_first()?` => `(match rt_split_first(self.worklist) { Some(rt_p) => rt_p, None => return None })`
//@@ pre `if let Some($d) = max_depth && $c { continue; }` => `if let Some($d) = max_depth { if $c { continue; } }`
//@@ pre `match data { Some(data) if $c => { $A } _ => { $B } }` => `let rt_g = $c; match (data, rt_g) { (Some(data), true) => { $A } _ => { $B } }`
//@@ pre `break Some(Left($x));` => `return Some(Left($x));`
//@@ pre `break Some(Right($x));` => `{ let rt_v = $x; return Some(Right(rt_v)); }`
//@@ spec
    requires old(self).plain(), max_depth is None,
    ensures
        final(self).plain(), final(self).only_leaves == old(self).only_leaves,
        match r {
            None => old(self).rem() == Seq::<(Ps, DataKey)>::empty() && final(self).rem() == old(self).rem(),
            Some(Left((p, k))) => old(self).rem() == Seq::empty().push((p.v(), k)) + final(self).rem() && final(self).work() < old(self).work(),
            Some(Right(v)) => v.plain() && old(self).rem() == v.rem() + final(self).rem() && v.work() + final(self).work() < old(self).work(),
        },
//@@ at entry
    let ghost s0 = *self;
//@@ at before `match (data`
    proof { assert(self.only_leaves == s0.only_leaves); assert(self.plain()); }
//@@ at before `return Some(Right(rt_v))`
    proof { assert(self.only_leaves == s0.only_leaves); }
//@@ loop 0
    invariant
        s0 == *old(self), max_depth is None, s0.plain(), self.plain(), self.only_leaves == s0.only_leaves, self.prefix == s0.prefix, self.queued is None, s0.queued is None,
        flat(self.worklist@, self.prefix.v(), self.only_leaves) == s0.rem(), 2 * size(self.worklist@) <= s0.work(),
    decreases self.worklist@.len(),
//@@ at loop 0 start
    let ghost w0 = self.worklist@;
    proof {
        if w0.len() > 0 {
            lem_visit(w0, self.prefix.v(), self.only_leaves);
            let c = w0[0].cv();
            assert(c.skip(0) =~= c);
            assert(c.take(0) =~= Seq::<Comp>::empty());
        }
    }
//@@ end
}
pub open spec fn rests(s: Seq<DfsVisitor>) -> Seq<(Ps, DataKey)>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { s.last().rem() + rests(s.drop_last()) } }
pub open spec fn works(s: Seq<DfsVisitor>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { s.last().work() + works(s.drop_last()) } }
pub proof fn lem_rests_push(s: Seq<DfsVisitor>, v: DfsVisitor)
    ensures rests(s.push(v)) == v.rem() + rests(s), works(s.push(v)) == v.work() + works(s)
{ assert(s.push(v).drop_last() =~= s); assert(s.push(v).last() == v); }
pub open spec fn keys_ok(s: Seq<(Ps, DataKey)>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.0 < n }
/// the entries listed are those of the map (`leaves`: of its files), each once
pub open spec fn listed(s: Seq<Node>, at: Ps, q: Ps, k: DataKey, leaves: bool) -> bool { pre(at, q) && hasl(s, q.skip(at.len() as int), k, false) && (leaves ==> !hasl(s, q.skip(at.len() as int), k, true)) }
pub open spec fn nodup(s: Seq<(Ps, DataKey)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn exact(l: Seq<(Ps, DataKey)>, s: Seq<Node>, at: Ps, leaves: bool) -> bool { forall|q: Ps, k: DataKey| #[trigger] l.contains((q, k)) <==> listed(s, at, q, k, leaves) }
pub proof fn lem_nil(s: Seq<Node>, q: Ps, k: DataKey, d: bool)
    requires wfl(s), q.len() == 0
    ensures !hasl(s, q, k, d)
{ if hasl(s, q, k, d) { let j = choose|j: int| 0 <= j < s.len() && hold(#[trigger] s[j], q, k, d); lem_first(s[j], q, k, d); } }
pub proof fn lem_unlisted(s: Seq<Node>, at: Ps, leaves: bool)
    requires s.len() == 0
    ensures exact(flat(s, at, leaves), s, at, leaves), nodup(flat(s, at, leaves))
{
    let f = flat(s, at, leaves);
    assert(f.len() == 0);
    assert forall|q: Ps, k: DataKey| #[trigger] f.contains((q, k)) <==> listed(s, at, q, k, leaves) by { if f.contains((q, k)) { let i = choose|i: int| 0 <= i < f.len() && f[i] == (q, k); assert(false); } }
}
pub proof fn lem_lists(s: Seq<Node>, at: Ps, leaves: bool)
    requires wfl(s), at.len() == 0 || forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cv()[0] != Comp::Root
    ensures exact(flat(s, at, leaves), s, at, leaves), nodup(flat(s, at, leaves))
    decreases s
{
    let f = flat(s, at, leaves);
    if s.len() == 0 { lem_unlisted(s, at, leaves); } else {
        lem_flat(s, at, leaves);
        let n = s[0];
        let c = n.cv();
        assert(wf(n));
        let at1 = joined(at, c);
        assert(at1 =~= at + c);
        let rest = s.subrange(1, s.len() as int);
        let o = own(n, at1, leaves);
        let fk = flat(n.kids(), at1, leaves);
        let fr = flat(rest, at, leaves);
        assert(f == o + fk + fr);
        assert(wfl(rest)) by {
            assert forall|x: int, y: int| 0 <= x < y < rest.len() implies (#[trigger] rest[x]).cv()[0] != (#[trigger] rest[y]).cv()[0] by { assert(s[x + 1].cv()[0] != s[y + 1].cv()[0]); }
            assert forall|x: int| 0 <= x < rest.len() implies wf(#[trigger] rest[x]) by { assert(wf(s[x + 1])); }
        }
        if at.len() > 0 { assert forall|i: int| 0 <= i < rest.len() implies (#[trigger] rest[i]).cv()[0] != Comp::Root by { assert(s[i + 1].cv()[0] != Comp::Root); } }
        lem_lists(rest, at, leaves);
        lem_kids(n);
        match n {
            Node::Leaf { .. } => { assert(n.kids() =~= Seq::empty()); lem_unlisted(n.kids(), at1, leaves); }
            Node::Branch { children, .. } => { assert(n.kids() == children@); lem_lists(children@, at1, leaves); }
        }
        assert forall|q: Ps, k: DataKey| #[trigger] f.contains((q, k)) <==> listed(s, at, q, k, leaves) by {
            lem_split3(o, fk, fr, (q, k));
            lem_head(s, at, q, k, leaves);
            assert(fk.contains((q, k)) <==> listed(n.kids(), at1, q, k, leaves));
            assert(fr.contains((q, k)) <==> listed(rest, at, q, k, leaves));
        }
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0 != (#[trigger] f[j]).0 by {
            let a = o.len() as int; let b = a + fk.len();
            let q = f[i].0; 
            if q == f[j].0 {
                if i < a {
                    assert(f[i] == o[i]); assert(q == at1); assert(i == 0);
                    if j < a { assert(false); }
                    else if j < b { assert(f[j] == fk[j - a]); assert(fk.contains(f[j])); assert(listed(n.kids(), at1, q, f[j].1, leaves)); lem_nil(n.kids(), q.skip(at1.len() as int), f[j].1, false); }
                    else { assert(f[j] == fr[j - b]); assert(fr.contains(f[j])); assert(listed(rest, at, q, f[j].1, leaves)); lem_starts(s, at, q, f[j].1); }
                } else if i < b {
                    assert(f[i] == fk[i - a]); assert(fk.contains(f[i])); assert(listed(n.kids(), at1, q, f[i].1, leaves));
                    if j < b { assert(f[j] == fk[j - a]); }
                    else { assert(f[j] == fr[j - b]); assert(fr.contains(f[j])); assert(listed(rest, at, q, f[j].1, leaves)); lem_starts(s, at, q, f[j].1); assert(pre(at + c, q)); }
                } else {
                    assert(f[i] == fr[i - b]); assert(f[j] == fr[j - b]);
                }
            }
        }
    }
}
pub proof fn lem_split3(a: Seq<(Ps, DataKey)>, b: Seq<(Ps, DataKey)>, c: Seq<(Ps, DataKey)>, x: (Ps, DataKey))
    ensures (a + b + c).contains(x) <==> a.contains(x) || b.contains(x) || c.contains(x)
{
    let f = a + b + c;
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(f[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(f[a.len() + i] == x); }
    if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(f[a.len() + b.len() + i] == x); }
    if f.contains(x) {
        let i = choose|i: int| 0 <= i < f.len() && f[i] == x;
        if i < a.len() { assert(a[i] == x); } else if i < a.len() + b.len() { assert(b[i - a.len()] == x); } else { assert(c[i - a.len() - b.len()] == x); }
    }
}
pub proof fn lem_kids(n: Node)
    requires wf(n)
    ensures wfl(n.kids()), forall|i: int| 0 <= i < n.kids().len() ==> (#[trigger] n.kids()[i]).cv()[0] != Comp::Root
{
    match n {
        Node::Leaf { .. } => { assert(n.kids() =~= Seq::empty()); }
        Node::Branch { children, .. } => {
            assert(n.kids() == children@);
            assert forall|i: int| 0 <= i < n.kids().len() implies wf(#[trigger] n.kids()[i]) && n.kids()[i].cv()[0] != Comp::Root by { assert(wf(children[i])); }
        }
    }
}
/// what the rest of the list holds does not start as its first node
pub proof fn lem_starts(s: Seq<Node>, at: Ps, q: Ps, k: DataKey)
    requires wfl(s), s.len() > 0, pre(at, q), hasl(s.subrange(1, s.len() as int), q.skip(at.len() as int), k, false)
    ensures !pre(at + s[0].cv(), q)
{
    let rest = s.subrange(1, s.len() as int);
    let p = q.skip(at.len() as int);
    let j = choose|j: int| 0 <= j < rest.len() && hold(#[trigger] rest[j], p, k, false);
    assert(rest[j] == s[j + 1]);
    assert(wf(s[j + 1])); assert(wf(s[0]));
    lem_first(s[j + 1], p, k, false);
    assert(s[0].cv()[0] != s[j + 1].cv()[0]);
    let ac = at + s[0].cv();
    if pre(ac, q) { assert(q.take(ac.len() as int)[at.len() as int] == ac[at.len() as int]); assert(p[0] == q[at.len() as int]); }
}
pub proof fn lem_head(s: Seq<Node>, at: Ps, q: Ps, k: DataKey, leaves: bool)
    requires wfl(s), s.len() > 0
    ensures listed(s, at, q, k, leaves) <==> own(s[0], at + s[0].cv(), leaves).contains((q, k)) || listed(s[0].kids(), at + s[0].cv(), q, k, leaves) || listed(s.subrange(1, s.len() as int), at, q, k, leaves)
{
    let n = s[0]; let c = n.cv(); let ac = at + c;
    let rest = s.subrange(1, s.len() as int);
    assert(wf(n));
    lem_kids(n);
    let o = own(n, ac, leaves);
    if q == ac { assert(q.take(ac.len() as int) =~= q); }
    assert(o.contains((q, k)) <==> q == ac && n.dv() == Some(k) && !(leaves && n is Branch)) by {
        if q == ac && n.dv() == Some(k) && !(leaves && n is Branch) { assert(o[0] == (q, k)); }
    }
    if pre(ac, q) {
        assert(q.take(at.len() as int) =~= at) by { assert forall|i: int| 0 <= i < at.len() implies q[i] == at[i] by { assert(q.take(ac.len() as int)[i] == ac[i]); } }
    }
    if pre(at, q) {
        let p = q.skip(at.len() as int);
        assert forall|d: bool| #[trigger] hasl(s, p, k, d) <==> hold(n, p, k, d) || hasl(rest, p, k, d) by {
            if hasl(s, p, k, d) { let j = choose|j: int| 0 <= j < s.len() && hold(#[trigger] s[j], p, k, d); if j > 0 { assert(rest[j - 1] == s[j]); assert(hold(rest[j - 1], p, k, d)); } }
            if hold(n, p, k, d) { assert(hold(s[0], p, k, d)); }
            if hasl(rest, p, k, d) { let j = choose|j: int| 0 <= j < rest.len() && hold(#[trigger] rest[j], p, k, d); assert(rest[j] == s[j + 1]); assert(hold(s[j + 1], p, k, d)); }
        }
        assert(pre(ac, q) <==> pre(c, p)) by {
            if pre(ac, q) { assert(p.take(c.len() as int) =~= c) by { assert forall|i: int| 0 <= i < c.len() implies p[i] == c[i] by { assert(q.take(ac.len() as int)[at.len() + i] == ac[at.len() + i]); } } }
            if pre(c, p) { assert(q.take(ac.len() as int) =~= ac) by { assert forall|i: int| 0 <= i < ac.len() implies q[i] == ac[i] by { if i < at.len() { assert(q.take(at.len() as int)[i] == at[i]); } else { assert(p.take(c.len() as int)[i - at.len()] == c[i - at.len()]); } } } }
        }
        if pre(c, p) {
            assert(p.skip(c.len() as int) =~= q.skip(ac.len() as int));
            let r = q.skip(ac.len() as int);
            if p.len() == c.len() { assert(q =~= ac) by { assert(q.take(ac.len() as int) =~= q); } lem_nil(n.kids(), r, k, false); }
            else { assert(q != ac); }
            assert forall|d: bool| #[trigger] hold(n, p, k, d) <==> (if p.len() == c.len() { n.dv() == Some(k) && (d ==> n is Branch) } else { hasl(n.kids(), r, k, d) }) by {
                match n { Node::Leaf { .. } => { assert(n.kids() =~= Seq::empty()); } Node::Branch { children, .. } => { assert(n.kids() == children@); } }
            }
            assert forall|d: bool| !#[trigger] hasl(rest, p, k, d) by { if hasl(rest, p, k, d) { lem_dirs(rest); lem_starts(s, at, q, k); } }
        } else {
            assert(forall|d: bool| !#[trigger] hold(n, p, k, d));
        }
    } else { assert(!pre(ac, q)); }
}
pub assume_specification<T> [core::mem::replace] (dst: &mut T, src: T) -> (r: T)
    ensures r == *old(dst), *final(dst) == src;
//@@ item core/src/fs/path_tree.rs :: struct Dfs
//@@ end
impl<'a, V> Dfs<'a, V> {
    pub open spec fn rem(&self) -> Seq<(Ps, DataKey)> { self.current.rem() + rests(self.stack@) }
    pub open spec fn ok(&self) -> bool { self.max_depth is None && self.current.plain() && (forall|i: int| 0 <= i < self.stack.len() ==> (#[trigger] self.stack[i]).plain()) && keys_ok(self.rem(), self.data.len() as nat) }
//@@ fn core/src/fs/path_tree.rs :: impl Dfs :: new
//@@ ret r
//@@ spec
    requires tree.ok(), max_depth is None,
    ensures
        r.ok(), r.data@ == tree.data@, nodup(r.rem()),
        forall|q: Ps, k: DataKey| #[trigger] r.rem().contains((q, k)) <==> hasl(tree.tree.roots@, q, k, false) && (only_leaves ==> !hasl(tree.tree.roots@, q, k, true)),
//@@ at before `Self {`
    proof {
        let s = tree.tree.roots@;
        let e = Seq::<Comp>::empty();
        let f = flat(s, e, only_leaves);
        lem_lists(s, e, only_leaves);
        assert(f + Seq::<(Ps, DataKey)>::empty() =~= f);
        assert forall|q: Ps, k: DataKey| #[trigger] f.contains((q, k)) <==> hasl(s, q, k, false) && (only_leaves ==> !hasl(s, q, k, true)) by { assert(q.skip(0) =~= q); assert(q.take(0) =~= e); assert(listed(s, e, q, k, only_leaves) <==> f.contains((q, k))); }
        assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).1.0 < tree.data.len() by { assert(f.contains((f[i].0, f[i].1))); assert(hasl(s, f[i].0, f[i].1, false)); }
    }
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl Iterator for Dfs :: next
//@@ ret r
//@@ sub? `Option<Self::Item>` => `Option<Entry<'a, V>>`
//@@ pre `match self.current.next($d) {` => `let rt_n = self.current.next($d); match rt_n {`
//@@ pre `self.stack.pop()?` => `(match self.stack.pop() { Some(rt_p) => rt_p, None => return None })`
//@@ spec
    requires old(self).ok(),
    ensures
        final(self).ok(), final(self).data == old(self).data,
        match r {
            None => old(self).rem() == Seq::<(Ps, DataKey)>::empty(),
            Some(e) => old(self).rem().len() > 0 && e.path.v() == old(self).rem()[0].0 && *e.data == old(self).data[old(self).rem()[0].1.0 as int] && final(self).rem() == old(self).rem().skip(1),
        },
//@@ at entry
    let ghost s0 = *self;
//@@ loop 0
    invariant
        s0 == *old(self), s0.ok(), self.ok(), self.data == s0.data, self.rem() == s0.rem(),
    decreases self.current.work() + works(self.stack@), self.stack.len(),
//@@ at loop 0 start
    let ghost w0 = *self;
//@@ at before `match rt_n`
    let ghost rt_g = rt_n;
    proof {
        let l = w0.stack@;
        let e = Seq::<(Ps, DataKey)>::empty();
        match rt_g {
            None => {
                assert(e + rests(l) =~= rests(l));
                if l.len() > 0 { assert(l.drop_last().push(l.last()) =~= l); assert(rests(l) == l.last().rem() + rests(l.drop_last())); assert(works(l) == l.last().work() + works(l.drop_last())); assert(l[l.len() - 1].plain()); }
            }
            Some(Left((p, k))) => {
                let x = e.push((p.v(), k));
                assert(w0.rem() =~= x + self.rem());
                assert(w0.rem()[0] == x[0]);
                assert(w0.rem().skip(1) =~= self.rem());
                assert forall|i: int| 0 <= i < self.rem().len() implies (#[trigger] self.rem()[i]).1.0 < self.data.len() by { assert(self.rem()[i] == w0.rem()[i + 1]); }
            }
            Some(Right(v)) => {
                lem_rests_push(l, self.current);
                assert(w0.rem() =~= v.rem() + (self.current.rem() + rests(l)));
            }
        }
    }
//@@ end
}
impl<V> PathPrefixTree<V> {
//@@ fn core/src/fs/path_tree.rs :: impl PathPrefixTree :: iter
//@@ ret r
//@@ sig `pub fn iter(&self) -> (r: Dfs<'_, V>)`
//@@ spec
    requires self.ok(),
    ensures
        r.ok(), r.data@ == self.data@, nodup(r.rem()),
        forall|q: Ps, k: DataKey| #[trigger] r.rem().contains((q, k)) <==> hasl(self.tree.roots@, q, k, false),
//@@ end
//@@ fn core/src/fs/path_tree.rs :: impl PathPrefixTree :: files
//@@ ret r
//@@ sig `pub fn files(&self) -> (r: Dfs<'_, V>)`
//@@ spec
    requires self.ok(),
    ensures
        r.ok(), r.data@ == self.data@, nodup(r.rem()),
        forall|q: Ps, k: DataKey| #[trigger] r.rem().contains((q, k)) <==> hasl(self.tree.roots@, q, k, false) && !hasl(self.tree.roots@, q, k, true),
//@@ end
}
}
fn main() {}
