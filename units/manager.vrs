//@@ include prelude.inc
// the source manager: ids, names, texts
verus! {
use std::sync::Arc;
pub open spec fn IDX() -> u32 { 0xff_ffff }
#[repr(u32)]
//@@ item core/src/diagnostics/source_manager.rs :: enum SourceGroup
//@@ derive Copy, Clone, PartialEq, Eq
//@@ end
//@@ item core/src/diagnostics/source_manager.rs :: struct SourceId
//@@ derive Copy, Clone
//@@ end
pub open spec fn gbits(g: SourceGroup) -> u32 { match g { SourceGroup::File => 0, SourceGroup::Argument => 0xfe00_0000, SourceGroup::Unknown => 0xff00_0000 } }
pub open spec fn rep(id: SourceId, g: SourceGroup, n: int) -> bool { 0 <= n <= IDX() && id.0 == gbits(g) + n }
// an id is a group and an index; no other bit patterns are ever constructed
pub open spec fn id_ok(id: SourceId) -> bool { id.0 <= 0xff_ffff || id.0 >= 0xfe00_0000 }
pub open spec fn grp(id: SourceId) -> SourceGroup { if id.0 <= 0xff_ffff { SourceGroup::File } else if id.0 < 0xff00_0000 { SourceGroup::Argument } else { SourceGroup::Unknown } }
pub open spec fn ix(id: SourceId) -> int { id.0 - gbits(grp(id)) }
#[verifier::external_body] // *(&group as *const u32).cast::<SourceGroup>(): the enum value with that discriminant
pub fn rt_group(g: u32) -> (r: SourceGroup) requires g == 0 || g == 0xfe00_0000u32 || g == 0xff00_0000u32 ensures gbits(r) == g { unimplemented!() }
proof fn bits(x: u32)
    ensures
        x & 0xff00_0000u32 == 0 <==> x <= 0xff_ffff, x <= 0xff_ffff ==> x & 0x00ff_ffffu32 == x,
        x >= 0xff00_0000u32 ==> x & 0xff00_0000u32 == 0xff00_0000u32 && x & 0x00ff_ffffu32 == x - 0xff00_0000u32,
        0xfe00_0000u32 <= x < 0xff00_0000u32 ==> x & 0xff00_0000u32 == 0xfe00_0000u32 && x & 0x00ff_ffffu32 == x - 0xfe00_0000u32,
        x <= 0xff_ffff ==> x | 0 == x && x | 0xfe00_0000u32 == x + 0xfe00_0000u32,
{
    assert(x & 0xff00_0000u32 == 0 <==> x <= 0xff_ffff) by (bit_vector);
    assert(x <= 0xff_ffff ==> x & 0x00ff_ffffu32 == x) by (bit_vector);
    assert(x >= 0xff00_0000u32 ==> x & 0xff00_0000u32 == 0xff00_0000u32 && x & 0x00ff_ffffu32 == sub(x, 0xff00_0000u32)) by (bit_vector);
    assert(0xfe00_0000u32 <= x < 0xff00_0000u32 ==> x & 0xff00_0000u32 == 0xfe00_0000u32 && x & 0x00ff_ffffu32 == sub(x, 0xfe00_0000u32)) by (bit_vector);
    assert(x <= 0xff_ffff ==> x | 0 == x && x | 0xfe00_0000u32 == add(x, 0xfe00_0000u32)) by (bit_vector);
}
proof fn masks() ensures (255u8 as u32) << 24 == 0xff00_0000u32, !0xff00_0000u32 == 0x00ff_ffffu32, (254u8 as u32) << 24 == 0xfe00_0000u32
{ assert((255u8 as u32) << 24 == 0xff00_0000u32 && !0xff00_0000u32 == 0x00ff_ffffu32 && (254u8 as u32) << 24 == 0xfe00_0000u32) by (bit_vector); }

impl SourceId {
//@@ item core/src/diagnostics/source_manager.rs :: impl SourceId :: const GROUP_MASK
//@@ end
//@@ item core/src/diagnostics/source_manager.rs :: impl SourceId :: const INDEX_MASK
//@@ end
//@@ item core/src/diagnostics/source_manager.rs :: impl SourceId :: const MAX_INDEX
//@@ end
//@@ fn core/src/diagnostics/source_manager.rs :: impl SourceId :: file
//@@ ret r
//@@ spec
    requires id <= IDX(), // documented panic otherwise
    ensures rep(r, SourceGroup::File, id as int),
//@@ at entry
    proof { masks(); bits(id); }
//@@ end
//@@ fn core/src/diagnostics/source_manager.rs :: impl SourceId :: argument
//@@ ret r
//@@ spec
    requires id <= IDX(),
    ensures rep(r, SourceGroup::Argument, id as int),
//@@ at entry
    proof { masks(); bits(id); }
//@@ end
//@@ fn core/src/diagnostics/source_manager.rs :: impl SourceId :: new_unchecked
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    requires id <= IDX(),
    ensures rep(r, SourceGroup::File, id as int),
//@@ at entry
    proof { masks(); bits(id); }
//@@ end
//@@ fn core/src/diagnostics/source_manager.rs :: impl SourceId :: to_index
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    requires id_ok(self),
    ensures r == ix(self), 0 <= r <= IDX(),
//@@ at entry
    proof { masks(); bits(self.0); }
//@@ end
//@@ fn core/src/diagnostics/source_manager.rs :: impl SourceId :: group
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ sub? `unsafe { *(&group as *const u32).cast::<SourceGroup>() }` => `rt_group(group)`
//@@ spec
    requires id_ok(*self),
    ensures r == grp(*self),
//@@ at entry
    proof { masks(); bits(self.0); }
//@@ end
//@@ fn core/src/diagnostics/source_manager.rs :: impl SourceId :: is_cli_argument
//@@ ret r
//@@ sub? `const fn` => `fn`
//@@ spec
    requires id_ok(*self),
    ensures r == (grp(*self) is Argument),
//@@ end
//@@ fn core/src/diagnostics/source_manager.rs :: impl TryFrom for SourceId :: try_from
//@@ ret r
//@@ sub? `Self::Error` => `()`
//@@ sub? `u32::try_from(id)` => `rt_u32(id)`
//@@ spec
    ensures match r { Ok(x) => rep(x, SourceGroup::File, id as int), Err(_) => id > IDX() },
//@@ at entry
    proof { masks(); if id <= u32::MAX { bits(id as u32); } }
//@@ end
}
pub fn rt_u32(n: usize) -> (r: Result<u32, ()>) // u32::try_from
    ensures match r { Ok(x) => x == n, Err(_) => n > u32::MAX }
{ if n <= 0xffff_ffff { Ok(n as u32) } else { Err(()) } }
pub fn rt_expect(r: Result<u32, ()>) -> (x: u32) requires r is Ok ensures Ok::<u32, ()>(x) == r { match r { Ok(x) => x, Err(_) => rt_unreachable() } }

// ---------------------------------------------------------------- texts and names
#[verifier::external_body] // FileName: names are equal when they display the same
pub struct FileName { x: u8 }
impl FileName { pub uninterp spec fn n(&self) -> Seq<char>; }
#[verifier::external_body] // Selection, opaque (unit source)
pub struct Selection { x: u8 }
#[verifier::external_body] // SourceContentUpdateError, opaque
pub struct SourceContentUpdateError { x: u8 }
pub enum SourceManagerError { InvalidSourceId, InvalidBounds, InvalidContentUpdate(SourceContentUpdateError) }
#[verifier::external_body] // SourceContent, proved in unit source
pub struct SourceContent { x: u8 }
pub uninterp spec fn edited(t: Seq<char>, text: Seq<char>, range: Option<Selection>, r: Seq<char>) -> bool;
impl SourceContent {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body] // SourceContent::as_str
    pub fn as_str(&self) -> (r: &str) ensures r@ == self.t() { unimplemented!() }
    #[verifier::external_body] // SourceContent::update, proved in unit source: a splice, or an error and nothing changed
    pub fn update(&mut self, text: String, range: Option<Selection>, version: i32) -> (r: Result<(), SourceContentUpdateError>)
        ensures r is Ok ==> edited(old(self).t(), text@, range, final(self).t()), r is Err ==> *final(self) == *old(self),
    { unimplemented!() }
}
#[verifier::external_body] // equality of str
pub fn rt_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@@ item core/src/diagnostics/source_file.rs :: struct SourceFile
//@@ end
impl SourceFile {
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceFile :: from_raw_parts
//@@ ret r
//@@ spec
    ensures r.id == id, r.content == content,
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceFile :: as_str
//@@ ret r
//@@ spec
    ensures r@ == self.content.t(),
//@@ end
//@@ fn core/src/diagnostics/source_file.rs :: impl SourceFile :: content_mut
//@@ ret r
//@@ spec
    ensures *r == old(self).content, final(self).content == *final(r), final(self).id == old(self).id,
//@@ end
}
#[verifier::external_body] // std BTreeMap, keyed by the order of FileName
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
impl BTreeMap<FileName, SourceId> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, SourceId>;
    #[verifier::external_body] // BTreeMap::get
    pub fn get(&self, k: &FileName) -> (r: Option<&SourceId>)
        ensures match r { Some(s) => self.m().contains_key(k.n()) && self.m()[k.n()] == *s, None => !self.m().contains_key(k.n()) }
    { unimplemented!() }
    #[verifier::external_body] // BTreeMap::insert
    pub fn insert(&mut self, k: FileName, v: SourceId) ensures final(self).m() == old(self).m().insert(k.n(), v) { unimplemented!() }
}
pub fn rt_copied(o: Option<&SourceId>) -> (r: Option<SourceId>) ensures match o { Some(x) => r == Some(*x), None => r is None } { match o { Some(x) => Some(*x), None => None } }
pub fn rt_get_cloned(v: &Vec<Arc<SourceFile>>, i: usize) -> (r: Option<Arc<SourceFile>>) // slice::get(..).cloned()
    ensures match r { Some(x) => i < v.len() && x == v[i as int], None => i >= v.len() }
{ if i < v.len() { Some(v[i].clone()) } else { None } }
pub fn rt_ok_or<T>(o: Option<T>, e: SourceManagerError) -> (r: Result<T, SourceManagerError>) ensures match o { Some(x) => r == Ok::<T, SourceManagerError>(x), None => r == Err::<T, SourceManagerError>(e) }
{ match o { Some(x) => Ok(x), None => Err(e) } }
#[verifier::external_body] // Vec::get_mut
pub fn rt_get_mut(v: &mut Vec<Arc<SourceFile>>, i: usize) -> (r: Option<&mut Arc<SourceFile>>)
    ensures match r {
        Some(x) => i < old(v).len() && *x == old(v)[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)),
        None => i >= old(v).len() && final(v)@ == old(v)@,
    }
{ unimplemented!() }
#[verifier::external_body] // Arc::make_mut: copy on write, other handles keep the old value
pub fn rt_make_mut(a: &mut Arc<SourceFile>) -> (r: &mut SourceFile) ensures *r == **old(a), *final(r) == **final(a) { unimplemented!() }
pub fn rt_map_err(r: Result<(), SourceContentUpdateError>) -> (x: Result<(), SourceManagerError>) // map_err(InvalidContentUpdate)
    ensures r is Ok ==> x is Ok, r is Err ==> x is Err
{ match r { Ok(()) => Ok(()), Err(e) => Err(SourceManagerError::InvalidContentUpdate(e)) } }

//@@ item core/src/diagnostics/source_manager.rs :: struct DefaultSourceManagerImpl
//@@ end
// ---------------------------------------------------------------- the table
pub type Tab = DefaultSourceManagerImpl;
pub open spec fn at(m: Tab, id: SourceId) -> Option<SourceFile> {
    match grp(id) {
        SourceGroup::Argument => if ix(id) < m.arguments.len() { Some(*m.arguments[ix(id)]) } else { None },
        _ => if ix(id) < m.files.len() { Some(*m.files[ix(id)]) } else { None },
    }
}
pub open spec fn inv(m: Tab) -> bool {
    &&& m.files.len() <= IDX() && m.arguments.len() <= IDX() + 1
    &&& forall|i: int| 0 <= i < m.files.len() ==> rep((#[trigger] m.files[i]).id, SourceGroup::File, i)
    &&& forall|i: int| 0 <= i < m.arguments.len() ==> rep((#[trigger] m.arguments[i]).id, SourceGroup::Argument, i)
    &&& forall|n: Seq<char>| #[trigger] m.uris.m().contains_key(n) ==> id_ok(m.uris.m()[n]) && !(grp(m.uris.m()[n]) is Unknown) && at(m, m.uris.m()[n]) is Some
}
// every id handed out keeps its text
pub open spec fn keeps(a: Tab, b: Tab) -> bool { forall|id: SourceId| id_ok(id) && (#[trigger] at(a, id)) is Some ==> at(b, id) == at(a, id) }
impl DefaultSourceManagerImpl {
//@@ fn core/src/diagnostics/source_manager.rs :: impl DefaultSourceManagerImpl :: insert
//@@ ret r
//@@ sub? `self.uris.get(&uri).copied()` => `rt_copied(self.uris.get(&uri))`
//@@ sub? `.and_then(|id| $x)` => `.and_then(|id: SourceId| -> (o: Option<Arc<SourceFile>>) requires id_ok(id), !(grp(id) is Unknown), at(*self, id) is Some ensures match o { Some(f) => at(*self, id) == Some(*f) && f.content.t() == content.t(), None => at(*self, id)->0.content.t() != content.t() } $x)`
//@@ sub? `file.as_str() == content.as_str()` => `rt_str_eq(file.as_str(), content.as_str())`
//@@ sub? `u32::try_from($x).expect($y)` => `rt_expect(rt_u32($x))`
//@@ spec
    requires inv(*old(self)), !(group is Unknown), // documented: sources are files or arguments
        old(self).files.len() < IDX(), old(self).arguments.len() <= IDX(), // documented panic beyond 2^24 sources
    ensures inv(*final(self)), keeps(*old(self), *final(self)), id_ok(r.id),
        r.content.t() == content.t(), at(*final(self), r.id) == Some(*r),
        // the latest source of a name is found under it, every other name keeps its source
        final(self).uris.m() == old(self).uris.m().insert(uri.n(), r.id),
        // the same text under the same name is the same source
        old(self).uris.m().contains_key(uri.n()) && at(*old(self), old(self).uris.m()[uri.n()])->0.content.t() == content.t() ==> r.id == old(self).uris.m()[uri.n()] && *final(self) == *old(self),
        // any other text is a new source
        !(old(self).uris.m().contains_key(uri.n()) && at(*old(self), old(self).uris.m()[uri.n()])->0.content.t() == content.t()) ==> at(*old(self), r.id) is None && grp(r.id) == group,
//@@ end
//@@ fn core/src/diagnostics/source_manager.rs :: impl DefaultSourceManagerImpl :: get
//@@ ret r
//@@ sub? `self.arguments.get($x).cloned().ok_or($y)` => `rt_ok_or(rt_get_cloned(&self.arguments, $x), $y)`
//@@ sub? `self.files.get($x).cloned().ok_or($y)` => `rt_ok_or(rt_get_cloned(&self.files, $x), $y)`
//@@ spec
    requires id_ok(id),
    ensures match r { Ok(f) => at(*self, id) == Some(*f), Err(e) => e is InvalidSourceId && at(*self, id) is None },
//@@ end
//@@ fn core/src/diagnostics/source_manager.rs :: impl DefaultSourceManagerImpl :: find
//@@ ret r
//@@ sub? `self.uris.get(uri).copied()` => `rt_copied(self.uris.get(uri))`
//@@ spec
    ensures match r { Some(id) => self.uris.m().contains_key(uri.n()) && self.uris.m()[uri.n()] == id, None => !self.uris.m().contains_key(uri.n()) },
//@@ end
//@@ fn core/src/diagnostics/source_manager.rs :: impl SourceManager for DefaultSourceManager :: update
//@@ ret r
//@@ sub? `&self` => `&mut self`
//@@ sub? `let mut manager = self.0.write();` => `let manager = self;`
//@@ sub? `manager.files.get_mut($x).ok_or($y)?` => `match rt_get_mut(&mut manager.files, $x) { Some(rt_f) => rt_f, None => return Err($y) }`
//@@ sub? `manager.arguments.get_mut($x).ok_or($y)?` => `match rt_get_mut(&mut manager.arguments, $x) { Some(rt_f) => rt_f, None => return Err($y) }`
//@@ sub? `Arc::make_mut` => `rt_make_mut`
//@@ sub? `source_file_cloned.content_mut().update($x).map_err($y)` => `rt_map_err(source_file_cloned.content_mut().update($x))`
//@@ spec
    requires inv(*old(self)), id_ok(id),
    ensures inv(*final(self)), final(self).uris == old(self).uris,
        // no other source changes
        forall|o: SourceId| id_ok(o) && o != id && !(grp(o) is Unknown) ==> #[trigger] at(*final(self), o) == at(*old(self), o),
        r is Ok ==> at(*old(self), id) is Some && at(*final(self), id) is Some && at(*final(self), id)->0.id == at(*old(self), id)->0.id && edited(at(*old(self), id)->0.content.t(), text@, range, at(*final(self), id)->0.content.t()),
        r is Err ==> forall|o: SourceId| id_ok(o) ==> #[trigger] at(*final(self), o) == at(*old(self), o),
        at(*old(self), id) is None || grp(id) is Unknown ==> r is Err,
//@@ end
}
}
fn main() {}
