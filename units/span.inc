verus! {
// source positions, of which only the offsets are modelled
#[derive(Copy, Clone)]
#[verifier::external_body]
pub struct SourceSpan { x: u8 }
#[derive(Copy, Clone)]
#[verifier::external_body]
pub struct SourceId { x: u8 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct ByteIndex { x: u32 }
impl ByteIndex {
    pub uninterp spec fn at(self) -> int;
    #[verifier::external_body]
    pub fn to_usize(self) -> (r: usize) ensures r == self.at() { unimplemented!() }
}
impl SourceSpan {
    pub uninterp spec fn s(self) -> int;
    #[verifier::external_body]
    pub fn source_id(&self) -> SourceId { unimplemented!() }
    #[verifier::external_body]
    pub fn start(&self) -> (r: ByteIndex) ensures r.at() == self.s() { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> ByteIndex { unimplemented!() }
}
#[verifier::external_body] // the cursor (see the cursor unit)
pub struct CursorGuard<'a, 'input> { x: &'a &'input u8 }
}
