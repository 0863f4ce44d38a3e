//@@ include env.vrs
// numeric expressions: evaluation, constraints and conversion of captures
verus! {
#[verifier::external_body] // a diagnostic, content not modelled
pub struct Report { x: u8 }
pub type DiagResult<X> = Result<X, Report>;
#[verifier::external_body]
pub fn rt_err() -> Report { unimplemented!() }
pub enum Either<L, R> { Left(L), Right(R) }
use Either::{Left, Right};
#[verifier::external_body] // SourceSpan::new(source_id, Range::new(start, end)), only used for diagnostics
pub fn rt_span() -> SourceSpan { unimplemented!() }
#[verifier::external_body] // Arc<SourceFile>
pub struct SourceRef { x: u8 }
impl SourceRef {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes(), r@.len() < usize::MAX { unimplemented!() }
}
impl Symbol {
    pub uninterp spec fn line_id() -> int; // symbols::Line
    #[verifier::external_body]
    pub fn rt_is_line(&self) -> (r: bool) ensures r == (Symbol::id(self) == Symbol::line_id()) { unimplemented!() }
}
//@@ item filecheck/src/expr/mod.rs :: enum BinaryOp
//@@ derive Copy, Clone
//@@ end
//@@ item filecheck/src/expr/mod.rs :: enum Expr
//@@ end
//@@ item filecheck/src/expr/value.rs :: enum Value
//@@ end
//@@ item filecheck/src/expr/value.rs :: enum ValueType
//@@ derive Copy, Clone
//@@ end
impl<'a> Value<'a> {
    #[verifier::external_body] // derived Clone
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl VariableName {
    #[verifier::external_body] // Spanned::span, only used for diagnostics
    pub fn span(&self) -> SourceSpan { unimplemented!() }
}
impl Expr {
    #[verifier::external_body] // Spanned::span
    pub fn span(&self) -> SourceSpan { unimplemented!() }
}

// ---------------------------------------------------------------- the format of an expression
pub open spec fn mx(a: u8, b: u8) -> u8 { if a <= b { b } else { a } }
pub open spec fn prec_ok(a: u8, b: u8) -> bool { a == b || a == 0 || b == 0 }
pub open spec fn case_compat(a: CasingStyle, b: CasingStyle) -> bool { a == b || a is Any || b is Any }
/// the format two operands agree on: the more precise of the two
pub open spec fn joint(a: Option<F>, b: Option<F>) -> Option<F> {
    match (a, b) {
        (None, None) => Some(dflt()),
        (Some(x), None) => Some(x),
        (None, Some(y)) => Some(y),
        (Some(NumberFormat::Unsigned { precision: p }), Some(NumberFormat::Unsigned { precision: q })) => if prec_ok(p, q) { Some(NumberFormat::Unsigned { precision: mx(p, q) }) } else { None },
        (Some(NumberFormat::Signed { precision: p }), Some(NumberFormat::Signed { precision: q })) => if prec_ok(p, q) { Some(NumberFormat::Signed { precision: mx(p, q) }) } else { None },
        (Some(NumberFormat::Hex { precision: p, require_prefix: x, casing: c }), Some(NumberFormat::Hex { precision: q, require_prefix: y, casing: d })) =>
            if prec_ok(p, q) && x == y && case_compat(c, d) { Some(NumberFormat::Hex { precision: mx(p, q), require_prefix: x, casing: if c is Any { d } else { c } }) } else { None },
        _ => None,
    }
}
pub fn rt_umax(a: u8, b: u8) -> (r: u8) ensures r == mx(a, b) { if a <= b { b } else { a } }
pub fn rt_imax(a: i128, b: i128) -> (r: i128) ensures r == (if a <= b { b } else { a }) { if a <= b { b } else { a } }
pub fn rt_imin(a: i128, b: i128) -> (r: i128) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
impl Number {
//@@ fn filecheck/src/expr/num.rs :: impl Number :: infer_expression_format
//@@ pre `core::cmp::max(` => `rt_umax(`
//@@ pre `NumberFormat::default()` => `rt_or_default(None)`
//@@ ret r
//@@ spec
    ensures r == joint(self.format, other.format)
//@@ end
}

// ---------------------------------------------------------------- the value of an expression
/// division rounds towards zero
pub open spec fn tdiv(a: int, b: int) -> int { let x = if a < 0 { -a } else { a }; let y = if b < 0 { -b } else { b }; if (a < 0) == (b < 0) { x / y } else { -(x / y) } }
pub open spec fn arith(op: BinaryOp, a: int, b: int) -> Option<int> {
    let r = match op {
        BinaryOp::Add => a + b, BinaryOp::Sub => a - b, BinaryOp::Mul => a * b,
        BinaryOp::Div => if b == 0 { return_none() } else { tdiv(a, b) },
        BinaryOp::Min => if a <= b { a } else { b }, BinaryOp::Max => if a <= b { b } else { a },
        BinaryOp::Eq => if a == b { 1 } else { 0 },
    };
    if fits(r) { Some(r) } else { None }
}
pub open spec fn return_none() -> int { i128::MAX + 1 } // no value: does not fit
pub ghost enum R { N(int, Option<F>), S(T), Bad }
pub open spec fn ids(v: Seq<VariableName>) -> Seq<Id> { v.map_values(|n: VariableName| n.id()) }
pub open spec fn names<V>(b: B<V>) -> Set<Id> { b.loc.dom() + b.glob.dom().map(|x: Id| (2int, x.1)) + b.sys.dom().map(|x: Id| (2int, x.1)) + b.sys.dom().map(|x: Id| (3int, x.1)) }
pub open spec fn left<V>(b: B<V>, vis: Seq<Id>) -> nat { names(b).difference(vis.to_set()).len() }
/// values without their source positions
pub ghost enum Av { U, S(T), N(int, Option<F>), E(Expr) }
pub open spec fn av<'a>(v: Value<'a>) -> Av { match v { Value::Undef => Av::U, Value::Str(s) => Av::S(s.t()), Value::Num(Expr::Num(n)) => Av::N(n.value as int, n.format), Value::Num(e) => Av::E(e) } }
pub open spec fn avm<'a>(m: M<Value<'a>>) -> M<Av> { m.map_values(|v: Value<'a>| av(v)) }
pub open spec fn bv<'a>(b: B<Value<'a>>) -> B<Av> { B { sys: avm(b.sys), glob: avm(b.glob), loc: avm(b.loc) } }
pub broadcast proof fn lemma_bv_look<'a>(b: B<Value<'a>>, n: VariableName) ensures #![trigger look(bv(b), n)] #![trigger look(b, n)] look(bv(b), n) == (match look(b, n) { Some(v) => Some(av(v)), None => None }) { }
pub broadcast proof fn lemma_bv_ins<'a>(b: B<Value<'a>>, n: VariableName, v: Value<'a>) ensures bv(#[trigger] ins(b, n, v)) == ins(bv(b), n, av(v)) {
    assert forall|m: M<Value<'a>>, k: Id| #[trigger] avm(m.insert(k, v)) == avm(m).insert(k, av(v)) by { assert(avm(m.insert(k, v)) =~= avm(m).insert(k, av(v))); }
}
pub broadcast proof fn lemma_bv_merged<'a>(a: B<Value<'a>>, b: B<Value<'a>>) ensures bv(#[trigger] merged(a, b)) == merged(bv(a), bv(b)) {
    assert(avm(a.glob.union_prefer_right(b.glob)) =~= avm(a.glob).union_prefer_right(avm(b.glob)));
    assert(avm(a.loc.union_prefer_right(b.loc)) =~= avm(a.loc).union_prefer_right(avm(b.loc)));
}
pub proof fn lemma_bv_left<'a>(b: B<Value<'a>>, vis: Seq<Id>) ensures left(bv(b), vis) == left(b, vis) {
    assert(names(bv(b)) =~= names(b)) by { assert(avm(b.loc).dom() =~= b.loc.dom()); assert(avm(b.glob).dom() =~= b.glob.dom()); assert(avm(b.sys).dom() =~= b.sys.dom()); }
}
pub ghost struct Cx { pub b: B<Av>, pub text: Seq<u8>, pub want: Option<F> }
pub open spec fn nls(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nls(s.drop_last()) + (if s.last() == 10 { 1int } else { 0 }) } }
/// the line of the pattern text an offset is on
pub open spec fn line_of(s: Seq<u8>, off: int) -> int { nls(s.take(if off < s.len() { off } else { s.len() as int })) + 1 }
/// the value of an expression; `vis` are the variables whose definition it is part of
pub open spec fn ev(e: Expr, cx: Cx, vis: Seq<Id>) -> R decreases left(cx.b, vis), e via ev_dec {
    match e {
        Expr::Num(n) => R::N(n.value as int, n.format),
        Expr::Var(n) => match n {
            VariableName::Pseudo(s) => if s.spanned.id() == Symbol::line_id() { R::N(line_of(cx.text, s.span.s()), None) } else { R::Bad },
            _ => match look(cx.b, n) {
                None => R::Bad,
                Some(Av::U) => R::Bad,
                Some(Av::S(s)) => R::S(s),
                // a definition cannot use the name it defines
                Some(Av::N(v, f)) => if vis.contains(n.id()) { R::Bad } else { R::N(v, f) },
                Some(Av::E(d)) => if vis.contains(n.id()) { R::Bad } else { ev(d, cx, vis.push(n.id())) },
            },
        },
        Expr::Binary { op, lhs, rhs, .. } => op_value(op, ev(*lhs, cx, vis), ev(*rhs, cx, vis), cx.want),
    }
}
pub open spec fn op_value(op: BinaryOp, l: R, r: R, want: Option<F>) -> R {
    match (l, r) {
        (R::N(a, f), R::N(b, g)) => {
            let h = match joint(f, g) { Some(x) => Some(x), None => want };
            match (h, arith(op, a, b)) {
                (Some(x), Some(v)) => R::N(v, if f is None && g is None && want is None { None } else { Some(x) }),
                _ => R::Bad,
            }
        }
        _ => R::Bad,
    }
}
pub proof fn lemma_left<V>(b: B<V>, n: VariableName, vis: Seq<Id>) requires !(n is Pseudo), look(b, n) is Some, !vis.contains(n.id()) ensures left(b, vis.push(n.id())) < left(b, vis)
{
    let s = (0int, n.sym());
    assert(names(b).contains(n.id())) by {
        match n {
            VariableName::User(_) => { if !b.loc.dom().contains(n.id()) { assert(b.sys.dom().contains(s)); assert(b.sys.dom().map(|x: Id| (3int, x.1)).contains((3int, s.1))); } }
            _ => { if b.glob.dom().contains(s) { assert(b.glob.dom().map(|x: Id| (2int, x.1)).contains((2int, s.1))); } else { assert(b.sys.dom().contains(s)); assert(b.sys.dom().map(|x: Id| (2int, x.1)).contains((2int, s.1))); } }
        }
    }
    let x = names(b).difference(vis.to_set());
    assert(vis.push(n.id()).to_set() =~= vis.to_set().insert(n.id())) by {
        let w = vis.push(n.id());
        assert forall|y: Id| w.to_set().contains(y) == vis.to_set().insert(n.id()).contains(y) by {
            if vis.contains(y) { let i = choose|i: int| 0 <= i < vis.len() && vis[i] == y; assert(w[i] == y); }
            if y == n.id() { assert(w[vis.len() as int] == y); }
            if w.contains(y) { let i = choose|i: int| 0 <= i < w.len() && w[i] == y; if i < vis.len() { assert(vis[i] == y); } }
        }
    }
    assert(names(b).difference(vis.push(n.id()).to_set()) =~= x.remove(n.id()));
    assert(x.contains(n.id()));
}
#[via_fn]
proof fn ev_dec(e: Expr, cx: Cx, vis: Seq<Id>) {
    match e { Expr::Var(n) => { if !(n is Pseudo) && look(cx.b, n) is Some && !vis.contains(n.id()) { lemma_left(cx.b, n, vis); } } _ => {} }
}
pub open spec fn want_of(ty: Option<ValueType>) -> Option<F> { match ty { Some(ValueType::Number(f)) => f, _ => None } }
pub open spec fn is_r<'a>(r: DiagResult<Either<Number, Cow<'a, str>>>, x: R) -> bool {
    match r { Err(_) => x is Bad, Ok(Left(n)) => x == R::N(n.value as int, n.format), Ok(Right(s)) => x == R::S(s.t()) }
}
pub trait Ints: Sized { spec fn i(&self) -> int;
    fn rt_checked_add(self, o: i128) -> (r: Option<i128>) ensures r == (if fits(self.i() + o) { Some((self.i() + o) as i128) } else { None });
    fn rt_checked_sub(self, o: i128) -> (r: Option<i128>) ensures r == (if fits(self.i() - o) { Some((self.i() - o) as i128) } else { None });
    fn rt_checked_mul(self, o: i128) -> (r: Option<i128>) ensures r == (if fits(self.i() * o) { Some((self.i() * o) as i128) } else { None });
    fn rt_checked_div(self, o: i128) -> (r: Option<i128>) ensures r == (if o != 0 && fits(tdiv(self.i(), o as int)) { Some(tdiv(self.i(), o as int) as i128) } else { None });
}
impl Ints for i128 { open spec fn i(&self) -> int { *self as int }
    #[verifier::external_body] fn rt_checked_add(self, o: i128) -> (r: Option<i128>) { unimplemented!() }
    #[verifier::external_body] fn rt_checked_sub(self, o: i128) -> (r: Option<i128>) { unimplemented!() }
    #[verifier::external_body] fn rt_checked_mul(self, o: i128) -> (r: Option<i128>) { unimplemented!() }
    #[verifier::external_body] fn rt_checked_div(self, o: i128) -> (r: Option<i128>) { unimplemented!() }
}
pub fn rt_or<X>(a: Option<X>, b: Option<X>) -> (r: Option<X>) ensures r == (match a { Some(x) => Some(x), None => b }) { match a { Some(x) => Some(x), None => b } }
#[verifier::external_body] // slice::contains with VariableName: PartialEq (kind and symbol)
pub fn rt_contains(v: &Vec<VariableName>, n: &VariableName) -> (r: bool) ensures r == ids(v@).contains(n.id()) { unimplemented!() }
#[verifier::external_body] // memchr_iter(b'\n', &bytes[..end]).count()
pub fn rt_count_nl(b: &[u8], end: usize) -> (r: usize) requires end <= b@.len() ensures r == nls(b@.take(end as int)) { unimplemented!() }

// ---------------------------------------------------------------- the context of a match
pub struct Options { pub strict_whitespace: bool, pub enable_var_scope: bool, pub ignore_case: bool }
pub struct Config { pub options: Options } // the options read below
//@@ item filecheck/src/context.rs :: struct ContextGuard
//@@ sub `ScopeGuard<'guard, 'input, Value<'input>>` => `ScopeGuard<'guard, Value<'input>>`
//@@ sub `Arc < SourceFile >` => `SourceRef`
//@@ end
impl<'guard, 'input, 'context> ContextGuard<'guard, 'input, 'context> {
    pub open spec fn cx(&self, want: Option<F>) -> Cx { Cx { b: bv(self.scope.bindings.b()), text: self.match_file.bytes(), want } }
    #[verifier::external_body] // lookup of a source file, only used for diagnostics
    pub fn source_file(&self, id: SourceId) -> Option<SourceRef> { unimplemented!() }
//@@ fn filecheck/src/context.rs :: impl Context for ContextGuard :: env
//@@ sig `pub fn env(&self) -> (r: &ScopeGuard<'guard, Value<'input>>)`
//@@ spec
    ensures *r == self.scope
//@@ end
//@@ fn filecheck/src/context.rs :: impl Context for ContextGuard :: match_file_bytes
//@@ sig `pub fn match_file_bytes(&self) -> (r: &[u8])`
//@@ spec
    ensures r@ == self.match_file.bytes(), r@.len() < usize::MAX
//@@ end
//@@ fn filecheck/src/context.rs :: trait Context :: pseudo_line_for_offset
//@@ pre `core::cmp::min(` => `rt_min(`
//@@ pre `memchr::memchr_iter(b'\n', &bytes[..end]).count()` => `rt_count_nl(bytes, end)`
//@@ sig `pub fn pseudo_line_for_offset(&self, offset: usize) -> (r: usize)`
//@@ at entry
    proof { lemma_nls(self.match_file.bytes().take(if offset < self.match_file.bytes().len() { offset as int } else { self.match_file.bytes().len() as int })); }
//@@ spec
    ensures r == line_of(self.match_file.bytes(), offset as int)
//@@ end
}
pub proof fn lemma_nls(s: Seq<u8>) ensures 0 <= nls(s) <= s.len() decreases s.len() { if s.len() > 0 { lemma_nls(s.drop_last()); } }

// ---------------------------------------------------------------- evaluation
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: fn located_or
//@@ sig `pub fn located_or(span: SourceSpan, default: SourceSpan, context: &ContextGuard<'_, '_, '_>) -> (r: SourceSpan)`
//@@ spec
    ensures r == span || r == default
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: fn evaluate_expr
//@@ sig `pub fn evaluate_expr<'input>(span: SourceSpan, expr: &Expr, ty: Option<ValueType>, context: &ContextGuard<'_, 'input, '_>) -> (r: DiagResult<Either<Number, Cow<'input, str>>>)`
//@@ pre `&mut vec![]` => `&mut Vec::new()`
//@@ at entry
    proof { assert(ids(Seq::<VariableName>::empty()) =~= Seq::<Id>::empty()); assert forall|v: Seq<VariableName>| v.len() == 0 implies #[trigger] ids(v) == Seq::<Id>::empty() by { assert(ids(v) =~= Seq::<Id>::empty()); } }
//@@ spec
    ensures is_r(r, ev(*expr, context.cx(want_of(ty)), Seq::empty()))
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/searcher.rs :: fn evaluate_expr_resolving
//@@ sig `pub fn evaluate_expr_resolving<'input>(span: SourceSpan, expr: &Expr, ty: Option<ValueType>, resolving: &mut Vec<VariableName>, context: &ContextGuard<'_, 'input, '_>) -> (r: DiagResult<Either<Number, Cow<'input, str>>>)`
//@@ pre `env.get(var).cloned().ok_or_else(|| $e)?` => `(match env.get(var) { Some(rt_v) => rt_v.clone(), None => return Err(rt_err()) })`
//@@ pre `Err(Report::new($x))` => `Err(rt_err())`
//@@ pre `Err(litcheck::diagnostics::diagnostic!($x).into())` => `Err(rt_err())`
//@@ pre `resolving.contains(var)` => `rt_contains(resolving, var)`
//@@ pre `match name.into_inner() { symbols::Line => { $X } name => { $Y } }` => `{ let rt_n = name.into_inner(); if rt_n.rt_is_line() { $X } else { let name = rt_n; $Y } }`
//@@ pre `format: Default::default()` => `format: None`
//@@ pre `value: line.try_into().unwrap()` => `value: line as i128`
//@@ pre `if let Some(format) = $a.or($b) {` => `if let Some(format) = rt_or($a, $b) {`
//@@ pre `.checked_add(` => `.rt_checked_add(`
//@@ pre `.checked_sub(` => `.rt_checked_sub(`
//@@ pre `.checked_mul(` => `.rt_checked_mul(`
//@@ pre `.checked_div(` => `.rt_checked_div(`
//@@ pre `core::cmp::min(` => `rt_imin(`
//@@ pre `core::cmp::max(` => `rt_imax(`
//@@ at entry
    let ghost b0 = context.scope.bindings.b(); let ghost vis0 = ids(resolving@);
    proof {
        broadcast use lemma_bv_look; assert forall|v: Seq<Id>| #[trigger] left(bv(b0), v) == left(b0, v) by { lemma_bv_left(b0, v); }
        assert forall|v: Seq<VariableName>, n: VariableName| #[trigger] ids(v.push(n)) == ids(v).push(n.id()) by { assert(ids(v.push(n)) =~= ids(v).push(n.id())); }
        assert forall|n: VariableName| !(n is Pseudo) && look(b0, n) is Some && !vis0.contains(n.id()) implies left(b0, #[trigger] vis0.push(n.id())) < left(b0, vis0) by { lemma_left(b0, n, vis0); }
        assert forall|v: Seq<VariableName>, n: VariableName| #[trigger] v.push(n).drop_last() == v by { assert(v.push(n).drop_last() =~= v); }
    }
//@@ spec
    ensures is_r(r, ev(*expr, context.cx(want_of(ty)), ids(old(resolving)@))), final(resolving)@ == old(resolving)@
    decreases left(context.scope.bindings.b(), ids(old(resolving)@)), *expr
//@@ end

// ---------------------------------------------------------------- the operand stack
#[derive(Copy, Clone)]
#[verifier::external_body] // core::num::IntErrorKind
pub struct NotUsed { x: u8 }
//@@ item filecheck/src/expr/mod.rs :: struct TypedVariable
//@@ derive Copy, Clone
//@@ end
//@@ item filecheck/src/ast/pattern.rs :: enum Capture
//@@ derive Copy, Clone
//@@ end
//@@ item filecheck/src/pattern/matcher/result.rs :: struct CaptureInfo
//@@ end
//@@ item filecheck/src/pattern/matcher/matchers/smart/operand.rs :: struct Operand
//@@ end
pub open spec fn undigit(s: T) -> bool { s.len() > 0 && !white(s[0]) && !white(s.last()) }
/// the number an operand stands for in a format: that of a number, or what its text denotes
pub open spec fn num_of(v: Av, f: F) -> Option<int> {
    match v { Av::U => None, Av::S(s) => cast(s, f), Av::N(n, _) => Some(n), Av::E(_) => None }
}
/// the number an operand becomes in a format
pub open spec fn as_num(v: Av, f: Option<F>) -> Av { match v { Av::S(s) => Av::N(cast(s, eff(f))->0, f), _ => v } }
/// the conversion of a text; for the texts of the format, what they denote (lemma_cast)
pub open spec fn cast(s: T, f: F) -> Option<int> {
    let t = trimmed(s);
    match f {
        NumberFormat::Unsigned { .. } => match std_read(t, 10) { Some(v) if v >= 0 => Some(v), _ => None },
        NumberFormat::Signed { .. } => std_read(t, 10),
        NumberFormat::Hex { require_prefix, .. } => if require_prefix && !pfx(t, ox()) { None } else {
            let z = trim0(if require_prefix { t.skip(2) } else { t }, '0');
            if z.len() == 0 { Some(0) } else { std_read(z, 16) }
        },
    }
}
pub proof fn lemma_cast(s: T, f: F) requires in_format(s, f) ensures cast(s, f) == (if fits(meaning(s, f)) { Some(meaning(s, f)) } else { None })
{
    reveal_strlit("0x");
    lemma_lang(s, f); lemma_in_format(s, f);
    if f is Hex { lemma_unpadded(unox(s), 16); }
}
pub proof fn lemma_unpadded(s: T, b: int) requires digs(s, b), b == 10 || b == 16
    ensures trimmed(s) == s, ({ let r = trim0(s, '0'); (r.len() == 0 ==> val(s, b) == 0) && (r.len() > 0 ==> digs(r, b) && !sgn(r[0])) && val(r, b) == val(s, b) })
    decreases s.len()
{
    assert(dv(s[0]) < b && dv(s.last()) < b);
    ax_trim(s);
    assert(val(Seq::<char>::empty(), b) == 0);
    if s[0] == '0' {
        let k = s.skip(1);
        assert(s =~= zeros(1) + k);
        lemma_zeros(1, k, b);
        if k.len() > 0 { assert forall|i: int| 0 <= i < k.len() implies dv(#[trigger] k[i]) < b by { assert(k[i] == s[i + 1]); } lemma_unpadded(k, b); }
        else { assert(k =~= Seq::<char>::empty()); assert(trim0(k, '0') == k); }
        assert(trim0(s, '0') == trim0(k, '0'));
        assert(val(s, b) == val(k, b));
    } else { assert(trim0(s, '0') == s); assert(!sgn(s[0])); assert(digs(s, b)); }
}
pub proof fn lemma_lang(s: T, f: F) requires in_format(s, f) ensures trimmed(s) == s, match f {
        NumberFormat::Hex { require_prefix: true, .. } => pfx(s, ox()) && unox(s) == s.skip(2) && digs(s.skip(2), 16),
        NumberFormat::Hex { require_prefix: false, .. } => unox(s) == s && digs(s, 16),
        NumberFormat::Unsigned { .. } => digs(s, 10) && unsign(s) == s && !neg(s) && val(s, 10) >= 0, NumberFormat::Signed { .. } => digs(unsign(s), 10) }
{
    reveal_strlit("0x");
    lemma_in_format(s, f);
    match f {
        NumberFormat::Hex { require_prefix, .. } => {
            if require_prefix { assert(s.subrange(0, 2)[0] == '0'); assert(dv(s.skip(2).last()) < 16); ax_trim(s); }
            else { assert(dv(s[0]) < 16 && dv(s.last()) < 16); if pfx(s, ox()) { assert(s.subrange(0, 2)[1] == 'x'); assert(dv(s[1]) < 16); } ax_trim(s); }
        }
        NumberFormat::Unsigned { .. } => { assert(dv(s[0]) < 10 && dv(s.last()) < 10); ax_trim(s); val_nonneg(s, 10); }
        NumberFormat::Signed { .. } => { let u = unsign(s); assert(dv(u.last()) < 10 && dv(u[0]) < 10); assert(u.last() == s.last()); ax_trim(s); }
    }
}
impl<'a> Cow<'a, str> { // Deref to str
    #[verifier::external_body] pub fn rt_trim(&self) -> (r: &str) ensures r@ == trimmed(self.t()) { unimplemented!() }
}
impl<'input> Operand<'input> {
//@@ fn filecheck/src/pattern/matcher/matchers/smart/operand.rs :: impl Operand :: into_value
//@@ ret r
//@@ spec
    ensures r == self.0.value
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/operand.rs :: impl Operand :: as_value
//@@ ret r
//@@ spec
    ensures *r == self.0.value
//@@ end
//@@ fn filecheck/src/pattern/matcher/matchers/smart/operand.rs :: impl Operand :: as_numeric
//@@ sig `pub fn as_numeric(&self, span: SourceSpan, format: Option<NumberFormat>, context: &ContextGuard<'_, 'input, '_>) -> (r: DiagResult<Number>)`
//@@ pre `i128::from_str_radix($a, $b).map_err(|err| $x)?` => `(match rt_from_str_radix($a, $b) { Ok(rt_v) => rt_v, Err(_) => return Err(rt_err()) })`
//@@ pre `Err(InvalidNumericCastError { $x })` => `Err(rt_err())`
//@@ pre `format.unwrap_or_default()` => `rt_or_default(format)`
//@@ pre `.trim()` => `.rt_trim()`
//@@ pre `.trim_start_matches(` => `.rt_trim_start_matches(`
//@@ pre `.strip_prefix(` => `.rt_strip_prefix(`
//@@ pre `.is_empty()` => `.rt_is_empty()`
//@@ at entry
    proof { reveal_strlit("0x"); }
//@@ spec
    requires !(av(self.0.value) is E)
    ensures match num_of(av(self.0.value), eff(format)) { Some(v) => r matches Ok(n) && Av::N(n.value as int, n.format) == as_num(av(self.0.value), format), None => r is Err },
//@@ end
}
//@@ fn filecheck/src/pattern/matcher/matchers/smart/operand.rs :: fn parse_number
//@@ sig `pub fn parse_number(span: SourceSpan, value: &str, signed: bool, context: &ContextGuard<'_, '_, '_>) -> (r: DiagResult<i128>)`
//@@ pre `value.parse::<i128>().map_err(|err| $x)?` => `(match value.rt_parse() { Ok(rt_v) => rt_v, Err(_) => return Err(rt_err()) })`
//@@ pre `Err(InvalidNumericCastError { $x })` => `Err(rt_err())`
//@@ spec
    ensures match std_read(value@, 10) { Some(v) if signed || v >= 0 => r matches Ok(x) && x == v, _ => r is Err }
//@@ end

// ---------------------------------------------------------------- from the text of an expression to its tree
//@@ item filecheck/src/ast/mod.rs :: struct BinaryOpAndOperand
//@@ end
/// `e` is `lhs op1 x1 op2 x2 ..` grouped from the left
pub open spec fn left_assoc(e: Expr, lhs: Expr, rest: Seq<BinaryOpAndOperand>) -> bool decreases rest.len() {
    if rest.len() == 0 { e == lhs } else { e matches Expr::Binary { op, lhs: l, rhs: r, .. } && op == rest.last().op && *r == rest.last().operand && left_assoc(*l, lhs, rest.drop_last()) }
}
impl BinaryOpAndOperand {
//@@ fn filecheck/src/ast/mod.rs :: impl BinaryOpAndOperand :: apply_all
//@@ pre `SourceSpan::new($a, Range::new($b, $c))` => `rt_span()`
//@@ pre `for BinaryOpAndOperand { op, operand } in rest { $X }` => `let mut rt_rest = rest; while rt_rest.len() > 0 { let BinaryOpAndOperand { op, operand } = rt_rest.remove(0); $X }`
//@@ ret r
//@@ loop 0
    invariant rt_rest@.len() <= rest@.len(), rt_rest@ =~= rest@.skip(rest@.len() - rt_rest@.len()), left_assoc(expr, lhs, rest@.take(rest@.len() - rt_rest@.len()))
    decreases rt_rest@.len()
//@@ at loop 0 end
    proof { let k = rest@.len() - rt_rest@.len(); assert(rest@.take(k).drop_last() =~= rest@.take(k - 1)); assert(rest@.take(k).last() == rest@[k - 1]); }
//@@ at entry
    proof { assert(rest@.take(rest@.len() as int) =~= rest@); }
//@@ spec
    ensures left_assoc(r, lhs, rest@)
//@@ end
}
impl Symbol {
    pub uninterp spec fn s(&self) -> T;
    #[verifier::external_body] // Symbol::as_str (P12)
    pub fn as_str(&self) -> (r: &'static str) ensures r@ == self.s() { unimplemented!() }
}
#[verifier::external_body] // str: PartialEq
pub fn rt_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// the operation a built-in function stands for
pub open spec fn builtin(s: T) -> Option<BinaryOp> {
    if s == "add"@ { Some(BinaryOp::Add) } else if s == "sub"@ { Some(BinaryOp::Sub) } else if s == "mul"@ { Some(BinaryOp::Mul) }
    else if s == "div"@ { Some(BinaryOp::Div) } else if s == "min"@ { Some(BinaryOp::Min) } else if s == "max"@ { Some(BinaryOp::Max) } else { None }
}
impl Expr {
//@@ fn filecheck/src/expr/mod.rs :: impl Expr :: from_call
//@@ strmatch
//@@ sig `pub fn from_call(span: SourceSpan, callee: Span<Symbol>, args: Vec<Expr>) -> (r: DiagResult<Self>)`
//@@ pre `Err(InvalidCallExprError::Undefined { $x })` => `Err(rt_err())`
//@@ pre `Err(InvalidCallExprError::InvalidArity { $x })` => `Err(rt_err())`
//@@ pre `callee.as_str()` => `callee.spanned.as_str()`
//@@ at entry
    let mut args = args;
//@@ spec
    ensures match builtin(callee.spanned.s()) {
        Some(op) if args@.len() == 2 => r matches Ok(e) && e matches Expr::Binary { op: o, lhs, rhs, .. } && o == op && *lhs == args@[0] && *rhs == args@[1],
        _ => r is Err }
//@@ end
}
}
fn main() {}
