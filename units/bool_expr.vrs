//@@ include prelude.inc
// edition 2021
// REQUIRES / UNSUPPORTED / XFAIL feature expressions: parser against the documented grammar,
// evaluator against propositional semantics.
verus! {
#[verifier::external_body] // regex::Regex, opaque
pub struct Regex { x: u8 }
impl Regex { pub uninterp spec fn pat(&self) -> Seq<char>; }
#[verifier::external_body] // regex::Error, opaque
pub struct RegexError { x: u8 }

#[derive(Copy, Clone)]
pub struct SourceSpan { pub start: u32, pub end: u32 }
pub struct Span<T> { pub span: SourceSpan, pub spanned: T }
impl<T> Span<T> {
    pub fn inner(&self) -> (r: &T) ensures *r == self.spanned { &self.spanned }
    pub fn span(&self) -> SourceSpan { self.span }
}

//@@ item lit/src/config/expr/boolean.rs :: enum InvalidBooleanExprError
//@@ sub `regex :: Error` => `RegexError`
//@@ end

//@@ item lit/src/config/expr/boolean.rs :: enum BooleanExpr
//@@ end

//@@ item lit/src/config/expr/boolean.rs :: enum Token
//@@ derive Copy, Clone
//@@ end

// ---------------------------------------------------------------- specification
pub enum STok { Ident(Seq<char>), Pattern(Seq<char>), And, Or, Not, Lparen, Rparen, Eof, Bad }
pub enum SExpr { Lit(bool), Var(Seq<char>), Pattern(Seq<char>), Not(Box<SExpr>), And(Box<SExpr>, Box<SExpr>), Or(Box<SExpr>, Box<SExpr>) }

pub open spec fn tv(t: Token) -> STok {
    match t {
        Token::Ident(s) => STok::Ident(s@), Token::Pattern(s) => STok::Pattern(s@),
        Token::And => STok::And, Token::Or => STok::Or, Token::Not => STok::Not,
        Token::Lparen => STok::Lparen, Token::Rparen => STok::Rparen, Token::Eof => STok::Eof,
    }
}
pub open spec fn ev(e: BooleanExpr) -> SExpr decreases e {
    match e {
        BooleanExpr::Lit(b) => SExpr::Lit(b), BooleanExpr::Var(s) => SExpr::Var(s@), BooleanExpr::Pattern(r) => SExpr::Pattern(r.pat()),
        BooleanExpr::Not(a) => SExpr::Not(Box::new(ev(*a))),
        BooleanExpr::And(a, b) => SExpr::And(Box::new(ev(*a)), Box::new(ev(*b))),
        BooleanExpr::Or(a, b) => SExpr::Or(Box::new(ev(*a)), Box::new(ev(*b))),
    }
}

// the documented grammar, as a function from a token sequence (terminated by Eof) to the tree
// of its first derivable prefix and the tokens after it
pub open spec fn g_or(s: Seq<STok>) -> Option<(SExpr, Seq<STok>)> decreases s.len(), 3nat {
    match g_and(s) {
        Some((e, r)) => if r.len() <= s.len() { g_or_tail(e, r) } else { None },
        None => None,
    }
}
pub open spec fn g_or_tail(l: SExpr, s: Seq<STok>) -> Option<(SExpr, Seq<STok>)> decreases s.len(), 2nat {
    if s.len() > 0 && s[0] == STok::Or {
        match g_and(s.drop_first()) {
            Some((e, r)) => if r.len() < s.len() { g_or_tail(SExpr::Or(Box::new(l), Box::new(e)), r) } else { None },
            None => None,
        }
    } else if s.len() > 0 && s[0] == STok::Bad { None } else { Some((l, s)) }
}
pub open spec fn g_and(s: Seq<STok>) -> Option<(SExpr, Seq<STok>)> decreases s.len(), 2nat {
    match g_not(s) {
        Some((e, r)) => if r.len() <= s.len() { g_and_tail(e, r) } else { None },
        None => None,
    }
}
pub open spec fn g_and_tail(l: SExpr, s: Seq<STok>) -> Option<(SExpr, Seq<STok>)> decreases s.len(), 1nat {
    if s.len() > 0 && s[0] == STok::And {
        match g_not(s.drop_first()) {
            Some((e, r)) => if r.len() < s.len() { g_and_tail(SExpr::And(Box::new(l), Box::new(e)), r) } else { None },
            None => None,
        }
    } else if s.len() > 0 && s[0] == STok::Bad { None } else { Some((l, s)) }
}
pub open spec fn g_not(s: Seq<STok>) -> Option<(SExpr, Seq<STok>)> decreases s.len(), 1nat {
    if s.len() == 0 { None } else {
        match s[0] {
            STok::Not => match g_not(s.drop_first()) { Some((e, r)) => Some((SExpr::Not(Box::new(e)), r)), None => None },
            STok::Lparen => match g_or(s.drop_first()) {
                Some((e, r)) => if r.len() > 0 && r[0] == STok::Rparen && r.drop_first().len() > 0 && r.drop_first()[0] != STok::Bad { Some((e, r.drop_first())) } else { None },
                None => None,
            },
            STok::Ident(_) | STok::Pattern(_) => g_match(s),
            _ => None,
        }
    }
}
// an operand: a maximal run of identifiers and regexes; a lone identifier is a variable or a
// literal, a run with at least one regex is a pattern (its compilation is regex::Regex's)
pub open spec fn is_part(t: STok) -> bool { t is Ident || t is Pattern }
pub open spec fn run_len(s: Seq<STok>) -> nat decreases s.len() {
    if s.len() > 0 && is_part(s[0]) { 1 + run_len(s.drop_first()) } else { 0 }
}
pub uninterp spec fn part_expr(run: Seq<STok>) -> Option<SExpr>;
pub open spec fn g_match(s: Seq<STok>) -> Option<(SExpr, Seq<STok>)> {
    let n = run_len(s);
    if n == 0 || n >= s.len() || s[n as int] == STok::Bad { None } else {
        let run = s.subrange(0, n as int);
        let rest = s.subrange(n as int, s.len() as int);
        if n == 1 && run[0] is Ident {
            let name = run[0]->Ident_0;
            if name == "true"@ { Some((SExpr::Lit(true), rest)) } else if name == "false"@ { Some((SExpr::Lit(false), rest)) } else { Some((SExpr::Var(name), rest)) }
        } else {
            match part_expr(run) { Some(e) => Some((e, rest)), None => None }
        }
    }
}
pub open spec fn g_top(s: Seq<STok>) -> Option<SExpr> {
    if s.len() > 0 && s[0] == STok::Bad { None } else {
    match g_or(s) { Some((e, r)) => if r.len() > 0 && r[0] == STok::Eof { Some(e) } else { None }, None => None } }
}

pub proof fn lemma_not_len(s: Seq<STok>)
    ensures g_not(s) matches Some((e, r)) ==> r.len() < s.len(),
            g_and(s) matches Some((e, r)) ==> r.len() < s.len(),
            g_or(s) matches Some((e, r)) ==> r.len() < s.len(),
    decreases s.len(), 4nat
{
    if s.len() > 0 {
        lemma_not_len(s.drop_first());
    }
    if let Some((e, r)) = g_not(s) { if r.len() <= s.len() { lemma_and_tail_len(e, r, s.len()); } }
    if let Some((e, r)) = g_and(s) { if r.len() <= s.len() { lemma_or_tail_len(e, r, s.len()); } }
}
pub proof fn lemma_and_tail_len(l: SExpr, s: Seq<STok>, n: nat) requires s.len() <= n
    ensures g_and_tail(l, s) matches Some((e, r)) ==> r.len() <= s.len() decreases s.len(), 2nat
{
    if s.len() > 0 && s[0] == STok::And {
        if let Some((e, r)) = g_not(s.drop_first()) { if r.len() < s.len() { lemma_and_tail_len(SExpr::And(Box::new(l), Box::new(e)), r, n); } }
    }
}
pub proof fn lemma_or_tail_len(l: SExpr, s: Seq<STok>, n: nat) requires s.len() <= n
    ensures g_or_tail(l, s) matches Some((e, r)) ==> r.len() <= s.len() decreases s.len(), 2nat
{
    if s.len() > 0 && s[0] == STok::Or {
        if let Some((e, r)) = g_and(s.drop_first()) { if r.len() < s.len() { lemma_or_tail_len(SExpr::Or(Box::new(l), Box::new(e)), r, n); } }
    }
}

// ---------------------------------------------------------------- evaluation
pub trait Environment {
    spec fn defined(&self, n: Seq<char>) -> bool;
    spec fn matched(&self, p: Seq<char>) -> bool;
    fn is_defined(&self, name: &str) -> (r: bool) ensures r == self.defined(name@);
    fn has_matching_definition(&self, pattern: &Regex) -> (r: bool) ensures r == self.matched(pattern.pat());
}
pub open spec fn sem<E: Environment>(e: SExpr, env: E) -> bool decreases e {
    match e {
        SExpr::Lit(b) => b,
        SExpr::Var(n) => env.defined(n),
        SExpr::Pattern(p) => env.matched(p),
        SExpr::Not(a) => !sem(*a, env),
        SExpr::And(a, b) => sem(*a, env) && sem(*b, env),
        SExpr::Or(a, b) => sem(*a, env) || sem(*b, env),
    }
}
impl BooleanExpr {
//@@ fn lit/src/config/expr/boolean.rs :: impl BooleanExpr :: evaluate
//@@ ret r
//@@ spec
    ensures r == sem(ev(*self), *env)
    decreases *self
//@@ end
}
impl BooleanExpr {
//@@ fn lit/src/config/expr/boolean.rs :: impl Default for BooleanExpr :: default
//@@ ret r
//@@ spec
    ensures r == BooleanExpr::Lit(false)
//@@ end
}

// ---------------------------------------------------------------- parsing
#[verifier::external_body] // lexer over chars: bounded stand-in (harness), see DESIGN
pub struct Tokenizer<'a> { x: &'a str }
impl<'a> Tokenizer<'a> {
    pub uninterp spec fn rest(&self) -> Seq<STok>;
    #[verifier::external_body] // contract assumed: yields the lexed tokens in order, never Eof; Bad = lexical error
    pub fn next(&mut self) -> (r: Option<Result<Span<Token<'a>>, InvalidBooleanExprError>>)
        ensures
            forall|i: int| 0 <= i < final(self).rest().len() ==> final(self).rest()[i] != STok::Eof,
            old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
            old(self).rest().len() > 0 ==> r is Some && final(self).rest() == old(self).rest().drop_first()
                && (match r->Some_0 { Ok(t) => tv(t.spanned) == old(self).rest()[0] && tv(t.spanned) != STok::Eof, Err(_) => old(self).rest()[0] == STok::Bad })
    { unimplemented!() }
}
pub fn eof_span<'a>(p: &BooleanExprParser<'a>) -> (r: Span<Token<'a>>) ensures r.spanned == Token::Eof
{ Span { span: p.current.span, spanned: Token::Eof } }
#[verifier::external_body] // derived PartialEq of Token behind Span's PartialEq<T>
pub fn tok_eq<'a>(a: &Span<Token<'a>>, b: &Token<'a>) -> (r: bool) ensures r == (tv(a.spanned) == tv(*b)) { unimplemented!() }
impl<'a> Token<'a> {
    #[verifier::external_body] // text of a diagnostic
    pub fn label(&self) -> &'static str { unimplemented!() }
}
pub fn rt_take(e: &mut BooleanExpr) -> (r: BooleanExpr) ensures r == *old(e), *final(e) == BooleanExpr::Lit(false)
{ let mut d = BooleanExpr::Lit(false); core::mem::swap(e, &mut d); d }

//@@ item lit/src/config/expr/boolean.rs :: struct BooleanExprParser
//@@ end
impl<'a> BooleanExprParser<'a> {
    // the tokens not yet consumed
    pub open spec fn left(&self) -> Seq<STok> {
        if self.current.spanned is Eof { seq![STok::Eof] } else { seq![tv(self.current.spanned)] + self.tokenizer.rest() + seq![STok::Eof] }
    }
    #[verifier::external_body] // bounded stand-in (harness): slice patterns, SmallVec and iterator folds are outside the verifier
    fn parse_match_expr(&mut self) -> (r: Result<(), InvalidBooleanExprError>)
        requires is_part(old(self).left()[0])
        ensures match g_match(old(self).left()) {
            Some((e, rest)) => r is Ok && ev(final(self).expr) == e && final(self).left() == rest,
            None => r is Err }
    { unimplemented!() }

//@@ fn lit/src/config/expr/boolean.rs :: impl BooleanExprParser :: next
//@@ ret r
//@@ sub `self . tokenizer . next ( ) . unwrap_or_else ( || $b ) ?` => `match self.tokenizer.next() { Some(x) => x?, None => eof_span(self) }`
//@@ spec
    ensures
        r is Ok ==> final(self).left() == old(self).tokenizer.rest() + seq![STok::Eof] && final(self).expr == old(self).expr,
        (r is Err) == (old(self).tokenizer.rest().len() > 0 && old(self).tokenizer.rest()[0] == STok::Bad)
//@@ at entry
    proof {
        if self.tokenizer.rest().len() > 0 {
            assert(seq![self.tokenizer.rest()[0]] + self.tokenizer.rest().drop_first() =~= self.tokenizer.rest());
        }
        assert(self.tokenizer.rest().len() == 0 ==> self.tokenizer.rest() + seq![STok::Eof] =~= seq![STok::Eof]);
    }
//@@ end

//@@ fn lit/src/config/expr/boolean.rs :: impl BooleanExprParser :: accept
//@@ ret r
//@@ sub `self . current == expected` => `tok_eq(&self.current, &expected)`
//@@ sub `self . next ( ) . map ( | _ | true )` => `match self.next() { Ok(_) => Ok(true), Err(e) => Err(e) }`
//@@ spec
    requires !(expected is Eof)
    ensures
        tv(expected) == old(self).left()[0] ==> old(self).left().len() > 1,
        tv(expected) != old(self).left()[0] ==> r == Ok::<bool, InvalidBooleanExprError>(false) && *final(self) == *old(self),
        tv(expected) == old(self).left()[0] && old(self).left().drop_first()[0] == STok::Bad ==> r is Err,
        tv(expected) == old(self).left()[0] && old(self).left().drop_first()[0] != STok::Bad ==> r == Ok::<bool, InvalidBooleanExprError>(true) && final(self).left() == old(self).left().drop_first() && final(self).expr == old(self).expr,
//@@ at entry
    proof { if !(self.current.spanned is Eof) { assert(self.left().drop_first() =~= self.tokenizer.rest() + seq![STok::Eof]); } }
//@@ end

//@@ fn lit/src/config/expr/boolean.rs :: impl BooleanExprParser :: expect
//@@ ret r
//@@ sub `self . current == expected` => `tok_eq(&self.current, &expected)`
//@@ sub `self . current != Token :: Eof` => `!tok_eq(&self.current, &Token::Eof)`
//@@ sub `self . current == Token :: Eof` => `tok_eq(&self.current, &Token::Eof)`
//@@ sub `self . current . to_string ( )` => `rt_format()`
//@@ spec
    ensures
        tv(expected) != old(self).left()[0] ==> r is Err,
        tv(expected) == old(self).left()[0] && expected is Eof ==> r is Ok && *final(self) == *old(self),
        tv(expected) == old(self).left()[0] && !(expected is Eof) && old(self).left().drop_first()[0] == STok::Bad ==> r is Err,
        tv(expected) == old(self).left()[0] && !(expected is Eof) && old(self).left().drop_first()[0] != STok::Bad ==> r is Ok && final(self).left() == old(self).left().drop_first() && final(self).expr == old(self).expr,
//@@ at entry
    proof { if !(self.current.spanned is Eof) { assert(self.left().drop_first() =~= self.tokenizer.rest() + seq![STok::Eof]); } }
//@@ end

//@@ fn lit/src/config/expr/boolean.rs :: impl BooleanExprParser :: parse_not_expr
//@@ ret r
//@@ sub `& * self . current` => `self.current.inner()`
//@@ sub `core :: mem :: take ( & mut self . expr )` => `rt_take(&mut self.expr)`
//@@ sub `token . to_string ( )` => `rt_format()`
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    ensures match g_not(old(self).left()) {
            Some((e, rest)) => r is Ok && ev(final(self).expr) == e && final(self).left() == rest,
            None => r is Err }
//@@ at entry
    proof {
        lemma_all();
        if !(self.current.spanned is Eof) { assert(self.left().drop_first() =~= self.tokenizer.rest() + seq![STok::Eof]); }
    }
//@@ end

//@@ fn lit/src/config/expr/boolean.rs :: impl BooleanExprParser :: parse_and_expr
//@@ ret r
//@@ loops 1
//@@ sub `core :: mem :: take ( & mut self . expr )` => `rt_take(&mut self.expr)`
//@@ opt #[verifier::loop_isolation(false)]
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    ensures match g_and(old(self).left()) {
            Some((e, rest)) => r is Ok && ev(final(self).expr) == e && final(self).left() == rest,
            None => r is Err }
//@@ at entry
    let ghost s0 = self.left();
    proof { lemma_all(); }
//@@ loop 0
    invariant g_and(s0) == g_and_tail(ev(self.expr), self.left()),
//@@ end

//@@ fn lit/src/config/expr/boolean.rs :: impl BooleanExprParser :: parse_or_expr
//@@ ret r
//@@ loops 1
//@@ sub `core :: mem :: take ( & mut self . expr )` => `rt_take(&mut self.expr)`
//@@ opt #[verifier::loop_isolation(false)]
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ spec
    ensures match g_or(old(self).left()) {
            Some((e, rest)) => r is Ok && ev(final(self).expr) == e && final(self).left() == rest,
            None => r is Err }
//@@ at entry
    let ghost s0 = self.left();
    proof { lemma_all(); }
//@@ loop 0
    invariant g_or(s0) == g_or_tail(ev(self.expr), self.left()),
//@@ end

//@@ fn lit/src/config/expr/boolean.rs :: impl BooleanExprParser :: parse
//@@ ret r
//@@ at entry
    let ghost all = self.tokenizer.rest() + seq![STok::Eof];
//@@ spec
    ensures match g_top(self.tokenizer.rest() + seq![STok::Eof]) {
        Some(e) => r matches Ok(x) && ev(x) == e,
        None => r is Err }
//@@ end
}
pub proof fn lemma_bad(s: Seq<STok>) ensures s.len() > 0 && s[0] == STok::Bad ==> g_not(s) is None && g_and(s) is None && g_or(s) is None {
    reveal_with_fuel(g_or, 2); reveal_with_fuel(g_and, 2); reveal_with_fuel(g_not, 2);
}
pub open spec fn facts(s: Seq<STok>) -> bool {
    (s.len() > 0 && s[0] == STok::Bad ==> g_not(s) is None && g_and(s) is None && g_or(s) is None)
        && (g_not(s) matches Some((e, r)) ==> r.len() < s.len()) && (g_and(s) matches Some((e, r)) ==> r.len() < s.len()) && (g_or(s) matches Some((e, r)) ==> r.len() < s.len())
}
pub open spec fn tail_facts(l: SExpr, s: Seq<STok>) -> bool {
    (s.len() > 1 && s[0] == STok::And && s.drop_first()[0] == STok::Bad ==> g_and_tail(l, s) is None)
    && (s.len() > 1 && s[0] == STok::Or && s.drop_first()[0] == STok::Bad ==> g_or_tail(l, s) is None)
}
pub proof fn lemma_all()
    ensures forall|s: Seq<STok>| #![trigger g_not(s)] #![trigger g_and(s)] #![trigger g_or(s)] facts(s),
        forall|l: SExpr, s: Seq<STok>| #![trigger g_and_tail(l, s)] #![trigger g_or_tail(l, s)] tail_facts(l, s),
{
    assert forall|s: Seq<STok>| #![trigger g_not(s)] #![trigger g_and(s)] #![trigger g_or(s)] facts(s) by { lemma_bad(s); lemma_not_len(s); }
    assert forall|l: SExpr, s: Seq<STok>| #![trigger g_and_tail(l, s)] #![trigger g_or_tail(l, s)] tail_facts(l, s) by { if s.len() > 1 { lemma_bad(s.drop_first()); } }
}
}
fn main() {}
