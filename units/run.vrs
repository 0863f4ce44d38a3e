//@@ include verdict.vrs
// a run: every test reported once, the reports collected, the exit status
verus! {
pub open spec fn selected(o: Options, t: Test) -> bool {
    (o.filter matches Some(f) ==> f.found_in(t.title())) && (o.filter_out matches Some(f) ==> !f.found_in(t.title()))
}
impl Config {
//@@ fn lit/src/config/mod.rs :: impl Config :: is_selected
//@@ ret r
//@@ pre `self.options.$a.as_ref().map(|$f| $b).unwrap_or($c)` => `match &self.options.$a { Some($f) => $b, None => $c }`
//@@ spec
    ensures r == ((self.options.filter matches Some(f) ==> f.found_in(name@)) && (self.options.filter_out matches Some(f) ==> !f.found_in(name@))),
//@@ end
}
//@@ item litcheck/src/commands/lit.rs :: enum SelectResult
//@@ sub? `Arc<Test>` => `Test`
//@@ end
//@@ item litcheck/src/commands/lit.rs :: struct TestReport
//@@ sub? `Arc<Test>` => `Test`
//@@ end
/// the tests of a registry, in the order its iterator yields them
#[verifier::external_body]
pub struct Tests { x: u8 }
impl Tests {
    pub uninterp spec fn v(&self) -> Seq<Test>;
    #[verifier::external_body] // Iterator::next
    pub fn next(&mut self) -> (r: Option<Test>)
        ensures match r { Some(t) => old(self).v().len() > 0 && t == old(self).v()[0] && final(self).v() == old(self).v().skip(1), None => old(self).v().len() == 0 && final(self).v() == old(self).v() } { unimplemented!() }
}
/// the channel: what was sent into it, in the order of a schedule
pub struct Sender { pub reports: Vec<TestReport> }
impl Sender {
    pub fn new() -> (r: Self) ensures r.reports@ == Seq::<TestReport>::empty() { Sender { reports: Vec::new() } }
    pub fn send(&mut self, x: TestReport) -> (r: Result<(), ()>) ensures final(self).reports@ == old(self).reports@.push(x) { self.reports.push(x); Ok(()) }
}
#[verifier::external_body] // drop the first report of the channel
pub fn rt_recv(v: &mut Vec<TestReport>) -> (r: Option<TestReport>)
    ensures match r { Some(t) => old(v)@.len() > 0 && t == old(v)@[0] && final(v)@ == old(v)@.skip(1), None => old(v)@.len() == 0 && final(v)@ == old(v)@ } { unimplemented!() }
//@@ item litcheck/src/commands/lit.rs :: struct PendingTests
//@@ sub? `<I: Iterator<Item = Arc<Test>> + Send>` => ``
//@@ sub? `parking_lot::Mutex<I>` => `Tests`
//@@ sub? `Arc<Config>` => `Box<Config>`
//@@ end
//@@ item litcheck/src/commands/lit.rs :: struct PendingTestsIter
//@@ sub? `<I: Iterator<Item = Arc<Test>> + Send>` => ``
//@@ sub? `Arc<PendingTests<I>>` => `Box<PendingTests>`
//@@ end
impl PendingTestsIter {
//@@ fn litcheck/src/commands/lit.rs :: impl Iterator for PendingTestsIter :: next
//@@ ret r
//@@ sub? `Self::Item` => `SelectResult`
//@@ pre `.tests.lock()` => `.tests`
//@@ pre `let test = $x?;` => `let test = match $x { Some(t) => t, None => return None };`
//@@ spec
    ensures final(self).0.config == old(self).0.config,
        match r {
            None => old(self).0.tests.v().len() == 0 && final(self).0.tests.v() == old(self).0.tests.v(),
            Some(SelectResult::Selected(t)) => old(self).0.tests.v().len() > 0 && t == old(self).0.tests.v()[0] && final(self).0.tests.v() == old(self).0.tests.v().skip(1) && selected(old(self).0.config.options, t),
            Some(SelectResult::Excluded(t)) => old(self).0.tests.v().len() > 0 && t == old(self).0.tests.v()[0] && final(self).0.tests.v() == old(self).0.tests.v().skip(1) && !selected(old(self).0.config.options, t),
        },
//@@ end
}
impl PendingTests {
//@@ fn litcheck/src/commands/lit.rs :: impl PendingTests :: new
//@@ ret r
//@@ sub? `Arc<Config>` => `Box<Config>`
//@@ sub? `tests: I` => `tests: Tests`
//@@ pre `parking_lot::Mutex::new($x)` => `$x`
//@@ spec
    ensures r.config == config, r.tests == tests,
//@@ end
}
pub struct ProgressBar { pub x: u8 }
//@@ item litcheck/src/commands/lit.rs :: struct TestRunner
//@@ sub? `Sender<TestReport>` => `Sender`
//@@ end
impl TestRunner {
//@@ fn litcheck/src/commands/lit.rs :: impl TestRunner :: report
//@@ ret r
//@@ sub? `Arc<Test>` => `Test`
//@@ spec
    ensures r is Ok, final(self).sender.reports@ == old(self).sender.reports@.push(TestReport { test, result }),
//@@ end
//@@ fn litcheck/src/commands/lit.rs :: impl TestRunner :: mark_excluded
//@@ ret r
//@@ sub? `Arc<Test>` => `Test`
//@@ pre `self.progress.set_message($x);` => ``
//@@ spec
    ensures r is Ok, one_more(old(self).sender.reports@, final(self).sender.reports@, test), final(self).sender.reports@.last().result.status is Excluded,
//@@ end
//@@ fn litcheck/src/commands/lit.rs :: impl TestRunner :: run
//@@ ret r
//@@ sub? `Arc<Test>` => `Test`
//@@ pre `self.progress.set_message($x);` => ``
//@@ pre `self.progress.suspend($x);` => ``
//@@ spec
    requires runnable(test),
    ensures
        one_more(old(self).sender.reports@, final(self).sender.reports@, test),
        r is Ok ==> test.config.format.verdict(test, config.options, final(self).sender.reports@.last().result.status),
        r is Err ==> final(self).sender.reports@.last().result.status is Unresolved,
//@@ end
}
pub open spec fn runnable(t: Test) -> bool { script_of(text_of(t)) matches Some(p) ==> retries_of(p) < usize::MAX }
pub open spec fn one_more(a: Seq<TestReport>, b: Seq<TestReport>, t: Test) -> bool { b == a.push(b.last()) && b.last().test == t }

// ---------------------------------------------------------------- the reports, by status
/// BTreeMap<TestStatus, Vec<TestReport>>
#[verifier::external_body]
pub struct Results { x: u8 }
impl Results {
    pub uninterp spec fn v(&self) -> Map<TestStatus, Seq<TestReport>>;
    /// the reports of a status
    pub open spec fn of(&self, s: TestStatus) -> Seq<TestReport> { if self.v().contains_key(s) { self.v()[s] } else { Seq::empty() } }
    #[verifier::external_body] // BTreeMap::default
    pub fn new() -> (r: Self) ensures r.v() == Map::<TestStatus, Seq<TestReport>>::empty() { unimplemented!() }
    #[verifier::external_body] // entry(..).or_insert(vec![])
    pub fn rt_entry(&mut self, s: TestStatus) -> (r: &mut Vec<TestReport>)
        ensures (*r)@ == old(self).of(s), final(self).v() == old(self).v().insert(s, (*final(r))@) { unimplemented!() }
    #[verifier::external_body] // the group `entry(..).or_insert(vec![])` lends; it is put back where the loan ends
    pub fn rt_take(&mut self, s: TestStatus) -> (r: Vec<TestReport>)
        ensures r@ == old(self).of(s), final(self).v() == old(self).v().remove(s) { unimplemented!() }
    #[verifier::external_body] // BTreeMap::insert
    pub fn insert(&mut self, s: TestStatus, x: Vec<TestReport>) ensures final(self).v() == old(self).v().insert(s, x@) { unimplemented!() }
    #[verifier::external_body] // BTreeMap::remove
    pub fn remove(&mut self, s: &TestStatus) ensures final(self).v() == old(self).v().remove(*s) { unimplemented!() }
    #[verifier::external_body] // BTreeMap::keys
    pub fn rt_keys(&self) -> (r: Vec<TestStatus>) ensures forall|i: int| 0 <= i < r.len() ==> self.v().contains_key(#[trigger] r@[i]), forall|s: TestStatus| #[trigger] self.v().contains_key(s) ==> exists|i: int| 0 <= i < r.len() && #[trigger] r@[i] == s { unimplemented!() }
    /// exactly the reports `rs`, grouped by status, no group empty
    pub open spec fn groups(&self, rs: Seq<TestReport>) -> bool {
        &&& forall|s: TestStatus| #[trigger] self.of(s) == with_status(rs, s)
        &&& forall|s: TestStatus| #[trigger] self.v().contains_key(s) ==> self.of(s).len() > 0
    }
}
pub open spec fn with_status(rs: Seq<TestReport>, s: TestStatus) -> Seq<TestReport>
    decreases rs.len()
{
    if rs.len() == 0 { Seq::empty() } else {
        let p = with_status(rs.drop_last(), s);
        if rs.last().result.status == s { p.push(rs.last()) } else { p }
    }
}
pub proof fn lem_ws_push(rs: Seq<TestReport>, x: TestReport, s: TestStatus)
    ensures with_status(rs.push(x), s) == if x.result.status == s { with_status(rs, s).push(x) } else { with_status(rs, s) }
{ assert(rs.push(x).drop_last() =~= rs); }
/// a report with the status occurs iff the group is not empty
pub proof fn lem_ws_some(rs: Seq<TestReport>, s: TestStatus)
    ensures with_status(rs, s).len() > 0 <==> exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).result.status == s
    decreases rs.len()
{
    if rs.len() > 0 {
        lem_ws_some(rs.drop_last(), s);
        let p = rs.drop_last();
        if with_status(p, s).len() > 0 { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).result.status == s; assert(rs[i] == p[i]); }
        if exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).result.status == s && rs.last().result.status != s {
            let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).result.status == s; assert(p[i] == rs[i]);
        }
    }
}
pub proof fn lem_none_push(rs: Seq<TestReport>, x: TestReport)
    ensures none_ran(rs.push(x)) == (none_ran(rs) && x.result.status is Excluded)
{
    let r = rs.push(x);
    assert(r[rs.len() as int] == x);
    if none_ran(r) { assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).result.status is Excluded by { assert(r[i] == rs[i]); } }
}
/// a test which was never handed out
pub open spec fn left(o: Options, t: Test, r: TestReport) -> bool { r.test == t && r.result.status == if selected(o, t) { TestStatus::Skipped } else { TestStatus::Excluded } }
pub open spec fn none_ran(rs: Seq<TestReport>) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).result.status is Excluded }
/// `rs` are the reports received, and one for each test of the rest
pub open spec fn completed(rs: Seq<TestReport>, got: Seq<TestReport>, rest: Seq<Test>, o: Options) -> bool {
    &&& rs.len() == got.len() + rest.len() && rs.take(got.len() as int) == got
    &&& forall|i: int| 0 <= i < rest.len() ==> left(o, #[trigger] rest[i], rs[got.len() + i])
}
#[verifier::external_body] // LitError::NoTestsSelected
pub fn rt_none_selected(r: &Results) -> Opaque { unimplemented!() }
//@@ fn litcheck/src/commands/lit.rs :: collect_results
//@@ ret r
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ sub? `<I: Iterator<Item = Arc<Test>> + Send>` => ``
//@@ sub? `mpsc::Receiver<TestReport>` => `Vec<TestReport>`
//@@ sub? `PendingTests<I>` => `PendingTests`
//@@ sub? `BTreeMap<TestStatus, Vec<TestReport>>` => `Results`
//@@ pre! `BTreeMap::<TestStatus, Vec<TestReport>>::default()` => `Results::new()`
//@@ pre! `for report in receiver {` => `let mut receiver = receiver; loop { let report = match rt_recv(&mut receiver) { Some(r) => r, None => break };`
//@@ pre `results.entry($s).or_insert_with(Vec::new).push($x);` => `let rt_group = results.rt_entry($s); rt_group.push($x);`
//@@ pre! `let excluded = results.entry($s).or_insert(vec![]);` => `let rt_k = $s; let mut excluded = results.rt_take(rt_k);`
//@@ pre! `if excluded.is_empty() {` => `let rt_none = excluded.is_empty(); results.insert(rt_k, excluded); if rt_none {`
//@@ pre `let mut skipped = vec![];` => `let mut skipped: Vec<TestReport> = Vec::new();`
//@@ pre! `for test in pending.tests.into_inner() {` => `let mut rt_rest = pending.tests; loop { let test = match rt_rest.next() { Some(t) => t, None => break };`
//@@ pre `Err(LitError::NoTestsSelected { $x }.into())` => `Err(rt_none_selected(&results))`
//@@ spec
    requires with_status(receiver@, TestStatus::Skipped).len() == 0,
    ensures exists|rs: Seq<TestReport>| #[trigger] completed(rs, receiver@, pending.tests.v(), config.options) && match r { Ok(m) => m.groups(rs) && !none_ran(rs), Err(_) => none_ran(rs) },
//@@ at entry
    let ghost got = receiver@;
    let ghost mut rs: Seq<TestReport> = Seq::empty();
    let ghost rest = pending.tests.v();
    proof { assert(got.skip(0) =~= got); assert(got.take(0) =~= Seq::<TestReport>::empty()); assert(got.take(got.len() as int) =~= got); assert(rest.skip(0) =~= rest); }
//@@ loop 0
    invariant
        rs.len() <= got.len(), rs == got.take(rs.len() as int), receiver@ == got.skip(rs.len() as int),
        results.groups(rs), all_excluded == none_ran(rs),
    ensures rs.len() == got.len(),
//@@ at after `let report = $x;`
    let ghost rs0 = rs; let ghost res0 = results;
    proof { assert(report == got[rs.len() as int]); assert(got.take(rs.len() as int + 1) =~= rs.push(report)); rs = rs.push(report); }
//@@ at loop 0 end
    proof {
        assert forall|s: TestStatus| #[trigger] results.of(s) == with_status(rs, s) by { lem_ws_push(rs0, report, s); assert(res0.of(s) == with_status(rs0, s)); }
        lem_none_push(rs0, report);
    }
//@@ at before `let mut skipped`
    let ghost res1 = results; let ghost mut k: int = 0;
    proof { assert(rs =~= got); assert(results.of(TestStatus::Skipped) == with_status(got, TestStatus::Skipped)); }
//@@ at after `let mut excluded = $x;`
    proof { assert forall|s: TestStatus| s != TestStatus::Skipped && s != TestStatus::Excluded implies #[trigger] results.of(s) == with_status(rs, s) by { assert(res1.of(s) == with_status(rs, s)); } }
//@@ at before `let rt_none = $x;`
    let ghost res2 = results; let ghost sk = skipped@; let ghost ex = excluded@;
//@@ loop 1
    invariant
        0 <= k <= rest.len(), rt_rest.v() == rest.skip(k), rs.len() == got.len() + k, rs.take(got.len() as int) == got,
        forall|i: int| 0 <= i < k ==> left(config.options, #[trigger] rest[i], rs[got.len() + i]),
        skipped@ == with_status(rs, TestStatus::Skipped), excluded@ == with_status(rs, TestStatus::Excluded),
        forall|s: TestStatus| s != TestStatus::Skipped && s != TestStatus::Excluded ==> #[trigger] results.of(s) == with_status(rs, s),
        forall|s: TestStatus| #[trigger] results.v().contains_key(s) ==> results.of(s).len() > 0,
        !results.v().contains_key(TestStatus::Excluded), !results.v().contains_key(TestStatus::Skipped), rt_k == TestStatus::Excluded,
        all_excluded == none_ran(rs),
    ensures k == rest.len(),
//@@ at after `let test = $x;`
    let ghost rs0 = rs; let ghost t0 = test;
    proof { assert(test == rest[k]); }
//@@ at loop 1 end
    proof {
        let x = TestReport { test: t0, result: if selected(config.options, t0) { skipped@.last().result } else { excluded@.last().result } };
        rs = rs0.push(x);
        assert(rest.skip(k).skip(1) =~= rest.skip(k + 1));
        assert(rs.take(got.len() as int) =~= rs0.take(got.len() as int));
        k = k + 1;
        assert forall|s: TestStatus| s != TestStatus::Skipped && s != TestStatus::Excluded implies #[trigger] results.of(s) == with_status(rs, s) by { lem_ws_push(rs0, x, s); }
        lem_ws_push(rs0, x, TestStatus::Skipped); lem_ws_push(rs0, x, TestStatus::Excluded);
        lem_none_push(rs0, x);
    }
//@@ at after `if !skipped.is_empty() { $X }`
    proof {
        assert forall|s: TestStatus| #[trigger] results.of(s) == with_status(rs, s) by { if s == TestStatus::Skipped { assert(results.of(s) =~= sk); } else if s == TestStatus::Excluded { assert(results.of(s) =~= ex); } else { assert(res2.of(s) == with_status(rs, s)); } }
        assert forall|s: TestStatus| #[trigger] results.v().contains_key(s) implies results.of(s).len() > 0 by { if s != TestStatus::Skipped && s != TestStatus::Excluded { assert(res2.v().contains_key(s)); assert(results.of(s) == res2.of(s)); } }
        assert(results.groups(rs));
        assert(completed(rs, got, rest, config.options));
    }
//@@ end

// ---------------------------------------------------------------- the run
pub struct ExitCode { pub code: int }
impl ExitCode {
    #[verifier::external_body] // ExitCode::SUCCESS is 0
    pub fn rt_success() -> (r: Self) ensures r.code == 0 { unimplemented!() }
    #[verifier::external_body] // ExitCode::FAILURE is 1
    pub fn rt_failure() -> (r: Self) ensures r.code == 1 { unimplemented!() }
}
#[verifier::external_body]
pub struct Registry { x: u8 }
impl Registry {
    pub uninterp spec fn tests(&self) -> Seq<Test>;
    #[verifier::external_body] // IntoIterator
    pub fn into_iter(self) -> (r: Tests) ensures r.v() == self.tests() { unimplemented!() }
}
#[verifier::external_body] // Arc::clone
pub fn rt_shared(c: &Box<Config>) -> (r: Box<Config>) ensures r == *c { unimplemented!() }
#[verifier::external_body] // whether the others stop before their next test once one failed to run: any schedule
pub fn rt_stop() -> bool { unimplemented!() }
#[verifier::external_body] // prints the groups
pub fn print_results(r: &Results, c: &Config) { unimplemented!() }
pub fn rt_progress() -> ProgressBar { ProgressBar { x: 0 } }
pub open spec fn any_failing(rs: Seq<TestReport>) -> bool { exists|i: int| 0 <= i < rs.len() && failing((#[trigger] rs[i]).result.status) }
/// a result for a test: its verdict when it is selected; none could be had when the run was aborted by it, or by another before it
pub open spec fn result_for(o: Options, t: Test, s: TestStatus) -> bool {
    if !selected(o, t) { s is Excluded } else { t.config.format.verdict(t, o, s) || s is Unresolved || s is Skipped }
}
/// every test has exactly one report, and reports of aborted runs contain a failing one
pub open spec fn reported(rs: Seq<TestReport>, ts: Seq<Test>, o: Options) -> bool {
    &&& rs.len() == ts.len()
    &&& forall|i: int| 0 <= i < ts.len() ==> (#[trigger] rs[i]).test == ts[i] && result_for(o, ts[i], rs[i].result.status)
    &&& any_failing(rs) || forall|i: int| 0 <= i < ts.len() && selected(o, ts[i]) ==> ts[i].config.format.verdict(ts[i], o, (#[trigger] rs[i]).result.status)
}
/// the reports of the tests handed out so far; `aborted` when one of them could not be run
pub open spec fn handed(rs: Seq<TestReport>, ts: Seq<Test>, o: Options, aborted: bool) -> bool {
    &&& rs.len() <= ts.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).test == ts[i] && result_for(o, ts[i], rs[i].result.status) && !(rs[i].result.status is Skipped)
    &&& aborted ==> any_failing(rs)
    &&& !aborted ==> forall|i: int| 0 <= i < rs.len() && selected(o, ts[i]) ==> ts[i].config.format.verdict(ts[i], o, (#[trigger] rs[i]).result.status)
}
pub proof fn lem_no_skip(f: SelectedTestFormat, t: Test, o: Options, s: TestStatus)
    requires f.verdict(t, o, s)
    ensures !(s is Skipped) && !(s is Excluded)
{
    match f {
        SelectedTestFormat::Executable(_) => { }
        SelectedTestFormat::Default => { lem_no_skip_sh(ShTest::dflt(), t, o, s); }
        SelectedTestFormat::ShTest(g) => { lem_no_skip_sh(g, t, o, s); }
    }
}
pub proof fn lem_no_skip_sh(f: ShTest, t: Test, o: Options, s: TestStatus)
    requires f.verdict(t, o, s)
    ensures !(s is Skipped) && !(s is Excluded)
{
    if let Some(p) = script_of(text_of(t)) {
        if to_run(t.config.available_features, p) && !o.no_execute {
            let j = shell_job(f, substituted(p, subs_of(f, t)), t, o);
            let ss = choose|ss: Seq<TestStatus>| #[trigger] runs(j, retries_of(p), ss) && s == expected(outcome(ss), xfail(t, p));
            assert(ended(j, ss[ss.len() - 1]));
        }
    }
}
pub proof fn lem_none_skipped(rs: Seq<TestReport>, ts: Seq<Test>, o: Options, a: bool)
    requires handed(rs, ts, o, a)
    ensures with_status(rs, TestStatus::Skipped).len() == 0
{ lem_ws_some(rs, TestStatus::Skipped); }
pub proof fn lem_handed(rs: Seq<TestReport>, ts: Seq<Test>, o: Options, a: bool, x: TestReport, b: bool)
    requires handed(rs, ts, o, a), rs.len() < ts.len(), x.test == ts[rs.len() as int],
        !selected(o, x.test) ==> x.result.status is Excluded && !b,
        selected(o, x.test) ==> if b { x.result.status is Unresolved } else { x.test.config.format.verdict(x.test, o, x.result.status) },
    ensures handed(rs.push(x), ts, o, a || b)
{
    let r = rs.push(x);
    assert(r[rs.len() as int] == x);
    if a { let i = choose|i: int| 0 <= i < rs.len() && failing((#[trigger] rs[i]).result.status); assert(r[i] == rs[i]); }
    if selected(o, x.test) && !b { lem_no_skip(x.test.config.format, x.test, o, x.result.status); }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).test == ts[i] && result_for(o, ts[i], r[i].result.status) && !(r[i].result.status is Skipped) by {
        if i < rs.len() { assert(r[i] == rs[i]); }
    }
    if !(a || b) {
        assert forall|i: int| 0 <= i < r.len() && selected(o, ts[i]) implies ts[i].config.format.verdict(ts[i], o, (#[trigger] r[i]).result.status) by { if i < rs.len() { assert(r[i] == rs[i]); } }
    }
}
/// what is left after an aborted run, or nothing
pub proof fn lem_reported(rs: Seq<TestReport>, got: Seq<TestReport>, ts: Seq<Test>, o: Options, a: bool)
    requires handed(got, ts, o, a), completed(rs, got, ts.skip(got.len() as int), o), !a ==> got.len() == ts.len()
    ensures reported(rs, ts, o), a ==> any_failing(rs)
{
    let rest = ts.skip(got.len() as int);
    assert forall|i: int| 0 <= i < got.len() implies #[trigger] rs[i] == got[i] by { assert(rs.take(got.len() as int)[i] == got[i]); }
    if a { let i = choose|i: int| 0 <= i < got.len() && failing((#[trigger] got[i]).result.status); assert(failing(rs[i].result.status)); }
    assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] rs[i]).test == ts[i] && result_for(o, ts[i], rs[i].result.status) by {
        if i >= got.len() { let j = i - got.len(); assert(rest[j] == ts[i]); assert(left(o, rest[j], rs[got.len() + j])); } else { assert(rs[i] == got[i]); }
    }
    if !a { assert forall|i: int| 0 <= i < ts.len() && selected(o, ts[i]) implies ts[i].config.format.verdict(ts[i], o, (#[trigger] rs[i]).result.status) by { assert(rs[i] == got[i]); } }
}
pub proof fn lem_any_failing(m: Results, rs: Seq<TestReport>)
    requires m.groups(rs)
    ensures any_failing(rs) <==> exists|s: TestStatus| #[trigger] m.v().contains_key(s) && failing(s)
{
    if any_failing(rs) {
        let i = choose|i: int| 0 <= i < rs.len() && failing((#[trigger] rs[i]).result.status);
        let s = rs[i].result.status;
        lem_ws_some(rs, s);
        assert(m.of(s) == with_status(rs, s));
        assert(m.v().contains_key(s));
    }
    if exists|s: TestStatus| #[trigger] m.v().contains_key(s) && failing(s) {
        let s = choose|s: TestStatus| #[trigger] m.v().contains_key(s) && failing(s);
        lem_ws_some(rs, s);
        assert(m.of(s) == with_status(rs, s));
    }
}
//@@ fn litcheck/src/commands/lit.rs :: start
//@@ sig `pub fn start(registry: Registry, config: Box<Config>) -> (r: DiagResult<ExitCode>)`
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ pre `let num_tests = $x;` => ``
//@@ pre `let num_workers = $x;` => ``
//@@ pre `rayon::ThreadPoolBuilder::new()$x;` => ``
//@@ pre `let progress = ProgressBar::new($X) $Y;` => `let progress = rt_progress();`
//@@ pre! `let (sender, receiver) = mpsc::channel();` => `let sender = Sender::new();`
//@@ pre! `Arc::new(PendingTests::new(config.clone(), $x))` => `Box::new(PendingTests::new(rt_shared(&config), $x))`
//@@ pre! `let result = PendingTestsIter(pending.clone()).par_bridge().progress_with($p).try_for_each_with(runner, |runner, selection| $B);` => `let mut runner = runner; let mut rt_it = PendingTestsIter(pending); let mut result: DiagResult<()> = Ok(()); loop { let selection = match rt_it.next() { Some(s) => s, None => break }; let rt_r: DiagResult<()> = $B; if rt_r.is_err() { result = rt_r; } if result.is_err() && rt_stop() { break; } } let pending = rt_it.0; let receiver = runner.sender.reports;`
//@@ pre `Arc::into_inner(pending).unwrap()` => `*pending`
//@@ pre `println!($x);` => ``
//@@ pre `println!();` => ``
//@@ pre `if let Err(ref err) = result {` => `if result.is_err() {`
//@@ pre `results_by_status.keys().any(|status| $b)` => `{ let rt_ks = results_by_status.rt_keys(); let mut rt_i: usize = 0; let mut rt_found = false; while rt_i < rt_ks.len() { let status = &rt_ks[rt_i]; rt_i += 1; if $b { rt_found = true; } } rt_found }`
//@@ pre `ExitCode::FAILURE` => `ExitCode::rt_failure()`
//@@ pre `ExitCode::SUCCESS` => `ExitCode::rt_success()`
//@@ spec
    requires forall|i: int| 0 <= i < registry.tests().len() ==> runnable(#[trigger] registry.tests()[i]),
    ensures exists|rs: Seq<TestReport>| #[trigger] reported(rs, registry.tests(), config.options) && match r {
        Ok(c) => !none_ran(rs) && c.code == if any_failing(rs) { 1int } else { 0int },
        Err(_) => none_ran(rs),
    },
//@@ at entry
    let ghost ts = registry.tests(); let ghost o = config.options;
//@@ at before `loop {`
    proof { assert(ts.skip(0) =~= ts); }
//@@ loop 0
    invariant
        rt_it.0.config.options == o, config.options == o, rt_it.0.tests.v() == ts.skip(runner.sender.reports@.len() as int),
        handed(runner.sender.reports@, ts, o, result is Err),
        forall|i: int| 0 <= i < ts.len() ==> runnable(#[trigger] ts[i]),
    ensures result is Ok ==> runner.sender.reports@.len() == ts.len(),
//@@ at after `let selection = $x;`
    let ghost g0 = runner.sender.reports@; let ghost a0 = result is Err;
    proof { assert(ts.skip(g0.len() as int)[0] == ts[g0.len() as int]); assert(ts.skip(g0.len() as int).skip(1) =~= ts.skip(g0.len() as int + 1)); }
//@@ at after `let rt_r: DiagResult<()> = $x;`
    proof { lem_handed(g0, ts, o, a0, runner.sender.reports@.last(), rt_r is Err); }
//@@ at after `let receiver = $x;`
    let ghost got = receiver@; let ghost aborted = result is Err;
    proof { lem_none_skipped(got, ts, o, aborted); assert forall|rs: Seq<TestReport>| #[trigger] completed(rs, got, ts.skip(got.len() as int), o) implies reported(rs, ts, o) && (aborted ==> any_failing(rs)) by { lem_reported(rs, got, ts, o, aborted); } }
//@@ at before `let any_failed = $x;`
    let ghost rs = choose|rs: Seq<TestReport>| #[trigger] completed(rs, got, ts.skip(got.len() as int), o) && results_by_status.groups(rs) && !none_ran(rs);
    proof { lem_any_failing(results_by_status, rs); assert(reported(rs, ts, o)); }
//@@ loop 1
    invariant
        rt_i <= rt_ks.len(), rt_found == exists|i: int| 0 <= i < rt_i && failing(#[trigger] rt_ks@[i]),
    decreases rt_ks.len() - rt_i,
//@@ end
}
fn main() {}
