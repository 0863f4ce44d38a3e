//@@ include prelude.inc
// the verdict of one test: conditions, the outcome of its script, retries, expected failures
verus! {
#[verifier::external_body] // config::BooleanExpr, see unit bool_expr
pub struct BooleanExpr { x: u8 }
#[verifier::external_body] // BTreeSet<StaticCow<str>>
pub struct Features { x: u8 }
/// the value of an expression over a set of features; what `evaluate` computes is proved in unit bool_expr
pub uninterp spec fn holds(e: BooleanExpr, f: Features) -> bool;
impl BooleanExpr {
    #[verifier::external_body] // BooleanExpr::evaluate
    pub fn evaluate(&self, f: &Features) -> (r: bool) ensures r == holds(*self, *f) { unimplemented!() }
}
pub trait AsExpr {
    spec fn e(&self) -> BooleanExpr;
    fn as_ref(&self) -> (r: &BooleanExpr) ensures *r == self.e();
}
impl AsExpr for BooleanExpr {
    open spec fn e(&self) -> BooleanExpr { *self }
    fn as_ref(&self) -> (r: &BooleanExpr) { self }
}
#[derive(Copy, Clone)]
pub struct SourceSpan { pub start: u32, pub end: u32 }
pub struct Span<X> { pub span: SourceSpan, pub spanned: X }
impl AsExpr for Span<BooleanExpr> {
    open spec fn e(&self) -> BooleanExpr { self.spanned }
    fn as_ref(&self) -> (r: &BooleanExpr) { &self.spanned }
}
impl<X> Span<X> { pub fn into_inner(self) -> (r: X) ensures r == self.spanned { self.spanned } }
#[verifier::external_body] // String::push_str
pub fn rt_push(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] // Display of an expression
pub fn rt_show(s: &mut String, e: &BooleanExpr) ensures final(s)@.len() >= old(s)@.len() { unimplemented!() }
#[verifier::external_body] // String::is_empty
pub fn rt_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] // String::into_bytes
pub fn rt_bytes(s: String) -> Vec<u8> { unimplemented!() }

pub open spec fn all_hold<F: AsExpr>(v: Seq<F>, f: Features) -> bool { forall|i: int| 0 <= i < v.len() ==> holds((#[trigger] v[i]).e(), f) }
pub open spec fn none_holds<F: AsExpr>(v: Seq<F>, f: Features) -> bool { forall|i: int| 0 <= i < v.len() ==> !holds((#[trigger] v[i]).e(), f) }

pub struct FeatureSet { pub features: Features }
impl FeatureSet {
//@@ fn lit/src/config/features.rs :: impl FeatureSet :: missing_features
//@@ ret r
//@@ sub `AsRef<BooleanExpr>>` => `AsExpr>`
//@@ pre `use $x;` => ``
//@@ pre! `for expr in required {` => `let mut i: usize = 0; while i < required.len() { let expr = &required[i]; i += 1;`
//@@ pre `buf.push_str($x)` => `rt_push(&mut buf, $x)`
//@@ pre `buf.is_empty()` => `rt_empty(&buf)`
//@@ pre `write!(&mut buf, "{}", expr).unwrap();` => `rt_show(&mut buf, expr);`
//@@ pre `String::with_capacity($x)` => `String::new()`
//@@ spec
    ensures (r is None) == all_hold(required@, self.features),
//@@ loop 0
    invariant i <= required.len(), (buf@.len() == 0) == (forall|k: int| 0 <= k < i ==> holds((#[trigger] required[k]).e(), self.features)),
    decreases required.len() - i,
//@@ at loop 0 start
    proof { reveal_strlit("Test requires the following unavailable features: "); reveal_strlit(", "); }
//@@ end
//@@ fn lit/src/config/features.rs :: impl FeatureSet :: unsupported_features
//@@ ret r
//@@ sub `AsRef<BooleanExpr>>` => `AsExpr>`
//@@ pre `use $x;` => ``
//@@ pre! `for expr in unsupported {` => `let mut i: usize = 0; while i < unsupported.len() { let expr = &unsupported[i]; i += 1;`
//@@ pre `buf.push_str($x)` => `rt_push(&mut buf, $x)`
//@@ pre `buf.is_empty()` => `rt_empty(&buf)`
//@@ pre `write!(&mut buf, "{}", expr).unwrap();` => `rt_show(&mut buf, expr);`
//@@ spec
    ensures (r is None) == none_holds(unsupported@, self.features),
//@@ loop 0
    invariant i <= unsupported.len(), (buf@.len() == 0) == (forall|k: int| 0 <= k < i ==> !holds((#[trigger] unsupported[k]).e(), self.features)),
    decreases unsupported.len() - i,
//@@ at loop 0 start
    proof { reveal_strlit("Test does not support the following features: "); reveal_strlit(", "); }
//@@ end
}
impl AsExpr for &BooleanExpr { open spec fn e(&self) -> BooleanExpr { **self } fn as_ref(&self) -> (r: &BooleanExpr) { *self } }

// ---------------------------------------------------------------- configuration, tests
#[verifier::external_body] // BTreeMap<StaticCow<str>, StaticCow<str>>, by its entries
pub struct EnvMap { x: u8 }
impl EnvMap {
    pub uninterp spec fn v(&self) -> Map<Seq<char>, Os>;
    pub fn rt_ref(&self) -> (r: &EnvMap) ensures *r == *self { self }
}
/// a text of the operating system: the value of an environment variable
#[verifier::external_body]
pub struct Os { x: u8 }
//@@ item lit/src/test/config.rs :: struct TestConfig
//@@ sub `BTreeMap<StaticCow<str>, StaticCow<str>>` => `EnvMap`
//@@ sub `PatternSet` => `Opaque`
//@@ sub `SubstitutionSet` => `Opaque`
//@@ end
impl TestConfig {
//@@ fn lit/src/test/config.rs :: impl TestConfig :: missing_features
//@@ ret r
//@@ sub `AsRef<BooleanExpr>>` => `AsExpr>`
//@@ spec
    ensures (r is None) == all_hold(required@, self.available_features.features),
//@@ end
//@@ fn lit/src/test/config.rs :: impl TestConfig :: unsupported_features
//@@ ret r
//@@ sub `AsRef<BooleanExpr>>` => `AsExpr>`
//@@ spec
    ensures (r is None) == none_holds(unsupported@, self.available_features.features),
//@@ end
}
#[verifier::external_body] // types that play no part here
pub struct Opaque { x: u8 }
pub type SubstitutionSet = Opaque;
pub type DiagResult<X> = Result<X, Opaque>;
#[verifier::external_body] // a path, the text of a program
pub struct Path { x: u8 }
/// the suite a test belongs to; only what running a test may look at
pub struct TestSuite { pub config: Box<TestConfig>, pub directory: Path }
impl TestSuite {
    pub fn working_dir(&self) -> (r: &Path) ensures *r == self.directory { &self.directory }
}
//@@ item lit/src/test/mod.rs :: struct Test
//@@ sub `intrusive_collections::LinkedListAtomicLink` => `Opaque`
//@@ sub `Arc<TestSuite>` => `Box<TestSuite>`
//@@ sub `Arc<TestConfig>` => `Box<TestConfig>`
//@@ sub `Arc<str>` => `Opaque`
//@@ sub `pub path: PathBuf` => `pub path: Opaque`
//@@ sub `absolute_path: PathBuf` => `absolute_path: Path`
//@@ sub `Option<TestResult>` => `Option<Opaque>`
//@@ end
impl Test {
    pub uninterp spec fn title(&self) -> Seq<char>;
    #[verifier::external_body] // Test::name
    pub fn name(&self) -> (r: &str) ensures r@ == self.title() { unimplemented!() }
    pub fn source_path(&self) -> (r: &Path) ensures *r == self.absolute_path { &self.absolute_path }
}
/// the options of a run which decide about running a test, and about reporting it
pub struct Options { pub no_execute: bool, pub timeout: Option<u64>, pub filter: Option<Regex>, pub filter_out: Option<Regex>, pub quiet: bool, pub verbose: bool, pub all: bool, pub workers: Option<usize>, pub search_paths: Vec<Path> }
#[verifier::external_body] // regex::Regex
pub struct Regex { x: u8 }
impl Regex {
    pub uninterp spec fn found_in(&self, s: Seq<char>) -> bool;
    #[verifier::external_body] // Regex::is_match
    pub fn is_match(&self, s: &str) -> (r: bool) ensures r == self.found_in(s@) { unimplemented!() }
}
pub struct Config { pub options: Options }

// ---------------------------------------------------------------- outcomes of processes
//@@ item lit/src/test/status.rs :: enum TestStatus
//@@ derive Copy, Clone, PartialEq, Eq, Structural
//@@ end
/// how running a command can end
pub enum End { NotRun, Exit(int), Signal, Lost }
/// what is run: the program, its arguments and input, where, with which variables set, for how long at most
pub struct Job { pub prog: Path, pub args: Seq<Path>, pub input: Option<Seq<u8>>, pub dir: Option<Path>, pub env: Map<Seq<char>, Os>, pub timeout: nat }
/// the ends the system may give to a job (`std::process`); running out of time is decided by litcheck
pub uninterp spec fn ends(j: Job, e: End) -> bool;
/// the statuses a run of the job may have
pub open spec fn ended(j: Job, s: TestStatus) -> bool {
    match s {
        TestStatus::Timeout => j.timeout > 0,
        TestStatus::Pass => ends(j, End::Exit(0)),
        TestStatus::Fail => exists|n: int| n != 0 && #[trigger] ends(j, End::Exit(n)),
        TestStatus::Unresolved => ends(j, End::NotRun) || ends(j, End::Signal) || ends(j, End::Lost),
        _ => false,
    }
}
pub open spec fn status_of(e: End) -> TestStatus {
    match e {
        End::Exit(n) => if n == 0 { TestStatus::Pass } else { TestStatus::Fail },
        End::NotRun | End::Signal | End::Lost => TestStatus::Unresolved,
    }
}
pub open spec fn failing(s: TestStatus) -> bool { s is Unresolved || s is Timeout || s is Fail || s is Xpass }
#[verifier::external_body] // std::process::ExitStatus
#[derive(Clone, Copy)]
pub struct ExitStatus { x: u8 }
impl ExitStatus {
    pub uninterp spec fn end(&self) -> End;
    #[verifier::external_body] // ExitStatus::code: None when ended by a signal
    pub fn code(&self) -> (r: Option<i32>) ensures match r { Some(n) => self.end() == End::Exit(n as int), None => self.end() == End::Signal } { unimplemented!() }
}
impl TestStatus {
//@@ fn lit/src/test/status.rs :: impl TestStatus :: is_failure
//@@ ret r
//@@ spec
    ensures r == failing(*self),
//@@ end
//@@ fn lit/src/test/status.rs :: impl From for TestStatus :: from
//@@ ret r
//@@ sub? `std::process::ExitStatus` => `ExitStatus`
//@@ spec
    ensures r == status_of(status.end()),
//@@ end
}
#[verifier::external_body] // std::time::Instant
#[derive(Clone, Copy)]
pub struct Instant { x: u8 }
#[derive(Clone, Copy)]
pub struct Duration { pub secs: u64, pub nanos: u32 }
impl Duration {
    pub open spec fn v(&self) -> nat { (self.secs * 1000000000 + self.nanos) as nat }
    pub const fn from_secs(n: u64) -> (r: Self) ensures r.v() == n * 1000000000 { Duration { secs: n, nanos: 0 } }
    pub const ZERO: Duration = Duration { secs: 0, nanos: 0 };
    #[verifier::external_body] // Duration::is_zero
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
    #[verifier::external_body] // PartialOrd for Duration
    pub fn rt_lt(&self, o: &Duration) -> (r: bool) ensures r == (self.v() < o.v()) { unimplemented!() }
}
impl Instant {
    #[verifier::external_body] // Instant::now
    pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] // Instant::elapsed
    pub fn elapsed(&self) -> Duration { unimplemented!() }
}
//@@ item lit/src/test/result.rs :: struct TestResult
//@@ sub? `std::process::ExitStatus` => `ExitStatus`
//@@ end
/// std::process::Output
pub struct Output { pub status: ExitStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
impl TestResult {
//@@ fn lit/src/test/result.rs :: impl From for TestResult :: from
//@@ ret r
//@@ sub? `std::process::Output` => `Output`
//@@ sub? `output.status.into()` => `TestStatus::from(output.status)`
//@@ spec
    ensures r.status == status_of(output.status.end()),
//@@ end
//@@ fn lit/src/test/result.rs :: impl TestResult :: new
//@@ ret r
//@@ pre `..Default::default()` => `exit_status: None, stdout: Vec::new(), stderr: Vec::new(), elapsed: None, start: None`
//@@ spec
    ensures r.status == status,
//@@ end
//@@ fn lit/src/test/result.rs :: impl TestResult :: with_stdout
//@@ ret r
//@@ spec
    ensures r.status == self.status,
//@@ end
//@@ fn lit/src/test/result.rs :: impl TestResult :: with_stderr
//@@ ret r
//@@ spec
    ensures r.status == self.status,
//@@ end
//@@ fn lit/src/test/result.rs :: impl TestResult :: with_elapsed
//@@ ret r
//@@ spec
    ensures r.status == self.status,
//@@ end
//@@ fn lit/src/test/result.rs :: impl TestResult :: with_start
//@@ ret r
//@@ spec
    ensures r.status == self.status,
//@@ end
//@@ fn lit/src/test/result.rs :: impl TestResult :: with_exit_status
//@@ ret r
//@@ sub? `std::process::ExitStatus` => `ExitStatus`
//@@ spec
    ensures r.status == self.status,
//@@ end
//@@ fn lit/src/test/result.rs :: impl TestResult :: status
//@@ ret r
//@@ spec
    ensures r == self.status,
//@@ end
//@@ fn lit/src/test/result.rs :: impl TestResult :: is_failure
//@@ ret r
//@@ spec
    ensures r == failing(self.status),
//@@ end
}

// ---------------------------------------------------------------- running a command
#[verifier::external_body] // std::process::Child
pub struct Child { x: u8 }
#[verifier::external_body] // std::process::Command
pub struct Cmd { x: u8 }
#[verifier::external_body] // the thread that reads an output
pub struct Reader { x: u8 }
impl Reader {
    #[verifier::external_body] // what was read
    pub fn rt_join(self) -> Vec<u8> { unimplemented!() }
}
#[verifier::external_body]
pub fn join_if_closed(r: Reader) -> Option<Vec<u8>> { unimplemented!() }
#[verifier::external_body] // Option<Reader>: join it, nothing when there is none
pub fn rt_join(r: Option<Reader>) -> Vec<u8> { unimplemented!() }
#[verifier::external_body] // a message in place of output
pub fn rt_note(v: &mut Vec<u8>) { unimplemented!() }
#[verifier::external_body] // a message
pub fn rt_message() -> Vec<u8> { unimplemented!() }
pub struct Io { pub x: u8 }
pub struct CmdV { pub prog: Path, pub args: Seq<Path>, pub dir: Option<Path>, pub env: Map<Seq<char>, Os> }
pub struct Stdio { pub x: u8 }
impl Stdio { pub fn piped() -> Self { Stdio { x: 0 } } }
impl Cmd {
    pub uninterp spec fn v(&self) -> CmdV;
    #[verifier::external_body] // Command::new
    pub fn new(p: &Path) -> (r: Self) ensures r.v() == (CmdV { prog: *p, args: Seq::empty(), dir: None, env: Map::empty() }) { unimplemented!() }
    #[verifier::external_body] // Command::current_dir
    pub fn current_dir(&mut self, p: &Path) ensures final(self).v() == (CmdV { dir: Some(*p), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] // Command::args
    pub fn args(&mut self, a: &[Path]) ensures final(self).v() == (CmdV { args: old(self).v().args + a@, ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] // Command::envs: later settings replace earlier ones
    pub fn envs(&mut self, e: &EnvMap) ensures final(self).v() == (CmdV { env: old(self).v().env.union_prefer_right(e.v()), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] // Command::env
    pub fn env(&mut self, k: &str, v: Os) ensures final(self).v() == (CmdV { env: old(self).v().env.insert(k@, v), ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body] // Command::stdin
    pub fn stdin(&mut self, s: Stdio) ensures final(self).v() == old(self).v() { unimplemented!() }
    #[verifier::external_body] // Command::spawn, both outputs piped; the input is `input` when there is one
    pub fn rt_spawn(&mut self, input: &Option<Vec<u8>>, Ghost(t): Ghost<nat>) -> (r: Result<Child, Io>)
        ensures ({ let j = old(self).v().job(bytes_of(*input), t); match r { Ok(c) => c.job() == j, Err(_) => ends(j, End::NotRun) } }) { unimplemented!() }
}
impl CmdV { pub open spec fn job(self, input: Option<Seq<u8>>, t: nat) -> Job { Job { prog: self.prog, args: self.args, input, dir: self.dir, env: self.env, timeout: t } } }
pub open spec fn bytes_of(v: Option<Vec<u8>>) -> Option<Seq<u8>> { match v { Some(b) => Some(b@), None => None } }
impl Child {
    pub uninterp spec fn job(&self) -> Job;
    #[verifier::external_body] // Child::try_wait
    pub fn try_wait(&mut self) -> (r: Result<Option<ExitStatus>, Io>)
        ensures final(self).job() == old(self).job(), match r { Ok(Some(s)) => match s.end() { End::Exit(n) => ends(old(self).job(), End::Exit(n)), e => e is Signal && ends(old(self).job(), e) }, Ok(None) => true, Err(_) => ends(old(self).job(), End::Lost) } { unimplemented!() }
    #[verifier::external_body] // Child::kill
    pub fn kill(&mut self) ensures final(self).job() == old(self).job() { unimplemented!() }
    #[verifier::external_body] // the readers of the outputs and the writer of the input
    pub fn rt_pipes(&mut self) -> (r: (Option<Reader>, Option<Reader>)) ensures final(self).job() == old(self).job() { unimplemented!() }
}
pub open spec fn limit(o: Options) -> nat { match o.timeout { Some(n) => n as nat * 1000000000, None => 0 } }
/// PATH for given search paths: these, then the own PATH of litcheck
pub uninterp spec fn path_list(p: Seq<Path>) -> Os;
#[verifier::external_body] // std::env::var_os("PATH"), nothing if it is not set
pub fn rt_own_path() -> Os { unimplemented!() }
#[verifier::external_body] // std::env::join_paths of the paths and those in PATH
pub fn rt_join_paths(p: &[Path], own: &Os) -> (r: DiagResult<Os>) ensures r matches Ok(o) ==> o == path_list(p@) { unimplemented!() }
pub proof fn lemma_no_env(m: Map<Seq<char>, Os>)
    ensures Map::<Seq<char>, Os>::empty().union_prefer_right(m) == m
{ assert(Map::<Seq<char>, Os>::empty().union_prefer_right(m) =~= m); }
/// where and with which environment the program of a test runs
pub open spec fn test_job(prog: Path, input: Option<Seq<u8>>, t: Test, o: Options) -> Job {
    Job { prog, args: Seq::empty(), input, dir: Some(t.suite.directory), env: t.config.env.v().insert("PATH"@, path_list(o.search_paths@)), timeout: limit(o) }
}
//@@ item lit/src/utils.rs :: struct ShellCommand
//@@ sub `std::process::Command` => `Cmd`
//@@ end
impl ShellCommand {
    pub open spec fn job(&self, t: nat) -> Job { self.command.v().job(bytes_of(self.pipe_stdin), t) }
//@@ fn lit/src/utils.rs :: impl ShellCommand :: new
//@@ sig `pub fn new(prog: &Path) -> (r: Self)`
//@@ pre `std::process::Command` => `Cmd`
//@@ spec
    ensures r.command.v() == (CmdV { prog: *prog, args: Seq::empty(), dir: None, env: Map::empty() }), r.pipe_stdin is None,
//@@ end
//@@ fn lit/src/utils.rs :: impl ShellCommand :: paths
//@@ sig `pub fn paths(&mut self, extra_paths: &[Path]) -> (r: DiagResult<&mut Self>)`
//@@ pre! `std::env::var_os("PATH").unwrap_or_default()` => `rt_own_path()`
//@@ pre! `std::env::join_paths(extra_paths.iter().map(|p| Cow::Borrowed(p.as_ref().as_os_str())).chain(std::env::split_paths(&env_paths).map(|p| Cow::Owned(p.into_os_string()))),).into_diagnostic()?` => `rt_join_paths(extra_paths, &env_paths)?`
//@@ spec
    ensures match r {
        Ok(c) => *final(c) == *final(self) && c.pipe_stdin == old(self).pipe_stdin && c.command.v() == (CmdV { env: old(self).command.v().env.insert("PATH"@, path_list(extra_paths@)), ..old(self).command.v() }),
        Err(_) => true,
    },
//@@ end
//@@ fn lit/src/utils.rs :: impl ShellCommand :: current_dir
//@@ sig `pub fn current_dir(&mut self, cwd: &Path) -> (r: &mut Self)`
//@@ spec
    ensures *final(r) == *final(self), r.pipe_stdin == old(self).pipe_stdin, r.command.v() == (CmdV { dir: Some(*cwd), ..old(self).command.v() }),
//@@ end
//@@ fn lit/src/utils.rs :: impl ShellCommand :: args
//@@ sig `pub fn args(&mut self, args: &[Path]) -> (r: &mut Self)`
//@@ spec
    ensures *final(r) == *final(self), r.pipe_stdin == old(self).pipe_stdin, r.command.v() == (CmdV { args: old(self).command.v().args + args@, ..old(self).command.v() }), args@.len() == 0 ==> r.command.v() == old(self).command.v(),
//@@ at entry
    proof { assert(args@.len() == 0 ==> self.command.v().args + args@ =~= self.command.v().args); }
//@@ end
//@@ fn lit/src/utils.rs :: impl ShellCommand :: envs
//@@ sig `pub fn envs(&mut self, vars: &EnvMap) -> (r: &mut Self)`
//@@ spec
    ensures *final(r) == *final(self), r.pipe_stdin == old(self).pipe_stdin, r.command.v() == (CmdV { env: old(self).command.v().env.union_prefer_right(vars.v()), ..old(self).command.v() }),
        old(self).command.v().env == Map::<Seq<char>, Os>::empty() ==> r.command.v().env == vars.v(),
//@@ at entry
    proof { lemma_no_env(vars.v()); }
//@@ end
//@@ fn lit/src/utils.rs :: impl ShellCommand :: pipe_stdin
//@@ ret r
//@@ pre `std::process::Stdio` => `Stdio`
//@@ spec
    ensures *final(r) == *final(self), r.pipe_stdin == Some(bytes), r.command.v() == old(self).command.v(),
//@@ end
//@@ fn lit/src/utils.rs :: impl ShellCommand :: wait_with_timeout
//@@ ret r
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ pre `rt_self.command.stdout($a).stderr($b);` => ``
//@@ pre! `rt_self.command.spawn()` => `rt_self.command.rt_spawn(&rt_self.pipe_stdin, Ghost(timeout.v()))`
//@@ pre! `if let (Some(mut stdin), Some(bytes)) = $a { $B } let stdout_handle = $b; let stderr_handle = $c;` => `let (stdout_handle, stderr_handle) = child.rt_pipes();`
//@@ pre `stdout_handle.and_then(join_if_closed).unwrap_or_default()` => `rt_join(stdout_handle)`
//@@ pre `stderr_handle.and_then(join_if_closed).unwrap_or_default()` => `rt_join(stderr_handle)`
//@@ pre `stdout_handle.and_then(|$x| $y).unwrap_or_default()` => `rt_join(stdout_handle)`
//@@ pre `stderr_handle.and_then(|$x| $y).unwrap_or_default()` => `rt_join(stderr_handle)`
//@@ pre `elapsed < timeout` => `elapsed.rt_lt(&timeout)`
//@@ pre `let status = child.try_wait().transpose();` => `let status = match child.try_wait() { Ok(Some(s)) => Some(Ok(s)), Ok(None) => None, Err(e) => Some(Err(e)) };`
//@@ pre `if stderr.is_empty() { $A } else { $B }` => `rt_note(&mut stderr);`
//@@ pre `format!("Failed to spawn process: {spawn_err}").into_bytes()` => `rt_message()`
//@@ pre `std::process::Output { $X }` => `Output { $X }`
//@@ pre `break $x;` => `return $x;`
//@@ spec
    ensures ended(self.job(timeout.v()), r.status),
//@@ loop 0
    invariant child.job() == self.job(timeout.v()),
//@@ end
}

// ---------------------------------------------------------------- scripts
pub struct Command { pub x: u8 }
pub type Substitution = Opaque;
//@@ item lit/src/formats/sh/script/directives.rs :: struct Run
//@@ end
//@@ item lit/src/formats/sh/script/directives.rs :: enum ScriptCommand
//@@ end
//@@ item lit/src/formats/sh/script/mod.rs :: struct TestScript
//@@ end
#[verifier::external_body] // Input::from(path).into_source(..): the text of the test
pub fn rt_source(test: &Test) -> (r: DiagResult<Opaque>) ensures r matches Ok(s) ==> s == text_of(*test) { unimplemented!() }
pub uninterp spec fn text_of(t: Test) -> Opaque;
/// what unit script proves about the parser
pub uninterp spec fn script_of(text: Opaque) -> Option<TestScript>;
#[verifier::external_body] // TestScript::parse
pub fn rt_parse(text: &Opaque) -> (r: DiagResult<TestScript>) ensures match r { Ok(s) => script_of(*text) == Some(s), Err(_) => script_of(*text) is None } { unimplemented!() }
#[verifier::external_body] // the message of a diagnostic
pub fn rt_diagnostic(e: Opaque) -> String { unimplemented!() }
/// the same conditions, whatever became of the commands
pub open spec fn same_conditions(a: TestScript, b: TestScript) -> bool { a.xfails == b.xfails && a.requires == b.requires && a.unsupported == b.unsupported && a.allowed_retries == b.allowed_retries }
impl TestScript {
    #[verifier::external_body] // TestScript::apply_substitutions, see unit subst: rewrites the commands
    pub fn apply_substitutions(&mut self, s: &mut Opaque) -> (r: DiagResult<()>)
        ensures same_conditions(*final(self), *old(self)), r is Ok ==> *final(self) == substituted(*old(self), *old(s)) { unimplemented!() }
}
pub uninterp spec fn substituted(s: TestScript, subs: Opaque) -> TestScript;
//@@ item lit/src/formats/sh/mod.rs :: struct ShTest
//@@ sub? `SubstitutionSet` => `Opaque`
//@@ end
/// the text the shell is given, and the substitutions of a test
pub open spec fn shell_text(s: TestScript, pipefail: bool) -> Seq<u8> { utf8(script_text(s.commands@, pipefail)) }
pub uninterp spec fn utf8(t: Seq<char>) -> Seq<u8>;
/// a command that tells which line is run, and shows the command
pub uninterp spec fn banner(line: usize, command: Seq<char>) -> Seq<char>;
/// the RUN commands of a script, in order
pub open spec fn runs_of(c: Seq<ScriptCommand>) -> Seq<Run> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { match c.last() { ScriptCommand::Run(r) => runs_of(c.drop_last()).push(r), _ => runs_of(c.drop_last()) } }
}
/// all of them in one list of commands joined by `&&`: each is run if those before it succeeded, and the last one run decides
pub open spec fn joined(r: Seq<Run>) -> Seq<char> decreases r.len() {
    if r.len() == 0 { Seq::empty() } else { joined(r.drop_last()) + (if r.len() == 1 { ""@ } else { " && "@ }) + one(r.last()) }
}
pub open spec fn one(r: Run) -> Seq<char> {
    "{\n  "@ + "{ set +x; } 2>/dev/null && "@ + banner(r.line, r.command@) + "{ set -x; } 2>/dev/null && {\n"@ + r.command@ + "\n};\n}"@
}
pub open spec fn script_text(c: Seq<ScriptCommand>, pipefail: bool) -> Seq<char> {
    (if pipefail { "set -o pipefail;\n"@ } else { ""@ }) + "set -x;\n"@ + joined(runs_of(c)) + "\n"@
}
#[verifier::external_body] // iter().filter_map: the RUN commands
pub fn rt_runs(c: &Vec<ScriptCommand>) -> (r: Vec<&Run>) ensures r@.len() == runs_of(c@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == runs_of(c@)[i] { unimplemented!() }
#[verifier::external_body] // the quoted command, and write! of the banner
pub fn rt_banner(buf: &mut String, line: usize, command: &String) ensures final(buf)@ == old(buf)@ + banner(line, command@) { unimplemented!() }
#[verifier::external_body] // String::into_bytes
pub fn rt_utf8(s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
impl Run {
//@@ fn lit/src/formats/sh/script/directives.rs :: impl Directive for Run :: line
//@@ ret r
//@@ spec
    ensures r == self.line,
//@@ end
}
//@@ fn lit/src/formats/sh/engine.rs :: write_script
//@@ ret r
//@@ pre `use $x;` => ``
//@@ pre! `String::with_capacity($x)` => `String::new()`
//@@ pre! `for (index, test) in script.commands.iter().filter_map(|c| match c { ScriptCommand::Run(ref cmd) => Some(cmd), _ => None, }).enumerate() {` => `let rt_cmds = rt_runs(&script.commands); let mut rt_i: usize = 0; while rt_i < rt_cmds.len() { let index = rt_i; let test = rt_cmds[rt_i]; rt_i += 1;`
//@@ pre! `let quoted = shlex::Quoter::new().allow_nul(true).quote(&test.command).expect($x);` => ``
//@@ pre! `write!(&mut buf, "echo 'RUN at line {}': {} >&2 && ", test.line(), quoted).unwrap();` => `rt_banner(&mut buf, test.line(), &test.command);`
//@@ pre `buf.push_str(&test.command)` => `rt_push(&mut buf, test.command.as_str())`
//@@ pre `buf.push_str($x)` => `rt_push(&mut buf, $x)`
//@@ pre `buf.push('\n')` => `rt_push(&mut buf, "\n")`
//@@ pre `buf.into_bytes()` => `rt_utf8(buf)`
//@@ spec
    ensures r@ == shell_text(*script, pipefail),
//@@ at before `let rt_cmds = $x;`
    let ghost rt_head = buf@;
    proof { reveal_strlit(""); assert(rt_head =~= (if pipefail { "set -o pipefail;\n"@ } else { ""@ }) + "set -x;\n"@); assert(runs_of(script.commands@).take(0) =~= Seq::empty()); assert(buf@ =~= rt_head + joined(runs_of(script.commands@).take(0))); }
//@@ at before `rt_utf8($x)`
    proof { assert(runs_of(script.commands@).take(rt_i as int) =~= runs_of(script.commands@)); }
//@@ loop 0
    invariant
        rt_i <= rt_cmds@.len(), rt_cmds@.len() == runs_of(script.commands@).len(),
        forall|i: int| 0 <= i < rt_cmds@.len() ==> *(#[trigger] rt_cmds@[i]) == runs_of(script.commands@)[i],
        buf@ == rt_head + joined(runs_of(script.commands@).take(rt_i as int)),
    decreases rt_cmds@.len() - rt_i,
//@@ at loop 0 start
    let ghost rt_before = buf@;
    proof { reveal_strlit(""); let all = runs_of(script.commands@); assert(all.take(rt_i + 1).drop_last() =~= all.take(rt_i as int)); assert(all.take(rt_i + 1).last() == all[rt_i as int]); }
//@@ at loop 0 end
    proof { let all = runs_of(script.commands@); assert(buf@ =~= rt_before + (if rt_i == 1 { ""@ } else { " && "@ }) + one(all[rt_i - 1])); assert(buf@ =~= rt_head + joined(all.take(rt_i as int))); }
//@@ end
pub uninterp spec fn subs_of(f: ShTest, t: Test) -> Opaque;
pub uninterp spec fn path_of(s: Seq<char>) -> Path;
#[verifier::external_body] // a path given as text
pub fn rt_path(s: &str) -> (r: Path) ensures r == path_of(s@) { unimplemented!() }
#[verifier::external_body] // the substitutions a test runs with; creates its temporary directory
pub fn rt_substitutions(f: &ShTest, t: &Test) -> (r: Opaque) ensures r == subs_of(*f, *t) { unimplemented!() }
pub open spec fn shell_job(f: ShTest, s: TestScript, t: Test, o: Options) -> Job {
    test_job(path_of(match f.shell { Some(t) => t@, None => "sh"@ }), Some(shell_text(s, f.pipefail)), t, o)
}
/// one more run as long as the last one failed and retries are left: the status of the last run, a late pass is a flaky one
pub open spec fn runs(j: Job, retries: nat, ss: Seq<TestStatus>) -> bool {
    &&& 1 <= ss.len() <= retries + 1
    &&& forall|i: int| 0 <= i < ss.len() ==> ended(j, #[trigger] ss[i])
    &&& forall|i: int| 0 <= i < ss.len() - 1 ==> (#[trigger] ss[i]) is Fail
    &&& ss.len() < retries + 1 ==> !(ss.last() is Fail)
}
pub open spec fn outcome(ss: Seq<TestStatus>) -> TestStatus { if ss.len() > 1 && ss.last() is Pass { TestStatus::FlakyPass } else { ss.last() } }
pub open spec fn expected(s: TestStatus, xfail: bool) -> TestStatus {
    if !xfail { s } else { match s { TestStatus::Pass | TestStatus::FlakyPass => TestStatus::Xpass, TestStatus::Fail => TestStatus::Xfail, _ => s } }
}
pub open spec fn retries_of(s: TestScript) -> nat { match s.allowed_retries { Some(n) => n.spanned as nat, None => 0 } }
pub open spec fn to_run(c: FeatureSet, s: TestScript) -> bool { all_hold(s.requires@, c.features) && none_holds(s.unsupported@, c.features) }
pub open spec fn xfail(t: Test, s: TestScript) -> bool { !t.xfail_not && exists|i: int| 0 <= i < s.xfails@.len() && holds((#[trigger] s.xfails@[i]).spanned, t.config.available_features.features) }
#[verifier::external_body] // iter().any(|c| c.evaluate(features))
pub fn rt_any_holds(v: &Vec<Span<BooleanExpr>>, f: &FeatureSet) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && holds((#[trigger] v@[i]).spanned, f.features) { unimplemented!() }

//@@ fn lit/src/formats/sh/engine.rs :: run_once
//@@ ret r
//@@ pre `ShellCommand::new(config.shell())` => `ShellCommand::new(&rt_path(config.shell()))`
//@@ pre `crate::utils::ShellCommand` => `ShellCommand`
//@@ pre! `.iter().map(|(k, v)| (&**k, &**v))` => `.rt_ref()`
//@@ pre! `lit.options.timeout.map(Duration::from_secs).unwrap_or(Duration::ZERO)` => `match lit.options.timeout { Some(n) => Duration::from_secs(n), None => Duration::ZERO }`
//@@ spec
    requires to_run(test.config.available_features, *script),
    ensures r matches Ok(o) ==> ended(shell_job(*config, *script, *test, lit.options), o.status),
//@@ end
//@@ fn lit/src/formats/sh/engine.rs :: run_test
//@@ ret r
//@@ opt #[verifier::exec_allows_no_decreases_clause]
//@@ pre `script.allowed_retries.map(Span::into_inner).unwrap_or(0)` => `match script.allowed_retries { Some(ref n) => n.spanned, None => 0 }`
//@@ spec
    requires to_run(test.config.available_features, *script), retries_of(*script) < usize::MAX,
    ensures r matches Ok(o) ==> exists|ss: Seq<TestStatus>| #[trigger] runs(shell_job(*config, *script, *test, lit.options), retries_of(*script), ss) && o.status == outcome(ss),
//@@ at before `let mut retries`
    let ghost mut ss: Seq<TestStatus> = Seq::empty();
    let ghost j = shell_job(*config, *script, *test, lit.options);
//@@ loop 0
    invariant_except_break
        retries == ss.len(), retries <= max_retries,
        forall|i: int| 0 <= i < ss.len() ==> ended(j, #[trigger] ss[i]) && ss[i] is Fail,
    invariant
        max_retries == retries_of(*script), max_retries < usize::MAX, j == shell_job(*config, *script, *test, lit.options),
        to_run(test.config.available_features, *script),
    ensures
        runs(j, retries_of(*script), ss), result.status == ss.last(), retries > 0 && result.status is Pass ==> ss.len() > 1, retries == 0 ==> ss.len() == 1,
//@@ at after `result = run_once($x)?;`
    proof { ss = ss.push(result.status); }
//@@ end
impl ShTest {
//@@ fn lit/src/formats/sh/mod.rs :: impl ShTest :: shell
//@@ ret r
//@@ pre `self.shell.as_deref().unwrap_or($x)` => `match &self.shell { Some(s) => s.as_str(), None => $x }`
//@@ spec
    ensures r@ == match self.shell { Some(t) => t@, None => "sh"@ },
//@@ end
    /// the verdict of a test: what its conditions and the runs of its script make of it
    pub open spec fn verdict(self, t: Test, o: Options, s: TestStatus) -> bool {
        match script_of(text_of(t)) {
            None => s is Unresolved,
            Some(p) => if !to_run(t.config.available_features, p) { s is Unsupported }
                else if o.no_execute { s is Pass }
                else { exists|ss: Seq<TestStatus>| #[trigger] runs(shell_job(self, substituted(p, subs_of(self, t)), t, o), retries_of(p), ss) && s == expected(outcome(ss), xfail(t, p)) },
        }
    }
//@@ fn lit/src/formats/sh/mod.rs :: impl TestFormat for ShTest :: execute
//@@ ret r
//@@ pre! `let script_source = Input::from(test.source_path()).into_source(false, config.source_manager()).into_diagnostic().wrap_err($x)?;` => `let script_source = rt_source(test)?;`
//@@ pre `TestScript::parse(script_source.clone())` => `rt_parse(&script_source)`
//@@ pre `let buf = format!("{}", PrintDiagnostic::new(err));` => `let buf = rt_diagnostic(err);`
//@@ pre `$x.into_bytes()` => `rt_bytes($x)`
//@@ pre! `let test_filename = $X; substitutions.insert("%%", "%");` => `let mut substitutions = rt_substitutions(self, test);`
//@@ pre `.map_err(|err| err.with_source_code($x))` => ``
//@@ pre `engine::run_test` => `run_test`
//@@ pre `script.xfails.iter().any(|$c| $c.evaluate(&test.config.available_features))` => `rt_any_holds(&script.xfails, &test.config.available_features)`
//@@ spec
    requires script_of(text_of(*test)) matches Some(p) ==> retries_of(p) < usize::MAX,
    ensures r matches Ok(o) ==> self.verdict(*test, config.options, o.status),
//@@ end
}
//@@ item lit/src/formats/executable.rs :: struct ExecutableTest
//@@ end
impl ExecutableTest {
    pub open spec fn verdict(self, t: Test, o: Options, s: TestStatus) -> bool {
        if !none_holds(self.unsupported@, t.config.available_features.features) { s is Unsupported }
        else if o.no_execute { s is Pass }
        else { ended(test_job(t.absolute_path, None, t, o), s) }
    }
//@@ fn lit/src/formats/executable.rs :: impl TestFormat for ExecutableTest :: execute
//@@ ret r
//@@ pre `const ARGV: &[&Path] = &[];` => `let rt_none: [Path; 0] = []; let ARGV: &[Path] = &rt_none;`
//@@ pre `unsupported_features.into_bytes()` => `rt_bytes(unsupported_features)`
//@@ pre `crate::utils::ShellCommand` => `ShellCommand`
//@@ pre! `.iter().map(|(k, v)| (&**k, &**v))` => `.rt_ref()`
//@@ pre! `config.options.timeout.map(Duration::from_secs).unwrap_or(Duration::ZERO)` => `match config.options.timeout { Some(n) => Duration::from_secs(n), None => Duration::ZERO }`
//@@ spec
    ensures r matches Ok(o) ==> self.verdict(*test, config.options, o.status),
//@@ end
}
//@@ item lit/src/format.rs :: enum SelectedTestFormat
//@@ sub? `crate::formats::ShTest` => `ShTest`
//@@ sub? `crate::formats::ExecutableTest` => `ExecutableTest`
//@@ end
impl ShTest {
    /// ShTest::default, derived: no shell named, no pipefail
    pub uninterp spec fn dflt() -> ShTest;
    #[verifier::external_body] // derived Default
    pub fn rt_default() -> (r: Self) ensures r == ShTest::dflt(), r.shell is None, !r.pipefail { unimplemented!() }
}
impl SelectedTestFormat {
    pub open spec fn verdict(self, t: Test, o: Options, s: TestStatus) -> bool {
        match self {
            SelectedTestFormat::Default => ShTest::dflt().verdict(t, o, s),
            SelectedTestFormat::ShTest(f) => f.verdict(t, o, s),
            SelectedTestFormat::Executable(f) => f.verdict(t, o, s),
        }
    }
//@@ fn lit/src/format.rs :: impl TestFormat for SelectedTestFormat :: execute
//@@ ret r
//@@ pre `Self::ShTest(ref format)` => `Self::ShTest(format)`
//@@ pre `Self::Executable(ref format)` => `Self::Executable(format)`
//@@ pre `crate::formats::ShTest::default()` => `ShTest::rt_default()`
//@@ spec
    requires script_of(text_of(*test)) matches Some(p) ==> retries_of(p) < usize::MAX,
    ensures r matches Ok(o) ==> self.verdict(*test, config.options, o.status),
//@@ end
}
}
fn main() {}
