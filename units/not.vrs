//@@ include prelude.inc
// `not`: exit status mapping
verus! {
#[verifier::external_body] // OsString, opaque
pub struct OsString { x: u8 }
#[verifier::external_body] // std::io::Error, opaque
pub struct IoError { x: u8 }
pub struct ExitCode { pub code: int }
impl ExitCode {
    #[verifier::external_body] // ExitCode::from(u8)
    pub fn from(n: u8) -> (r: Self) ensures r.code == n { unimplemented!() }
    #[verifier::external_body] // ExitCode::SUCCESS is 0
    pub fn rt_success() -> (r: Self) ensures r.code == 0 { unimplemented!() }
}
pub type DiagResult<T> = Result<T, IoError>;

// what running the command does: it cannot be run (not found / other), it exits with a code, it is ended by a signal
pub enum Outcome { NotFound, CannotRun, Exit(i32), Signal }
pub uninterp spec fn outcome(prog: OsString, args: Seq<OsString>) -> Outcome;
#[verifier::external_body] // ExitStatus, opaque
pub struct ExitStatus { x: u8 }
impl ExitStatus {
    pub uninterp spec fn st(&self) -> Option<i32>;
    #[verifier::external_body] // ExitStatus::code: None when ended by a signal
    pub fn code(&self) -> (r: Option<i32>) ensures r == self.st() { unimplemented!() }
    #[verifier::external_body] // ExitStatus::success
    pub fn success(&self) -> (r: bool) ensures r == (self.st() == Some(0i32)) { unimplemented!() }
}
pub enum ErrorKind { NotFound, Other }
impl IoError {
    pub uninterp spec fn k(&self) -> ErrorKind;
    #[verifier::external_body] // io::Error::kind
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() }
}
#[verifier::external_body] // std::process::Command: program, arguments, environment
pub struct Cmd { x: u8 }
impl Cmd {
    pub uninterp spec fn prog(&self) -> OsString;
    pub uninterp spec fn argv(&self) -> Seq<OsString>;
    #[verifier::external_body] // Command::new
    pub fn new(p: &OsString) -> (r: Self) ensures r.prog() == *p, r.argv() == Seq::<OsString>::empty() { unimplemented!() }
    #[verifier::external_body] // Command::args appends
    pub fn args(&mut self, a: &[OsString]) ensures final(self).prog() == old(self).prog(), final(self).argv() == old(self).argv() + a@ { unimplemented!() }
    #[verifier::external_body] // Command::env
    pub fn env(&mut self, k: &str, v: &str) ensures final(self).prog() == old(self).prog(), final(self).argv() == old(self).argv() { unimplemented!() }
    #[verifier::external_body] // Command::status
    pub fn status(&mut self) -> (r: Result<ExitStatus, IoError>)
        ensures match outcome(old(self).prog(), old(self).argv()) {
            Outcome::NotFound => r matches Err(e) && e.k() is NotFound,
            Outcome::CannotRun => r matches Err(e) && !(e.k() is NotFound),
            Outcome::Exit(n) => r matches Ok(s) && s.st() == Some(n),
            Outcome::Signal => r matches Ok(s) && s.st() is None,
        }
    { unimplemented!() }
}
#[verifier::external_body] // slice::split_first
pub fn rt_split_first(v: &Vec<OsString>) -> (r: Option<(&OsString, &[OsString])>)
    ensures match r { None => v.len() == 0, Some((p, a)) => v.len() > 0 && *p == v[0] && a@ == v@.subrange(1, v.len() as int) }
{ unimplemented!() }

//@@ item litcheck/src/commands/not.rs :: struct Not
//@@ end
impl Not {
//@@ fn litcheck/src/commands/not.rs :: impl Command for Not :: run
//@@ ret r
//@@ sub? `self.command.split_first()` => `rt_split_first(&self.command)`
//@@ sub? `eprintln!($x);` => ``
//@@ sub? `std::process::Command::new` => `Cmd::new`
//@@ sub? `std::io::ErrorKind` => `ErrorKind`
//@@ sub? `ExitCode::SUCCESS` => `ExitCode::rt_success()`
//@@ spec
    ensures r is Ok, ({
        let code = r->Ok_0.code;
        if self.command.len() == 0 { code != 0 } else {
            match outcome(self.command[0], self.command@.subrange(1, self.command.len() as int)) {
                Outcome::NotFound => code != 0,
                Outcome::CannotRun => code != 0,
                // success exactly when it failed by itself (or, with --crash, when it was ended by a signal)
                Outcome::Exit(n) => code == if n != 0 && !self.expect_crash { 0int } else { 1 },
                Outcome::Signal => code == if self.expect_crash { 0int } else { 1 },
            }
        }
    }),
//@@ at before `let exit_status`
    proof { assert(Seq::<OsString>::empty() + argv@ =~= argv@); }
//@@ end
}
}
fn main() {}
