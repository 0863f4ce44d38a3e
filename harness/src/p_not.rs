//! `litcheck not` as a process.
use crate::util::*;
use std::process::{Command, Stdio};

pub static PROP: Prop = Prop {
    id: "P24",
    rule: "the litcheck binary run on commands exiting with every code 0-255, ended by 10 signals, missing, not executable, or given odd arguments, with and without --crash; non-trivial when the command could be run",
    fixed,
    gen,
    check,
};
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for c in ["", "--crash"] {
        for n in 0..256 {
            v.push(vec![c.into(), "exit".into(), n.to_string()]);
        }
        for n in [4, 5, 6, 7, 8, 9, 10, 11, 14, 15] {
            v.push(vec![c.into(), "signal".into(), n.to_string()]);
        }
        for k in ["missing", "noexec", "dir", "missingpath"] {
            v.push(vec![c.into(), k.into(), "".into()]);
        }
        for a in ["--crash", "--help", "-x", "", "a b", "--", "help", "é"] {
            v.push(vec![c.into(), "args".into(), a.into()]);
        }
    }
    v
}
fn gen(r: &mut Rng) -> Case {
    let f = fixed();
    let mut c = f[r.below(f.len())].clone();
    if c[1] == "args" {
        r.salt(&mut c[2]);
        c[2].retain(|c| c != '\0');
    }
    c
}
fn check(c: &Case) -> Outcome {
    let dir = std::env::var("VH_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
    let exe = std::env::var("VH_LITCHECK").unwrap_or_else(|_| "/verif/target/debug/litcheck".into());
    if c.len() != 3 {
        return Outcome::Skip;
    }
    let crash = match c[0].as_str() {
        "" => false,
        "--crash" => true,
        _ => return Outcome::Skip,
    };
    let mut k = Command::new(exe);
    k.arg("not").current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    if crash {
        k.arg("--crash");
    }
    let want = match c[1].as_str() {
        "exit" => {
            let Ok(n) = c[2].parse::<u8>() else { return Outcome::Skip };
            k.args(["sh", "-c", &format!("exit {n}")]);
            i32::from(crash || n == 0)
        }
        "signal" => {
            let Ok(n) = c[2].parse::<u8>() else { return Outcome::Skip };
            if ![4, 5, 6, 7, 8, 9, 10, 11, 14, 15].contains(&n) {
                return Outcome::Skip;
            }
            k.args(["sh", "-c", &format!("ulimit -c 0; kill -{n} $$; sleep 9")]);
            i32::from(!crash)
        }
        "args" => {
            // the command sees the argument unchanged and in place
            let w = std::path::Path::new(&dir).join("notargs.sh");
            static ONCE: std::sync::Once = std::sync::Once::new();
            ONCE.call_once(|| std::fs::write(&w, "[ $# = 3 ] && [ \"$1\" = -q ] && [ \"$2\" = \"$WANT\" ] && [ \"$3\" = z ] && exit 7\nexit 0\n").unwrap());
            k.arg("sh").arg(&w).arg("-q").arg(&c[2]).arg("z").env("WANT", &c[2]);
            i32::from(crash)
        }
        "missing" => {
            k.arg("no-such-command-here");
            1
        }
        "missingpath" => {
            k.arg("./no/such/command");
            1
        }
        "noexec" => {
            let p = std::path::Path::new(&dir).join("noexec");
            static ONCE: std::sync::Once = std::sync::Once::new();
            ONCE.call_once(|| std::fs::write(&p, "x").unwrap());
            k.arg(&p);
            1
        }
        "dir" => {
            k.arg("./");
            1
        }
        _ => return Outcome::Skip,
    };
    let s = k.status().expect("litcheck binary");
    let Some(code) = s.code() else { return Outcome::Fail(format!("`not` was ended by a signal ({s})")) };
    if (code == 0) != (want == 0) {
        return Outcome::Fail(format!("`not` ended with {s}, but should {}", if want == 0 { "succeed" } else { "fail" }));
    }
    Outcome::Ok(c[1] != "missing" && c[1] != "noexec" && c[1] != "dir" && c[1] != "missingpath")
}
