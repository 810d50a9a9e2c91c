//! Running the real command in scratch directories.

use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[derive(Debug, Clone, PartialEq)]
pub struct CliOut {
    /// exit code, or 128 + signal
    pub code: i32,
    pub out: String,
    pub err: String,
    pub raw: Vec<u8>,
}

pub fn binary() -> String {
    format!("{}/release/luafmt", std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into()))
}

pub fn root() -> PathBuf {
    PathBuf::from(format!("/tmp/luafmt-mc-{}", std::process::id()))
}

pub fn cleanup() {
    let r = root();
    if r.exists() {
        let _ = std::fs::remove_dir_all(&r);
    }
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static MINE: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

/// This thread's scratch directory.
pub fn scratch() -> PathBuf {
    MINE.with(|m| {
        m.borrow_mut()
            .get_or_insert_with(|| {
                let p = root().join(format!("t{}", NEXT.fetch_add(1, SeqCst)));
                std::fs::create_dir_all(&p).expect("scratch directory");
                p
            })
            .clone()
    })
}

/// An empty directory of this name in the scratch directory.
pub fn fresh(name: &str) -> PathBuf {
    let p = scratch().join(name);
    if p.exists() {
        let _ = std::fs::remove_dir_all(&p);
    }
    std::fs::create_dir_all(&p).expect("scratch directory");
    p
}

pub fn run(args: &[&str], stdin: &[u8], cwd: &Path, env: &[(&str, &str)]) -> CliOut {
    run_bin(&binary(), args, stdin, cwd, env)
}

pub fn run_bin(bin: &str, args: &[&str], stdin: &[u8], cwd: &Path, env: &[(&str, &str)]) -> CliOut {
    let mut c = Command::new(bin);
    c.args(args).current_dir(cwd).env("RUST_BACKTRACE", "0").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env {
        c.env(k, v);
    }
    let mut ch = c.spawn().expect("cannot start luafmt");
    let mut si = ch.stdin.take().unwrap();
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let mut raw = vec![];
    let mut err = vec![];
    if stdin.len() < 32_768 {
        let _ = si.write_all(stdin);
        drop(si);
        let _ = so.read_to_end(&mut raw);
        let _ = se.read_to_end(&mut err);
    } else {
        std::thread::scope(|s| {
            s.spawn(move || {
                let _ = si.write_all(stdin);
            });
            let h = s.spawn(|| {
                let _ = se.read_to_end(&mut err);
            });
            let _ = so.read_to_end(&mut raw);
            let _ = h.join();
        });
    }
    let st = ch.wait().expect("wait");
    use std::os::unix::process::ExitStatusExt;
    CliOut {
        code: st.code().unwrap_or_else(|| 128 + st.signal().unwrap_or(0)),
        out: String::from_utf8_lossy(&raw).into_owned(),
        err: String::from_utf8_lossy(&err).into_owned(),
        raw,
    }
}

/// A copy of the command that every user can run, in a directory that every user can enter.
fn public_binary() -> PathBuf {
    use std::os::unix::fs::PermissionsExt;
    static ONCE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    ONCE.get_or_init(|| {
        std::fs::create_dir_all(root()).expect("scratch directory");
        let p = root().join("luafmt-public");
        std::fs::copy(binary(), &p).expect("copy of luafmt");
        std::fs::set_permissions(&p, PermissionsExt::from_mode(0o755)).expect("copy of luafmt");
        p
    })
    .clone()
}

/// Run the command as an unprivileged user; None if users cannot be changed here.
pub fn run_unprivileged(args: &[&str], cwd: &Path) -> Option<CliOut> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let o = Command::new(public_binary()).args(args).current_dir(cwd).uid(65534).gid(65534).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).output().ok()?;
    Some(CliOut {
        code: o.status.code().unwrap_or_else(|| 128 + o.status.signal().unwrap_or(0)),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
        raw: o.stdout,
    })
}

/// The command ended by a panic or a signal.
pub fn crashed(o: &CliOut) -> bool {
    o.code >= 128 || o.code == 101 || o.err.contains("panicked at")
}

/// As `run`, without standard input, for arguments that need not be UTF-8.
pub fn run_os(args: &[std::ffi::OsString], cwd: &Path) -> CliOut {
    let o = Command::new(binary())
        .args(args)
        .current_dir(cwd)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .output()
        .expect("cannot start luafmt");
    use std::os::unix::process::ExitStatusExt;
    CliOut {
        code: o.status.code().unwrap_or_else(|| 128 + o.status.signal().unwrap_or(0)),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
        raw: o.stdout,
    }
}
