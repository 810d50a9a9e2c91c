//! C16 (and the fault part of C15): every file-system call of a run fails, is cut short, or is the last one.
//! The calls are counted and interfered with by target/faultrun (mc/c/faultrun.c), at the boundary of the kernel.

use super::command::{case, lib, opts, snapshot};
use super::*;
use crate::cfgs::V;
use crate::cli;
use std::collections::BTreeMap;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

const EIO: i32 = 5;
const EINTR: i32 = 4;
const EACCES: i32 = 13;
const ENOSPC: i32 = 28;
const EROFS: i32 = 30;

const SET: &[(&str, &str)] = &[("remove_spaces_between_tokens", "true"), ("replace_zero_spaces_with_hint", "true"), ("field_separator", ";"), ("write_newline_at_eof", "true")];

fn cfg() -> Arc<Cfg> {
    opts(&[
        ("remove_spaces_between_tokens", V::B(true)),
        ("replace_zero_spaces_with_hint", V::B(true)),
        ("field_separator", V::S(";".into())),
        ("write_newline_at_eof", V::B(true)),
    ])
}

/// A file of a scenario: name, content, permissions.
#[derive(Clone)]
struct F(&'static str, String, u32);

#[derive(Clone)]
pub struct Scenario {
    name: &'static str,
    files: Vec<F>,
    links: Vec<(&'static str, &'static str)>,
    args: Vec<&'static str>,
    /// options from a config file in the directory instead of the command line
    by_config: bool,
    /// files that the run is to rewrite
    sources: Vec<&'static str>,
}

fn shrinks() -> String {
    "local  a  =  { 'x' , 1 }  --c\n\n\nf  (  a  )\n".into()
}

fn grows() -> String {
    "local a={1,2,3,'x'}f{a,a,a}g{a;a}".into()
}

fn large() -> String {
    format!("{}s  =  '{}'\n{}", shrinks().repeat(50), "y".repeat(300_000), grows())
}

fn scenarios() -> Vec<Scenario> {
    let one = |name: &'static str, text: String, mode: u32| Scenario {
        name,
        files: vec![F("a.lua", text, mode)],
        links: vec![],
        args: vec!["-i", "a.lua"],
        by_config: false,
        sources: vec!["a.lua"],
    };
    let mut v = vec![
        one("shorter", shrinks(), 0o644),
        one("longer", grows(), 0o600),
        one("large", large(), 0o644),
        one("unchanged", "f()\n".into(), 0o644),
        one("one byte", "f()".into(), 0o755),
        Scenario { args: vec!["-i", "-v", "a.lua"], ..one("verbose", shrinks(), 0o640) },
        Scenario { args: vec!["--inplace", "./a.lua"], ..one("relative", shrinks(), 0o444) },
        Scenario { by_config: true, ..one("config", shrinks(), 0o644) },
        Scenario { args: vec!["-i", "."], ..one("directory", shrinks(), 0o644) },
        Scenario { args: vec!["-i", "-r", "."], by_config: true, ..one("directory, config", shrinks(), 0o644) },
        Scenario { links: vec![("l.lua", "a.lua")], args: vec!["-i", "l.lua"], ..one("link", shrinks(), 0o644) },
        Scenario { args: vec!["-i", "a.lua", "a.lua"], ..one("twice", shrinks(), 0o644) },
        Scenario { links: vec![("l.lua", "sub/b.lua")], args: vec!["-i", "l.lua"], files: vec![F("sub/b.lua", grows(), 0o644)], sources: vec!["sub/b.lua"], ..one("link elsewhere", String::new(), 0) },
    ];
    let two = |name: &'static str, args: Vec<&'static str>| Scenario {
        name,
        files: vec![F("a.lua", shrinks(), 0o644), F("b.lua", grows(), 0o600), F("sub/c.lua", shrinks(), 0o664), F("other.txt", "x  =  1".into(), 0o644)],
        links: vec![],
        args,
        by_config: false,
        sources: vec!["a.lua", "b.lua"],
    };
    v.push(two("two files", vec!["-i", "a.lua", "b.lua"]));
    v.push(two("two files in a directory", vec!["-i", "."]));
    v.push(Scenario { sources: vec!["a.lua", "b.lua", "sub/c.lua"], ..two("tree", vec!["-i", "-r", "."]) });
    v.push(Scenario { sources: vec!["a.lua", "b.lua", "sub/c.lua"], by_config: true, ..two("tree, config", vec!["-r", "-i", "."]) });
    let mut s = two("with an error", vec!["-i", "a.lua", "b.lua", "err.lua"]);
    s.files.push(F("err.lua", "x = = 1".into(), 0o644));
    v.push(s);
    v
}

/// The same without `-i`: no file may ever change.
fn to_stdout() -> Vec<Scenario> {
    scenarios()
        .into_iter()
        .filter(|s| ["shorter", "two files", "tree, config"].contains(&s.name))
        .map(|mut s| {
            s.args.retain(|a| *a != "-i");
            s.sources.clear();
            s
        })
        .collect()
}

fn build(s: &Scenario, dir: &Path) -> Vec<String> {
    for F(n, t, mode) in &s.files {
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch directory");
        std::fs::write(&p, t).expect("scratch file");
        std::fs::set_permissions(&p, PermissionsExt::from_mode(*mode)).expect("scratch file");
    }
    for (n, t) in &s.links {
        symlink(t, dir.join(n)).expect("scratch link");
    }
    std::fs::write(dir.join("bystander"), "x  =  1").expect("scratch file");
    let mut args: Vec<String> = s.args.iter().map(|s| s.to_string()).collect();
    if s.by_config {
        let text: String = SET.iter().map(|(n, v)| if *v == "true" { format!("{} = {}\n", n, v) } else { format!("{} = '{}'\n", n, v) }).collect();
        std::fs::write(dir.join(".luafmt.lua"), text).expect("scratch file");
    } else {
        args.extend(SET.iter().map(|(n, v)| format!("--{}={}", n, v)));
    }
    args
}

pub struct Call {
    k: usize,
    name: String,
    change: bool,
    transfer: bool,
    std: bool,
    ret: i64,
    what: String,
}

fn read_log(p: &Path) -> Vec<Call> {
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let f: Vec<&str> = l.splitn(5, ' ').collect();
            Some(Call {
                k: f.first()?.parse().ok()?,
                name: f.get(1)?.to_string(),
                change: f.get(2)?.contains('c'),
                transfer: f.get(2)?.contains('t'),
                std: f.get(2)?.contains('o'),
                ret: f.get(3)?.parse().unwrap_or(0),
                what: f.get(4).unwrap_or(&"").to_string(),
            })
        })
        .collect()
}

struct Run {
    o: cli::CliOut,
    calls: Vec<Call>,
    dir: PathBuf,
    before: BTreeMap<PathBuf, (String, u32)>,
    after: BTreeMap<PathBuf, (String, u32)>,
    killed: bool,
}

fn run(s: &Scenario, plan: &str) -> Run {
    let dir = cli::fresh("c16");
    let args = build(s, &dir);
    let before = snapshot(&dir);
    let log = cli::scratch().join("c16.log");
    let _ = std::fs::remove_file(&log);
    let tool = cli::binary().replace("release/luafmt", "faultrun");
    let mut a: Vec<String> = vec![plan.into(), log.display().to_string(), cli::binary()];
    a.extend(args);
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let o = cli::run_bin(&tool, &a, b"", &dir, &[]);
    if (95..100).contains(&o.code) {
        eprintln!("faultrun cannot trace the command (code {})", o.code);
        std::process::exit(3);
    }
    let after = snapshot(&dir);
    Run { killed: o.code == 137, o, calls: read_log(&log), dir, before, after }
}

/// The formatted content of a file: the whole pipeline of a run that nothing disturbs.
fn wanted(s: &Scenario, f: &str) -> Option<String> {
    let text = &s.files.iter().find(|F(n, ..)| *n == f)?.1;
    lib(text, &cfg(), None)
}

/// The one fault hits something that all files share, or what decides which files there are.
fn shared(s: &Scenario, c: &Call) -> bool {
    c.std || s.by_config || s.args.iter().any(|a| *a == ".") || c.name == "getcwd" || !c.what.contains(".lua")
}

struct Check<'a> {
    e: &'a Arc<Engine>,
    s: &'a Scenario,
    isolation: bool,
}

impl Check<'_> {
    fn judge(&self, plan: &str, faults: &[&Call], kills: bool, r: &Run, l: &mut Local) {
        let s = self.s;
        l.add("evaluations", 1);
        l.seen(&format!("{} {} {:?}", s.name, plan, s.args));
        let fail = |d: String| {
            let hit: Vec<String> = faults.iter().map(|c| format!("{}: {} {}", c.k, c.name, c.what)).collect();
            self.e.violation(
                case(&[("scenario", s.name.into()), ("arguments", format!("{:?}", s.args)), ("faults", plan.into())]),
                &format!("{}: luafmt {:?} with the fault {} at {:?}: {}\nexit code {}\nstdout: {:.400?}\nstderr: {:.400?}", s.name, s.args, plan, hit, d, r.o.code, r.o.out, r.o.err),
            )
        };
        let mut old = vec![];
        for (p, (text, mode)) in &r.before {
            let n = p.strip_prefix(&r.dir).unwrap().display().to_string();
            let (now, now_mode) = match r.after.get(p) {
                Some(x) => x,
                None => return fail(format!("{} is gone", n)),
            };
            let new = if s.sources.contains(&n.as_str()) { wanted(s, &n) } else { None };
            if now != text && Some(now) != new.as_ref() {
                return fail(format!("{} has neither its old nor its formatted content: {} bytes, {:.200?}", n, now.len(), now));
            }
            if now_mode != mode && !faults.iter().any(|c| c.name.contains("chmod")) {
                return fail(format!("the permissions of {} changed from {:o} to {:o}", n, mode, now_mode));
            }
            if new.is_some() && new.as_ref() != Some(now) {
                old.push(n);
            }
        }
        if kills {
            if !r.killed {
                fail("the command was to be killed there, and was not".into());
            }
            return;
        }
        if faults.iter().any(|c| c.std) {
            return;
        }
        if cli::crashed(&r.o) {
            return fail("the command crashed".into());
        }
        let selecting = s.args.iter().any(|a| *a == ".") && faults.iter().any(|c| c.name.contains("stat") || c.name.contains("access") || c.name.contains("getdents"));
        if !old.is_empty() && !selecting && r.o.err.is_empty() {
            return fail(format!("{:?} kept the old content, and nothing is reported", old));
        }
        if faults.is_empty() && (!old.is_empty() || !s.name.contains("error") && !r.o.err.is_empty()) {
            return fail(format!("without any fault, {:?} kept the old content", old));
        }
        if self.isolation && faults.len() == 1 && !plan.contains(['p', 'w']) && !shared(s, faults[0]) {
            if old.len() > 1 {
                return fail(format!("one failing call kept {:?} from being formatted", old));
            }
            if let Some(f) = old.first() {
                if !r.o.err.contains(f.as_str()) {
                    return fail(format!("the report does not name {}", f));
                }
            }
        }
    }
}

/// Closing a directory does not fail (the standard library takes that for granted).
fn may_fail(c: &Call) -> bool {
    c.name != "close" || c.what.ends_with(".lua") || c.what.contains("tmp-")
}

/// What can happen at a call: (plan entry, the process dies).
fn actions(c: &Call, th: bool) -> Vec<(String, bool)> {
    let mut v = vec![];
    for e in [EIO, EACCES, ENOSPC, EINTR] {
        // close and stat are never interrupted; an interrupted call may be made again
        if !may_fail(c) {
            continue;
        }
        if e != EINTR || ["read", "write", "open", "openat", "fsync"].contains(&c.name.as_str()) {
            v.push((format!("{}:e{}", c.k, e), false));
        }
    }
    if c.name != "close" {
        v.push((format!("{}:p{}", c.k, EIO), false));
    }
    v.push((format!("{}:b", c.k), true));
    v.push((format!("{}:a", c.k), true));
    if c.change {
        for e in [EROFS, ENOSPC] {
            v.push((format!("{}:w{}", c.k, e), false));
        }
    }
    if c.transfer && c.ret > 1 {
        let n = c.ret;
        let mut cuts = vec![1, n / 2, n - 1];
        if th {
            cuts.extend([2, n / 3, n / 4 * 3, 4096.min(n - 1)]);
        }
        cuts.retain(|x| *x > 0);
        cuts.sort();
        cuts.dedup();
        for x in cuts {
            v.push((format!("{}:s{}", c.k, x), false));
            v.push((format!("{}:t{}", c.k, x), true));
        }
    }
    v
}

/// Two things that happen in one run.
fn pair_actions(c: &Call) -> Vec<(String, bool)> {
    let mut v = vec![(format!("{}:b", c.k), true), (format!("{}:a", c.k), true)];
    if may_fail(c) {
        v.push((format!("{}:e{}", c.k, EIO), false));
    }
    if c.transfer && c.ret > 1 {
        v.push((format!("{}:s{}", c.k, c.ret / 2), false));
        v.push((format!("{}:t{}", c.k, c.ret / 2), true));
    }
    v
}

pub fn explore(e: &Arc<Engine>, all: Vec<Scenario>, isolation: bool, pairs: bool) {
    let th = e.thorough();
    // the calls of every undisturbed run
    let base: Mutex<Vec<Option<Vec<Call>>>> = Mutex::new(all.iter().map(|_| None).collect());
    e.par(all.len(), |i, l| {
        let r = run(&all[i], "-");
        Check { e, s: &all[i], isolation }.judge("-", &[], false, &r, l);
        l.add("file_system_calls_of_undisturbed_runs", r.calls.len() as u64);
        base.lock().unwrap()[i] = Some(r.calls);
    });
    let base: Vec<Vec<Call>> = base.into_inner().unwrap().into_iter().map(|x| x.unwrap_or_default()).collect();
    let mut jobs: Vec<(usize, String, usize, bool)> = vec![];
    for (i, calls) in base.iter().enumerate() {
        for c in calls {
            for (p, k) in actions(c, th) {
                jobs.push((i, p, c.k, k));
            }
        }
    }
    e.par(jobs.len(), |j, l| {
        let (i, plan, k, kills) = &jobs[j];
        let r = run(&all[*i], plan);
        let c = &base[*i][*k - 1];
        l.add(if *kills { "runs_killed" } else { "runs_with_one_failure" }, 1);
        Check { e, s: &all[*i], isolation }.judge(plan, &[c], *kills, &r, l);
        if l.nsample < 1 && c.change {
            l.nsample += 1;
            e.sample(case(&[("scenario", all[*i].name.into()), ("fault", plan.clone()), ("call", format!("{} {}", c.name, c.what))]));
        }
    });
    if !pairs {
        return;
    }
    // a first failure or short transfer, then a second fault at any later call of the run that the first one leads to
    let firsts: Vec<&(usize, String, usize, bool)> = jobs
        .iter()
        .filter(|(i, p, _, kills)| !kills && (th || ["shorter", "config"].contains(&all[*i].name)) && pair_actions(&base[*i][p.split(':').next().unwrap().parse::<usize>().unwrap() - 1]).iter().any(|(q, _)| q == p))
        .collect();
    e.par(firsts.len(), |j, l| {
        let (i, first, k, _) = firsts[j];
        let r1 = run(&all[*i], first);
        for c in r1.calls.iter().filter(|c| c.k > *k) {
            for (second, kills) in pair_actions(c) {
                let plan = format!("{},{}", first, second);
                let r = run(&all[*i], &plan);
                l.add("runs_with_two_faults", 1);
                Check { e, s: &all[*i], isolation: false }.judge(&plan, &[&base[*i][*k - 1], c], kills, &r, l);
            }
        }
    });
}

/// For C15: one failing call affects one file at most.
pub fn isolation(e: &Arc<Engine>) {
    let mut v: Vec<Scenario> = scenarios().into_iter().filter(|s| ["two files", "with an error"].contains(&s.name)).collect();
    for s in v.iter_mut().filter(|s| s.name == "two files") {
        s.args = vec!["-i", "a.lua", "b.lua", "sub/c.lua"];
        s.sources = vec!["a.lua", "b.lua", "sub/c.lua"];
    }
    explore(e, v, true, false);
}

pub static C16: Prop = Prop {
    id: "C16",
    level: "fault_enumeration",
    rule: "Scenarios: in-place runs (and runs to the standard output) over files that get shorter, longer, large, stay as they are; paths, directories, trees, links, a file given \
           twice, two files, one that cannot be parsed; options from the command line or a config file; various permissions. The run is traced at the boundary of the kernel; \
           for every file-system call of the undisturbed run: it fails with EIO, EACCES, ENOSPC or EINTR, it fails and goes on failing, everything that changes a file fails from \
           there on (full or read-only disk), a transfer is cut short at several lengths, the process is killed before it, after it, or in the middle of the transfer. For some \
           scenarios (thorough: all) also every second fault after every first one. After each run every file that existed is compared with its old and its formatted content, \
           permissions included; a file that kept its old content must be reported. Non-trivial: a run in which the planned fault was delivered; distinct: scenario and plan.",
    assumptions: &[
        "a process is killed between or in the middle of system calls; loss of power (what reaches the disk) is not modelled",
        "reports cannot be expected when the error output itself fails, or for entries of a directory whose type cannot be read",
    ],
    explore: |e, _| {
        explore(e, scenarios(), false, true);
        explore(e, to_stdout(), false, false);
    },
    judge: |_| Verdict::Trivial,
};

use std::sync::Mutex;
