//! C17: the result depends on the text and the options only.

use super::command::{case, opts, snapshot};
use super::*;
use crate::cfgs::V;
use crate::cli;
use crate::sched;
use luafmt::config::Config;
use luafmt::formatter::{process_buffer_with_config, process_file};

/// One call of the formatter.
#[derive(Clone)]
struct Call {
    text: String,
    cfg: Arc<Cfg>,
    range: Option<(usize, usize)>,
}

impl Call {
    fn name(&self) -> String {
        format!("{:?} {} {:?}", self.text, self.cfg.name, self.range)
    }
    fn config(&self) -> Config {
        self.cfg.config(self.range)
    }
}

/// None: refused.
fn call(text: &String, c: &Config) -> Option<String> {
    match guarded(|| process_buffer_with_config(text, c, false)) {
        Ok(Ok(s)) => Some(s),
        Ok(Err(_)) => None,
        Err(m) => Some(format!("<panic: {}>", m)),
    }
}

/// What the call gives in a process of its own.
fn alone(c: &Call) -> Option<String> {
    let dir = cli::fresh("c17");
    let mut args: Vec<String> = c.cfg.set.iter().map(|(n, v)| format!("--{}={}", n, v.text())).collect();
    if let Some((a, b)) = c.range {
        args.push(format!("--line_range={}:{}", a, b));
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let o = cli::run(&a, c.text.as_bytes(), &dir, &[]);
    if o.err.is_empty() {
        Some(o.out)
    } else {
        None
    }
}

const TEXTS: &[&str] = &[
    "f ( x )",
    "local a = { 'x' , 1 } --c\nf ( a )\n",
    "if a then b = 1 elseif c then else d() end",
    "local function f(a, ...)\n  return function() return a, b end\nend",
    "x = a + b * c ^ d .. e\n\n\ny = { k = { [1] = 2; }, }\n",
    "--[[ m\n n ]] a.b:c { d } [[s]] . e = 1",
    "x = = 1",
    "return 'a\\'b\"', \"c'd\" --",
];

fn alphabet() -> Vec<Call> {
    let cfgs: Vec<Arc<Cfg>> = arcs(vec![cfgs::empty(), cfgs::shipped(), cfgs::dense(), cfgs::collapse(20)]);
    let mut v = vec![];
    for t in TEXTS {
        for c in &cfgs {
            v.push(Call { text: t.to_string(), cfg: c.clone(), range: None });
        }
    }
    let more = [
        ("{", cfgs[1].clone(), None),
        ("", cfgs[1].clone(), None),
        ("x = 'unfinished", cfgs[0].clone(), None),
        ("#!/bin/lua\nx  =  1", cfgs[1].clone(), None),
        (TEXTS[4], cfgs[1].clone(), Some((3, 3))),
        (TEXTS[4], cfgs[1].clone(), Some((1, 1))),
        (TEXTS[1], cfgs[2].clone(), Some((2, 9))),
        (TEXTS[3], cfgs[1].clone(), Some((7, 9))),
        (TEXTS[3], opts(&[("indentation_string", V::S("\t".into())), ("newline_format_function", V::U(1)), ("newline_format_statement", V::U(1))]), None),
        (TEXTS[4], opts(&[("field_separator", V::S(";".into())), ("remove_all_newlines", V::B(true)), ("remove_comments", V::B(true))]), None),
        (TEXTS[7], opts(&[("convert_charstring_to_normalstring", V::B(true))]), None),
        (TEXTS[1], opts(&[("remove_comments", V::B(true)), ("write_trailing_field_separator", V::B(true))]), None),
    ];
    v.extend(more.into_iter().map(|(t, cfg, range)| Call { text: t.to_string(), cfg, range }));
    v
}

fn report(e: &Arc<Engine>, how: &str, history: &[&Call], c: &Call, got: &Option<String>, want: &Option<String>) {
    let h: Vec<String> = history.iter().map(|c| c.name()).collect();
    e.violation(
        case(&[("history", format!("{:?}", h)), ("call", c.name()), ("how", how.into())]),
        &format!("{}: after {:?} the call {} gives {:?}, in a process of its own {:?}", how, h, c.name(), got, want),
    );
}

/// All sequences of calls of one length, each on a thread of its own.
fn sequences(e: &Arc<Engine>, abc: &[Call], want: &[Option<String>], len: usize) {
    let n = abc.len();
    let total = n.pow(len as u32);
    e.par(total, |i, l| {
        let mut seq = vec![];
        let mut x = i;
        for _ in 0..len {
            seq.push(x % n);
            x /= n;
        }
        l.add("states", 1);
        l.add("transitions", len as u64);
        l.add("traces_validated_against_impl", 1);
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || {
                    // calls with the same options share the configuration, as the files of a run of the command do
                    let mut built: Vec<(usize, Config)> = vec![];
                    for (at, k) in seq.iter().enumerate() {
                        let c = &abc[*k];
                        let j = match built.iter().position(|(o, _)| Arc::ptr_eq(&abc[*o].cfg, &c.cfg) && abc[*o].range == c.range) {
                            Some(j) => j,
                            None => {
                                built.push((*k, c.config()));
                                built.len() - 1
                            }
                        };
                        let got = call(&c.text, &built[j].1);
                        if got != want[*k] {
                            let h: Vec<&Call> = seq[..at].iter().map(|k| &abc[*k]).collect();
                            report(e, "sequence of calls", &h, c, &got, &want[*k]);
                        }
                    }
                })
                .expect("thread");
        });
        if l.nsample < 1 {
            l.nsample += 1;
            e.sample(case(&[("calls", format!("{:?}", seq.iter().map(|k| abc[*k].name()).collect::<Vec<_>>()))]));
        }
    });
}

/// All schedules of two calls on two threads with up to two preemptions, at allocations.
fn schedules(e: &Arc<Engine>, abc: &[Call], want: &[Option<String>], which: &[usize], two: bool) {
    let mut jobs: Vec<(usize, usize, u64)> = vec![];
    for a in which {
        let cfg = abc[*a].config();
        call(&abc[*a].text, &cfg);
        let n = sched::allocations(|| call(&abc[*a].text, &cfg));
        for b in which {
            for k in 1..=n {
                jobs.push((*a, *b, k));
            }
        }
    }
    let pools: Mutex<Vec<sched::Pool>> = Mutex::new(vec![]);
    let blocked = std::sync::atomic::AtomicU64::new(0);
    e.par(jobs.len(), |i, l| {
        let (a, b, k) = jobs[i];
        let pool = pools.lock().unwrap().pop().unwrap_or_else(sched::Pool::new);
        let (ca, cb) = (&abc[a], &abc[b]);
        let (fa, fb) = (ca.config(), cb.config());
        let nb = if two { sched::allocations(|| call(&cb.text, &fb)) } else { 0 };
        for kb in 0..=nb {
            if kb == 0 && two {
                continue;
            }
            if blocked.load(std::sync::atomic::Ordering::Relaxed) > 500 {
                // the threads exclude each other: what is left is the order of whole calls
                e.note("two calls wait for each other; not all schedules were run");
                break;
            }
            let r = sched::interleave(|| call(&ca.text, &fa), k, || call(&cb.text, &fb), kb, &pool);
            blocked.fetch_add(r.blocked, std::sync::atomic::Ordering::Relaxed);
            l.add("schedules", 1);
            l.add("context_switches", r.switches);
            l.add("states", 1);
            l.add("transitions", 2);
            l.add("traces_validated_against_impl", 1);
            for (x, y, other) in [(0, a, cb), (1, b, ca)] {
                if r.results[x] != want[y] {
                    report(e, &format!("concurrent call, preemption at allocation {} (and {}) of the first thread (second)", k, kb), &[other], &abc[y], &r.results[x], &want[y]);
                }
            }
        }
        pools.lock().unwrap().push(pool);
    });
}

/// The same text under many names, in many places, through the library and the command.
fn names(e: &Arc<Engine>) {
    let long = "n".repeat(200) + ".lua";
    let names: Vec<&str> = vec![
        "a.lua", "b.lua", "z", "A.LUA", "a.txt", ".hidden.lua", "x y.lua", "é.lua", "a.b.c.lua", "test_a.lua", "a_test.lua", "init.lua", "spec.rockspec", "1.lua",
        "min.lua", "a.min.lua", "luafmt.lua", "0", "conf.lua", "main.lua", "a.luau", "a.lua.bak", "README.md", "Makefile", "a'b.lua", "a\"b.lua", "a\\b.lua", "a;b.lua", "日本.lua", &long,
    ];
    let dirs = ["", "d", "lua", "test", "d/e/f", "spec", ".git", "node_modules"];
    let texts: Vec<&str> = vec![TEXTS[1], TEXTS[3], TEXTS[4], TEXTS[6], "#!/bin/lua\nx  =  1"];
    let options = cfgs::shipped();
    e.par(names.len() * dirs.len(), |i, l| {
        let (n, d) = (names[i / dirs.len()], dirs[i % dirs.len()]);
        for t in &texts {
            let dir = cli::fresh("c17n").join(d);
            std::fs::create_dir_all(&dir).expect("scratch directory");
            let p = dir.join(n);
            std::fs::write(&p, t).expect("scratch file");
            let cfg = options.config(None);
            let want = call(&t.to_string(), &cfg);
            let got = guarded(|| process_file(&p, &cfg, false)).unwrap_or(Ok("<panic>".into())).ok();
            let args: Vec<String> = options.set.iter().map(|(n, v)| format!("--{}={}", n, v.text())).collect();
            let mut a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            let arg = p.display().to_string();
            a.push(&arg);
            let o = cli::run(&a, b"", &dir, &[]);
            let cmd = if o.err.is_empty() { Some(o.out) } else { None };
            l.add("transitions", 2);
            l.add("states", 1);
            l.add("traces_validated_against_impl", 2);
            for (how, got) in [("process_file", &got), ("command", &cmd)] {
                if *got != want {
                    e.violation(
                        case(&[("file", arg.clone()), ("text", t.to_string()), ("how", how.into())]),
                        &format!("{}: the file {:?} with the text {:?} gives {:?}, the text itself {:?}", how, arg, t, got, want),
                    );
                }
            }
        }
    });
}

/// Runs of the command over several files in directories with different config files, in every order.
fn runs(e: &Arc<Engine>, len: usize) {
    let files: Vec<(&str, &str)> = vec![
        ("p/a.lua", TEXTS[1]),
        ("p/b.lua", TEXTS[4]),
        ("q/a.lua", TEXTS[1]),
        ("q/err.lua", TEXTS[6]),
        ("q/r/b.lua", TEXTS[4]),
        ("none/a.lua", TEXTS[1]),
        ("bad/a.lua", TEXTS[4]),
        ("s/a.lua", TEXTS[4]),
    ];
    let confs: Vec<(&str, &str)> = vec![
        ("p/.luafmt.lua", "field_separator = ';'\nwrite_newline_at_eof = true\nremove_single_newlines = true"),
        ("q/.luafmt.lua", "remove_comments = true\nconvert_charstring_to_normalstring = true"),
        ("bad/.luafmt.lua", "x = = 1"),
        ("s/.luafmt.lua", "line_range = '3:3'\nremove_spaces_between_tokens = true\nreplace_zero_spaces_with_hint = true"),
    ];
    let make = |used: &[usize]| {
        let dir = cli::fresh("c17r");
        for d in ["p", "q/r", "none", "bad", "s"] {
            std::fs::create_dir_all(dir.join(d)).expect("scratch directory");
        }
        for (n, t) in &confs {
            std::fs::write(dir.join(n), t).expect("scratch file");
        }
        for k in used {
            std::fs::write(dir.join(files[*k].0), files[*k].1).expect("scratch file");
        }
        dir
    };
    let alone: Vec<String> = (0..files.len())
        .map(|k| {
            let dir = make(&[k]);
            cli::run(&["-i", files[k].0], b"", &dir, &[]);
            std::fs::read_to_string(dir.join(files[k].0)).unwrap_or_default()
        })
        .collect();
    let n = files.len();
    e.par(n.pow(len as u32), |i, l| {
        let mut v = vec![];
        let mut x = i;
        for _ in 0..len {
            v.push(x % n);
            x /= n;
        }
        // names decide the order in which the paths are processed: each is prefixed so that the given order holds
        let dir = make(&v);
        let paths: Vec<String> = v.iter().enumerate().map(|(at, k)| format!("{}{}", "./".repeat(len - at), files[*k].0)).collect();
        let whole = v.len() == 3 && i % 7 == 0;
        let mut a = vec!["-i"];
        if whole {
            a.extend(["-r", "."]);
        } else {
            a.extend(paths.iter().map(|s| s.as_str()));
        }
        let o = cli::run(&a, b"", &dir, &[]);
        l.add("states", 1);
        l.add("transitions", len as u64);
        l.add("traces_validated_against_impl", 1);
        let after = snapshot(&dir);
        for k in &v {
            let now = after.get(&dir.join(files[*k].0)).map(|x| x.0.clone()).unwrap_or_default();
            // formatting twice in a run is the same as once for these texts, except with a line range
            let twice = v.iter().filter(|x| *x == k).count() > 1;
            if now != alone[*k] && !(twice && files[*k].0.starts_with("s/")) {
                e.violation(
                    case(&[("arguments", format!("{:?}", a)), ("file", files[*k].0.into())]),
                    &format!("luafmt {:?}: {} becomes {:?}, alone {:?}\nstderr {:?}", a, files[*k].0, now, alone[*k], o.err),
                );
            }
        }
    });
}

pub static C17: Prop = Prop {
    id: "C17",
    level: "model_checking",
    rule: "a state is a history of calls. (1) all sequences of up to 3 calls (thorough: 4 over a smaller alphabet) over an alphabet of texts, options and line ranges, failing calls \
           included, each sequence on a thread of its own; every result compared with that of a process of its own; long sequences of one call; (2) all schedules of two calls \
           on two threads with one preemption at any heap allocation of the first (for small texts also with a second one at any allocation of the second), under a controlled \
           scheduler; (3) the same text under all of 30 names in 8 directories through the library and the command; (4) all runs of the command over up to 3 files out of 8 in directories \
           with different config files, compared with runs over one file; (5) every program of the space formatted again after another call.",
    assumptions: &["between two heap allocations a thread is not preempted", "the model of the formatter is a function of text and options"],
    explore: |e, _| {
        let th = e.thorough();
        let abc = alphabet();
        // every reference three times: separate processes have separate random states
        let refs: Mutex<Vec<Option<String>>> = Mutex::new(vec![None; abc.len()]);
        e.par(abc.len(), |i, l| {
            let r = alone(&abc[i]);
            for _ in 0..if th { 20 } else { 4 } {
                let again = alone(&abc[i]);
                l.add("transitions", 1);
                if again != r {
                    report(e, "two processes", &[], &abc[i], &again, &r);
                }
            }
            refs.lock().unwrap()[i] = r;
        });
        let want = refs.into_inner().unwrap();
        for len in 1..=3 {
            sequences(e, &abc, &want, len);
        }
        if th {
            let few: Vec<Call> = abc.iter().step_by(3).cloned().collect();
            let w: Vec<Option<String>> = want.iter().step_by(3).cloned().collect();
            sequences(e, &few, &w, 4);
        }
        // one call again and again
        let times = if th { 300_000 } else { 70_000 };
        e.par(8, |i, l| {
            let k = [0, 1, 5, 9, 13, 17, 24, 33][i];
            let c = abc[k].config();
            l.add("states", 1);
            for n in 0..times {
                l.add("transitions", 1);
                let got = call(&abc[k].text, &c);
                if got != want[k] {
                    return report(e, &format!("call number {}", n + 1), &[], &abc[k], &got, &want[k]);
                }
            }
        });
        let which: Vec<usize> = if th { (0..abc.len()).step_by(2).collect() } else { vec![0, 5, 9, 18, 24, 33, 36, 40] };
        schedules(e, &abc, &want, &which, false);
        schedules(e, &abc, &want, if th { &[0, 1, 24, 33] } else { &[0, 24] }, true);
        names(e);
        for len in 2..=3 {
            runs(e, len);
        }
        let space = standard(if th { 2 } else { 1 });
        let cfgs = arcs(vec![cfgs::shipped(), cfgs::dense(), cfgs::collapse(20)]);
        e.par(space.len(), |i, l| {
            space[i].each(&mut |src| {
                for (k, c) in cfgs.iter().enumerate() {
                    let a = format(src, c, None);
                    let other = &abc[(i + k) % abc.len()];
                    call(&other.text, &other.config());
                    let b = format(src, c, None);
                    l.add("states", 1);
                    l.add("transitions", 3);
                    if a != b {
                        report(e, "again", &[other], &Call { text: src.to_string(), cfg: c.clone(), range: None }, &Some(format!("{:?}", b)), &Some(format!("{:?}", a)));
                    }
                }
            });
        });
    },
    judge: |_| Verdict::Trivial,
};

use std::sync::Mutex;
