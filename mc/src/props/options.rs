//! C12: an option means the same however it is given, and only itself.

use super::*;
use crate::cfgs::{Kind, OPTIONS, V};
use crate::cli;
use luafmt::config::Config;
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;

/// One setting: a name, the text of its value, and what the reference model makes of it.
#[derive(Clone, Debug)]
struct Setting {
    name: String,
    text: String,
    /// None: invalid, changes nothing
    val: Option<Val>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Val {
    Opt(V),
    Range(usize, usize),
}

/// The model state: what is set.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct St {
    m: BTreeMap<String, Val>,
}

impl St {
    fn apply(&mut self, s: &Setting) {
        if let Some(v) = &s.val {
            self.m.insert(s.name.clone(), v.clone());
        }
    }
    fn of(seq: &[&Setting]) -> St {
        let mut st = St::default();
        for s in seq {
            st.apply(s);
        }
        st
    }
    fn cfg(&self) -> (Cfg, Option<(usize, usize)>) {
        let mut set = vec![];
        let mut range = None;
        for (n, v) in &self.m {
            match v {
                Val::Opt(v) => set.push((OPTIONS.iter().find(|o| o.0 == n).unwrap().0, v.clone())),
                Val::Range(a, b) => range = Some((*a, *b)),
            }
        }
        (Cfg::of(format!("{:?}", self.m), set), range)
    }
    fn built(&self) -> Config {
        let (c, r) = self.cfg();
        c.config(r)
    }
}

/// What a real configuration holds, in the model's terms.
fn observe(c: &Config) -> St {
    let mut m = BTreeMap::new();
    for (n, _) in OPTIONS {
        if let Some(v) = cfgs::get(&c.fmt, n) {
            m.insert(n.to_string(), Val::Opt(v));
        }
    }
    if let Some((a, b)) = c.line_range {
        m.insert("line_range".into(), Val::Range(a, b));
    }
    St { m }
}

/// The alphabet. `few`: one or two valid values and one invalid value for each option.
fn settings(few: bool) -> Vec<Setting> {
    let mut out = vec![];
    let mut add = |n: &str, t: &str, v: Option<Val>| out.push(Setting { name: n.to_string(), text: t.to_string(), val: v });
    for (n, k) in OPTIONS {
        match k {
            Kind::Bool => {
                add(n, "true", Some(Val::Opt(V::B(true))));
                add(n, "false", Some(Val::Opt(V::B(false))));
                for t in if few { &["yes"][..] } else { &["yes", "True", "1", "", " true", "truefalse"] } {
                    add(n, t, None);
                }
            }
            Kind::Num => {
                for (t, x) in if few { &[("1", 1)][..] } else { &[("1", 1), ("0", 0), ("2", 2), ("110", 110)] } {
                    add(n, t, Some(Val::Opt(V::U(*x))));
                }
                for t in if few { &["1x"][..] } else { &["1x", "-1", "1.5", "", "true", "99999999999999999999"] } {
                    add(n, t, None);
                }
            }
            Kind::Str => {
                let values: &[&str] = match (*n, few) {
                    ("field_separator", true) => &[";"],
                    ("field_separator", false) => &[";", ","],
                    (_, true) => &["  "],
                    (_, false) => &["  ", " ", "", "\t", "= x", "true", "1"],
                };
                for t in values {
                    add(n, t, Some(Val::Opt(V::S(t.to_string()))));
                }
            }
        }
    }
    add("line_range", "2:3", Some(Val::Range(2, 3)));
    if !few {
        add("line_range", "1:1", Some(Val::Range(1, 1)));
        for t in ["1", "1:", ":2", "a:b", "1:2:3", "", "-1:2", "1:99999999999999999999"] {
            add("line_range", t, None);
        }
    } else {
        add("line_range", "2", None);
    }
    for n in if few { &["max_widt"][..] } else { &["max_widt", "Max_width", "MAX_WIDTH", "fmt", "line", "x"] } {
        add(n, "1", None);
    }
    out
}

/// Values that stay in the domain of formatting (blanks for hints).
fn formats(s: &Setting) -> bool {
    match (&s.val, s.name.as_str()) {
        (Some(Val::Opt(V::S(_))), "field_separator") => true,
        (Some(Val::Opt(V::S(t))), _) => t.chars().all(|c| c == ' ' || c == '\t'),
        _ => true,
    }
}

/// How a setting can be written in a config file.
fn spellings(s: &Setting) -> Vec<String> {
    let mut v = vec![];
    let digits = |t: &str| !t.is_empty() && t.chars().all(|c| c.is_ascii_digit());
    if s.text == "true" || s.text == "false" || digits(&s.text) || s.text == "1.5" {
        v.push(format!("{} = {}", s.name, s.text));
    }
    v.push(format!("{} = \"{}\"", s.name, s.text));
    v.push(format!("{}='{}'", s.name, s.text));
    if s.val.is_none() && s.text == "1x" {
        // not a literal
        for t in ["-1", "{}", "nil", "[[1]]", "x", "1 + 1", "(1)"] {
            v.push(format!("{} = {}", s.name, t));
        }
    }
    v
}

/// A text in which every option can make a difference.
const PROBE: &str = "#!/usr/bin/lua\n--first\n--[[second]]\nlocal a , b=1 , 'x'--t\n\n\nlocal t={1 , 2;x=3,['y']={},}\n\
local u = {  a, bb, {c} } local long = first_value_of_all .. second_value_of_all .. third_value_of_all\n\
if a  then f ( a ,b )end if b then c() else d() end\nfunction g( ... ) return   a.b.c:d(1, 2):e{3} end\n\
x = function() return 1 end y = f(function() return 2 end, { a = 1, b = 2 })\n\
for i=1,2 do print(i)end while a do b() end repeat c() until d do e() end --[[m]] z = 1--[[n]]\n\
return a+b, {\n1}, first_value_of_all, second_value_of_all, third_value_of_all, fourth_value_of_all, fifth_value_of_all -- end";

struct Ctx {
    e: Arc<Engine>,
    states: Mutex<HashSet<u64>>,
}

impl Ctx {
    fn state(&self, s: &St) {
        self.states.lock().unwrap().insert(hash(&format!("{:?}", s)));
    }
    fn fail(&self, how: &str, seq: &[&Setting], detail: &str) {
        let j = J::O(vec![
            ("channel".into(), J::s(how)),
            ("settings".into(), J::A(seq.iter().map(|s| J::s(&format!("{}={}", s.name, s.text))).collect())),
        ]);
        self.e.violation(j, &format!("{}: {}", how, detail));
    }
}

/// Programmatic setting of a sequence.
fn replay_api(cx: &Ctx, seq: &[&Setting], l: &mut Local) {
    let want = St::of(seq);
    let got = guarded(|| {
        let mut c = Config::default();
        for s in seq {
            c.set(&s.name, &s.text);
        }
        observe(&c)
    });
    l.add("traces_validated_against_impl", 1);
    l.add("transitions", seq.len() as u64);
    match got {
        Ok(g) if g == want => {}
        Ok(g) => cx.fail("programmatic", seq, &format!("gives {:?}, expected {:?}", g.m, want.m)),
        Err(m) => cx.fail("programmatic", seq, &format!("panicked: {}", m)),
    }
}

/// Reading a config file.
fn replay_file(cx: &Ctx, seq: &[&Setting], text: &str, l: &mut Local) {
    let want = St::of(seq);
    let path = cli::scratch().join("options.lua");
    std::fs::write(&path, text).expect("scratch file");
    l.add("traces_validated_against_impl", 1);
    l.add("transitions", seq.len() as u64);
    match guarded(|| Config::default().reload_format_from_file(&path).map(|c| observe(&c))) {
        Ok(Ok(g)) if g == want => {}
        Ok(Ok(g)) => cx.fail("config file", seq, &format!("{:?} gives {:?}, expected {:?}", text, g.m, want.m)),
        Ok(Err(m)) => cx.fail("config file", seq, &format!("{:?} is refused: {}", text, m)),
        Err(m) => cx.fail("config file", seq, &format!("{:?} makes it panic: {}", text, m)),
    }
}

/// The command: the formatted text must be the library's for the model's state; what is wrong is reported.
fn replay_command(cx: &Ctx, seq: &[&Setting], file: Option<&str>, l: &mut Local) {
    let want = St::of(seq);
    let (cfg, range) = want.cfg();
    let cfg = Arc::new(cfg);
    let how = if file.is_some() { "command with a config file" } else { "command line" };
    let dir = cli::scratch();
    let expected = match format(PROBE, &cfg, range) {
        Out::Ok(o) => o,
        x => return cx.fail(how, seq, &format!("the probe text is not formatted: {:?}", x)),
    };
    l.add("traces_validated_against_impl", 1);
    l.add("transitions", seq.len() as u64);
    l.add("command_runs", 1);
    let args: Vec<String>;
    let mut stdin = PROBE.as_bytes();
    match file {
        None => args = std::iter::once("-v".to_string()).chain(seq.iter().map(|s| format!("--{}={}", s.name, s.text))).collect(),
        Some(text) => {
            std::fs::write(dir.join(".luafmt.lua"), text).expect("scratch file");
            std::fs::write(dir.join("probe.lua"), PROBE).expect("scratch file");
            args = vec!["-v".into(), "probe.lua".into()];
            stdin = b"";
        }
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let o = cli::run(&a, stdin, &dir, &[]);
    if !o.out.ends_with(&expected) {
        return cx.fail(how, seq, &format!("{:?} {:?}: the formatted text is not that of {:?}\noutput: {:?}\nexpected: {:?}\nerrors: {:?}", a, file, want.m, o.out, expected, o.err));
    }
    // the options as the command itself shows them
    let shown = format!("{}", want.built());
    // each option that is set is shown, no other one
    let names = |t: &str| {
        let mut v: Vec<String> = t.lines().filter_map(|x| x.trim().split_once(": ").map(|(n, _)| n.to_string())).collect();
        v.sort();
        v
    };
    let set: Vec<String> = want.m.keys().cloned().collect();
    if names(&shown) != set {
        return cx.fail(how, seq, &format!("shown as {:?}, {:?} are set", shown, set));
    }
    if !o.out.contains(&shown) {
        return cx.fail(how, seq, &format!("{:?} {:?}: the options shown are not {:?}\noutput: {:?}", a, file, want.m, o.out));
    }
    for s in seq {
        if s.val.is_none() && !o.err.contains(s.name.as_str()) {
            return cx.fail(how, seq, &format!("{:?} {:?}: {}={:?} is not reported", a, file, s.name, s.text));
        }
    }
    if seq.iter().all(|s| s.val.is_some()) && !o.err.is_empty() {
        cx.fail(how, seq, &format!("{:?} {:?}: errors are reported: {:?}", a, file, o.err));
    }
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// Run `f` with the error output of this process thrown away (the code under test reports invalid settings there).
fn quiet(f: impl FnOnce()) {
    unsafe {
        let saved = dup(2);
        use std::os::fd::AsRawFd;
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
        dup2(null.as_raw_fd(), 2);
        f();
        dup2(saved, 2);
        close(saved);
    }
}

/// Config file layouts of two statements.
const LAYOUTS: &[(&str, &str, &str)] = &[
    ("", "\n", "\n"),
    ("#!/usr/bin/lua\n-- c\n", " -- c\n\n", ""),
    ("--[[ c ]] ", "; ", " --"),
    ("-- max_width = 3\n--[[ remove_comments = true ]]\nlocal max_width = 4\n", "\nlocal function f() field_separator = ';' end\n", "\nreturn 1"),
    ("", " ", ";"),
];

pub static C12: Prop = Prop {
    id: "C12",
    level: "model_checking",
    rule: "the model state is the set of options that are set, a transition is one setting (option name x value, valid and invalid, or an unknown name). All \
           setting sequences of length 1 and 2 over the full alphabet, and of length 3 over a reduced one in the thorough tier, are taken from the empty \
           state. Each is replayed on the real code through Config::set and through a config file in every spelling and several layouts (observed: all \
           option fields), and, for all sequences of length 1 and those of length 2 over the reduced alphabet, through the real command line and a config \
           file read by the real command (observed: formatted text, options shown, error output).",
    assumptions: &["strings of config files stand for their source text (no escapes)", "values without line breaks"],
    explore: |e, _| {
        let cx = Ctx { e: e.clone(), states: Mutex::new(HashSet::new()) };
        let all = settings(false);
        let few = settings(true);
        let th = e.thorough();
        e.add("settings_in_the_alphabet", all.len() as u64);
        for s in all.iter().chain(&few).take(all.len() + few.len()) {
            cx.state(&St::of(&[s]));
        }
        // how many settings can be told apart by the text the commands format
        let mut effective = 0;
        for s in &all {
            if let Some(Val::Opt(v)) = &s.val {
                if formats(s) {
                    let n = OPTIONS.iter().find(|o| o.0 == s.name).unwrap().0;
                    if cfgs::bases().iter().any(|b| {
                        let b = Arc::new(b.with(n, None));
                        format(PROBE, &Arc::new(b.with(n, Some(v.clone()))), None) != format(PROBE, &b, None)
                    }) {
                        effective += 1;
                    }
                }
            }
        }
        e.add("settings_that_change_the_probe_text", effective);
        quiet(|| {
            e.par(all.len(), |i, l| {
                let a = &all[i];
                replay_api(&cx, &[a], l);
                for t in spellings(a) {
                    for (x, _, z) in LAYOUTS {
                        replay_file(&cx, &[a], &format!("{}{}{}", x, t, z), l);
                    }
                }
                let mut mine = HashSet::new();
                for b in &all {
                    mine.insert(hash(&format!("{:?}", St::of(&[a, b]))));
                    replay_api(&cx, &[a, b], l);
                    let (sa, sb) = (spellings(a), spellings(b));
                    for k in 0..sa.len().max(sb.len()) {
                        let (x, y, z) = LAYOUTS[(i + k) % LAYOUTS.len()];
                        replay_file(&cx, &[a, b], &format!("{}{}{}{}{}", x, sa[k % sa.len()], y, sb[k % sb.len()], z), l);
                    }
                    if l.nsample < 1 {
                        l.nsample += 1;
                        e.sample(J::O(vec![("settings".into(), J::A(vec![J::s(&format!("{:?}", a)), J::s(&format!("{:?}", b))])), ("state".into(), J::s(&format!("{:?}", St::of(&[a, b]).m)))]));
                    }
                }
                cx.states.lock().unwrap().extend(mine);
            });
            if th {
                e.par(few.len(), |i, l| {
                    let mut mine = HashSet::new();
                    for b in &few {
                        for c in &few {
                            mine.insert(hash(&format!("{:?}", St::of(&[&few[i], b, c]))));
                            replay_api(&cx, &[&few[i], b, c], l);
                        }
                    }
                    cx.states.lock().unwrap().extend(mine);
                });
            }
        });
        let singles: Vec<&Setting> = all.iter().filter(|s| formats(s)).collect();
        e.par(singles.len(), |i, l| {
            replay_command(&cx, &[singles[i]], None, l);
            for t in spellings(singles[i]) {
                replay_command(&cx, &[singles[i]], Some(&t), l);
            }
        });
        let pairs: Vec<&Setting> = if th { singles.clone() } else { few.iter().filter(|s| formats(s)).collect() };
        e.par(pairs.len(), |i, l| {
            for (k, b) in pairs.iter().enumerate() {
                replay_command(&cx, &[pairs[i], b], None, l);
                let (x, y, z) = LAYOUTS[(i + k) % LAYOUTS.len()];
                if !z.starts_with(" --") && !x.starts_with("--[[") {
                    replay_command(&cx, &[pairs[i], b], Some(&format!("{}{}{}{}{}", x, spellings(pairs[i])[0], y, spellings(b)[0], z)), l);
                }
            }
        });
        e.add("states", cx.states.lock().unwrap().len() as u64);
    },
    judge: |_| Verdict::Trivial,
};
