//! The command: C13 config lookup, C14 file selection, C15 batches.

use super::*;
use crate::cfgs::V;
use crate::cli::{self, CliOut};
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub fn opts(set: &[(&'static str, V)]) -> Arc<Cfg> {
    Arc::new(Cfg::of(format!("{:?}", set), set.to_vec()))
}

pub fn lib(text: &str, cfg: &Arc<Cfg>, range: Option<(usize, usize)>) -> Option<String> {
    match format(text, cfg, range) {
        Out::Ok(o) => Some(o),
        _ => None,
    }
}

pub fn case(parts: &[(&str, String)]) -> J {
    J::O(parts.iter().map(|(k, v)| (k.to_string(), J::s(v))).collect())
}

fn show(o: &CliOut) -> String {
    format!("exit code {}\nstdout: {:?}\nstderr: {:?}", o.code, o.out, o.err)
}

struct Cx {
    e: Arc<Engine>,
    states: Mutex<HashSet<u64>>,
}

impl Cx {
    fn new(e: &Arc<Engine>) -> Cx {
        Cx { e: e.clone(), states: Mutex::new(HashSet::new()) }
    }
    fn state(&self, s: &str) {
        self.states.lock().unwrap().insert(hash(s));
    }
    fn done(&self) {
        self.e.add("states", self.states.lock().unwrap().len() as u64);
    }
}

// ---------------------------------------------------------------------------------------------------------------- C13

pub const TEXT: &str = "local a = { 'x' , 1 } --c\nf ( a )\n";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Conf {
    Nothing,
    Valid,
    ValidLongName,
    Broken,
    Binary,
    Decoys,
    Directory,
    Dangling,
    Link,
    Empty,
    OnlyRange,
    BadValue,
    /// the directory cannot be listed (for an unprivileged user)
    Unlistable,
    /// the file cannot be read (for an unprivileged user)
    Unreadable,
}

const CONFS: &[Conf] = &[
    Conf::Nothing,
    Conf::Valid,
    Conf::Broken,
    Conf::Decoys,
    Conf::Directory,
    Conf::Dangling,
    Conf::Link,
    Conf::Empty,
    Conf::ValidLongName,
    Conf::Binary,
    Conf::OnlyRange,
    Conf::BadValue,
    Conf::Unlistable,
    Conf::Unreadable,
];

/// What the options of each level do.
fn level_opts(level: usize) -> (&'static str, Arc<Cfg>) {
    match level {
        0 => ("field_separator = ';'\nwrite_trailing_field_separator = true", opts(&[("field_separator", V::S(";".into())), ("write_trailing_field_separator", V::B(true))])),
        1 => ("convert_charstring_to_normalstring = true", opts(&[("convert_charstring_to_normalstring", V::B(true))])),
        _ => ("remove_comments = true", opts(&[("remove_comments", V::B(true))])),
    }
}

/// The model: what a config entry means for a file below it.
enum Means {
    /// look further up
    Pass,
    Use(Arc<Cfg>, Option<(usize, usize)>),
    Report,
}

fn means(c: Conf, level: usize) -> Means {
    match c {
        Conf::Nothing | Conf::Decoys | Conf::Directory | Conf::Dangling | Conf::Unlistable => Means::Pass,
        Conf::Valid | Conf::ValidLongName | Conf::Link => Means::Use(level_opts(level).1, None),
        Conf::Broken | Conf::Binary | Conf::Unreadable => Means::Report,
        Conf::Empty | Conf::BadValue => Means::Use(opts(&[]), None),
        Conf::OnlyRange => Means::Use(opts(&[]), Some((1, 1))),
    }
}

fn place(dir: &Path, c: Conf, level: usize, store: &Path) {
    let w = |n: &str, t: &str| std::fs::write(dir.join(n), t).expect("scratch file");
    let text = level_opts(level).0;
    match c {
        Conf::Nothing => {}
        Conf::Valid => w(".luafmt.lua", text),
        Conf::ValidLongName => w(".luafmt-of-mine.x.lua", text),
        Conf::Broken => w(".luafmt.lua", &format!("{}\nx = = 1", text)),
        Conf::Binary => std::fs::write(dir.join(".luafmt.lua"), b"x = '\xff'").expect("scratch file"),
        Conf::Decoys => {
            for n in ["luafmt.lua", "x.luafmt.lua", ".luafmt.txt", ".luafmt", ".luafmt.lua.bak", ".Luafmt.lua", ".luafm.lua", ".luafmt.LUA", ".luafmtlua"] {
                w(n, "remove_all_newlines = true");
            }
        }
        Conf::Directory => {
            std::fs::create_dir(dir.join(".luafmt.lua")).expect("scratch directory");
            w(".luafmt.lua/.luafmt.lua", "remove_all_newlines = true");
        }
        Conf::Dangling => symlink("nowhere", dir.join(".luafmt.lua")).expect("scratch link"),
        Conf::Link => {
            let t = store.join(format!("conf{}", level));
            std::fs::write(&t, text).expect("scratch file");
            symlink(&t, dir.join(".luafmt.lua")).expect("scratch link");
        }
        Conf::Empty => w(".luafmt.lua", "-- nothing\n"),
        Conf::OnlyRange => w(".luafmt.lua", "line_range = '1:1'"),
        Conf::BadValue => w(".luafmt.lua", "max_width = true"),
        // their permissions are set when everything is in place
        Conf::Unlistable => {}
        Conf::Unreadable => w(".luafmt.lua", text),
    }
}

/// Options and range that apply to a file below directories with these entries (outermost first).
fn lookup(chain: &[Conf]) -> Means {
    for (i, c) in chain.iter().enumerate().rev() {
        match means(*c, i) {
            Means::Pass => {}
            m => return m,
        }
    }
    Means::Report
}

fn c13_placement(cx: &Cx, chain: [Conf; 3], l: &mut Local) {
    let root = cli::fresh("c13");
    let store = root.join("store");
    let dirs = [root.join("p"), root.join("p/q"), root.join("p/q/r")];
    std::fs::create_dir(&store).unwrap();
    for (i, d) in dirs.iter().enumerate() {
        std::fs::create_dir(d).unwrap();
        place(d, chain[i], i, &store);
        std::fs::write(d.join("f.lua"), TEXT).unwrap();
    }
    let abs = dirs[2].join("f.lua");
    symlink(&abs, store.join("link.lua")).unwrap();
    symlink(&dirs[2], store.join("dl")).unwrap();
    cx.state(&format!("{:?}", chain));
    let abs = abs.to_str().unwrap().to_string();
    let link = store.join("link.lua").to_str().unwrap().to_string();
    let dl = store.join("dl/f.lua").to_str().unwrap().to_string();
    let modes: [(&Path, &str); 8] = [
        (&root, &abs),
        (&root, "p/q/r/f.lua"),
        (&dirs[1], "r/f.lua"),
        (&dirs[2], "f.lua"),
        (&dirs[2], "./../r/f.lua"),
        (&store, &link),
        (&store, &dl),
        (&store, "../p/q/r/f.lua"),
    ];
    let fail = |how: &str, o: &CliOut, d: String| {
        cx.e.violation(
            case(&[("directories (outermost first)", format!("{:?}", chain)), ("command", how.to_string())]),
            &format!("config files {:?}, {}: {}\n{}", chain, how, d, show(o)),
        )
    };
    let judge = |how: &str, o: &CliOut, want: &Means, range: Option<(usize, usize)>, l: &mut Local| {
        l.add("transitions", 1);
        l.add("traces_validated_against_impl", 1);
        match want {
            Means::Use(c, r) => {
                // a range in the config file replaces the one of the command line
                let x = lib(TEXT, c, r.or(range)).unwrap();
                if o.out != x {
                    fail(how, o, format!("expected {:?}", x));
                }
            }
            _ => {
                if !o.out.is_empty() || o.err.is_empty() {
                    fail(how, o, "expected an error report and no text".into());
                }
            }
        }
    };
    let found = lookup(&chain);
    if chain.iter().any(|c| matches!(c, Conf::Unlistable | Conf::Unreadable)) {
        let mode = |p: &Path, m: u32| std::fs::set_permissions(p, PermissionsExt::from_mode(m)).expect("scratch permissions");
        for (i, d) in dirs.iter().enumerate() {
            match chain[i] {
                Conf::Unlistable => mode(d, 0o711),
                Conf::Unreadable => mode(&d.join(".luafmt.lua"), 0o600),
                _ => {}
            }
        }
        for (cwd, path) in [(&root, &abs[..]), (&root, "p/q/r/f.lua"), (&store, &link)] {
            match cli::run_unprivileged(&[path], cwd) {
                Some(o) => judge(&format!("luafmt {} (unprivileged)", path), &o, &found, None, l),
                None => l.add("no_unprivileged_user", 1),
            }
        }
        return;
    }
    for (cwd, path) in modes {
        let o = cli::run(&[path], b"", cwd, &[]);
        judge(&format!("luafmt {}", path), &o, &found, None, l);
    }
    let o = cli::run(&["--line_range=2:2", "p/q/r/f.lua"], b"", &root, &[]);
    judge("luafmt --line_range=2:2", &o, &found, Some((2, 2)), l);
    // an option on the command line: config files are not used at all
    for extra in [&["--indentation_string=\t"][..], &["--line_range=1:1", "--write_newline_at_eof=true"], &["--remove_spaces_between_tokens=true", "--replace_zero_spaces_with_hint=true", "--line_range=2:2"]] {
        let mut a: Vec<&str> = extra.to_vec();
        a.push("p/q/r/f.lua");
        let c = match extra.len() {
            1 => opts(&[("indentation_string", V::S("\t".into()))]),
            2 => opts(&[("write_newline_at_eof", V::B(true))]),
            _ => opts(&[("remove_spaces_between_tokens", V::B(true)), ("replace_zero_spaces_with_hint", V::B(true))]),
        };
        let r = match extra.len() {
            1 => None,
            2 => Some((1, 1)),
            _ => Some((2, 2)),
        };
        let o = cli::run(&a, b"", &root, &[]);
        judge(&format!("luafmt {:?}", a), &o, &Means::Use(c, None), r, l);
    }
    // the files of all three directories in one run
    let o = cli::run(&["-i", "-r", "p"], b"", &root, &[]);
    for i in 0..3 {
        l.add("transitions", 1);
        let got = std::fs::read_to_string(dirs[i].join("f.lua")).unwrap_or_default();
        let want = match lookup(&chain[..=i]) {
            Means::Use(c, r) => lib(TEXT, &c, r).unwrap(),
            _ => TEXT.to_string(),
        };
        if got != want {
            fail("luafmt -i -r p", &o, format!("the file at depth {} holds {:?}, expected {:?}", i, got, want));
        }
    }
    l.add("traces_validated_against_impl", 1);
}

pub static C13: Prop = Prop {
    id: "C13",
    level: "model_checking",
    rule: "a model state is what a chain of three directories holds: each one of 14 entries (nothing, valid, valid under a longer name, syntax error, not \
           text, misleading names, a directory, a dangling link, a link to a valid file, without options, only a line range, invalid value, a directory that cannot be listed, an unreadable file; the last two for an unprivileged user), all 2744 \
           combinations. Transitions: the real command is run on the file of the innermost directory through 8 path spellings (absolute, relative, from other \
           directories, through links), with a line range, with format options, and on all three directories at once; chains of up to 14 directories with config files at every pair of levels; the nearest-config rule predicts the text.",
    assumptions: &["no config file above the scratch directory", "at most one config file per directory"],
    explore: |e, _| {
        let cx = Cx::new(e);
        for d in ["/", "/tmp"] {
            if let Ok(r) = std::fs::read_dir(d) {
                for x in r.flatten() {
                    if x.file_name().to_string_lossy().starts_with(".luafmt") {
                        eprintln!("{} disturbs this check", x.path().display());
                        std::process::exit(2);
                    }
                }
            }
        }
        let n = CONFS.len();
        e.par(n * n * n, |i, l| {
            let c = [CONFS[i / (n * n)], CONFS[i / n % n], CONFS[i % n]];
            c13_placement(&cx, c, l);
            if l.nsample < 1 {
                l.nsample += 1;
                e.sample(case(&[("directories (outermost first)", format!("{:?}", c))]));
            }
        });
        let deep: Vec<(usize, usize, usize)> = (1..=14).flat_map(|d| (0..=d).flat_map(move |a| (a..=d).map(move |b| (d, a, b)))).collect();
        e.par(deep.len(), |i, l| c13_depth(&cx, deep[i], l));
        cx.done();
    },
    judge: |_| Verdict::Trivial,
};

/// A chain of `d` directories, with config files at the levels `a` and `b` (none if that is `d`).
fn c13_depth(cx: &Cx, (d, a, b): (usize, usize, usize), l: &mut Local) {
    let root = cli::fresh("c13d");
    let mut dir = root.clone();
    for i in 0..d {
        dir = dir.join(if i % 3 == 2 { ".h".to_string() } else { format!("d{}.lua", i) });
        std::fs::create_dir(&dir).expect("scratch directory");
        if i == a {
            std::fs::write(dir.join(".luafmt.lua"), level_opts(0).0).expect("scratch file");
        }
        if i == b {
            std::fs::write(dir.join(".luafmt.lua"), level_opts(1).0).expect("scratch file");
        }
    }
    let f = dir.join("f.lua");
    std::fs::write(&f, TEXT).expect("scratch file");
    cx.state(&format!("{} {} {}", d, a, b));
    let want = if b < d {
        lib(TEXT, &level_opts(1).1, None)
    } else if a < d {
        lib(TEXT, &level_opts(0).1, None)
    } else {
        None
    };
    for (cwd, p) in [(&root, f.clone()), (&root, f.strip_prefix(&root).unwrap().to_path_buf()), (&dir, PathBuf::from("f.lua"))] {
        let o = cli::run_os(&[p.clone().into()], cwd);
        l.add("transitions", 1);
        l.add("traces_validated_against_impl", 1);
        if o.out != want.clone().unwrap_or_default() || want.is_some() != o.err.is_empty() || cli::crashed(&o) {
            cx.e.violation(
                case(&[("depth of the file", d.to_string()), ("config files at depths", format!("{} {}", a, b)), ("command", format!("luafmt {}", p.display()))]),
                &format!("a file below {} directories, config files in number {} and {}: expected {:?}\n{}", d, a + 1, b + 1, want, show(&o)),
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------- C14

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    File,
    /// a directory with g.lua and h.txt
    Dir,
    /// a directory with a directory with k.lua and .luafmt.lua
    Deep,
    EmptyDir,
    LinkFile,
    LinkDir,
    LinkSelf,
    LinkUp,
    Dangling,
    Fifo,
}

type Entry = (&'static [u8], Kind);

fn alphabet(few: bool) -> Vec<Entry> {
    use Kind::*;
    let mut v: Vec<Entry> = vec![];
    let names: &[&[u8]] = if few {
        &[b"a.lua", b"b.txt", b".luafmt.lua", b".luafmt-a.lua", b".h.lua"]
    } else {
        &[
            b"a.lua",
            b"b.txt",
            b".luafmt.lua",
            b".luafmt-a.lua",
            b".h.lua",
            b"luafmt.lua",
            b"c.LUA",
            b".lua",
            b"d.lua.bak",
            b"e",
            b"lua",
            b"\xc3\xa9.lua",
            b"\xff.lua",
            b"\xff",
            b"s p.lua",
            b"-i.lua",
            b"x.y.lua",
            b".luafmt",
            b"x.luax",
            b"xlua",
            b"a.luafmt.lua",
        ]
    };
    v.extend(names.iter().map(|n| (*n, File)));
    let kinds: &[Kind] = if few { &[Dir, Deep, LinkFile, LinkDir, LinkUp] } else { &[Dir, Deep, EmptyDir, LinkFile, LinkDir, LinkSelf, LinkUp, Dangling, Fifo] };
    let names: &[&[u8]] = if few { &[b"n.lua", b"sub"] } else { &[b"n.lua", b"sub", b".luafmt-n.lua", b".hid", b"lua"] };
    for n in names {
        v.extend(kinds.iter().map(|k| (*n, *k)));
    }
    v
}

/// The model's file system: directories hold names with what they lead to.
#[derive(Clone, Copy, PartialEq, Debug)]
enum To {
    File(usize),
    Dir(usize),
    Nothing,
}

struct Tree {
    dirs: Vec<Vec<(Vec<u8>, To)>>,
}

fn selectable(name: &[u8]) -> bool {
    !name.starts_with(b".luafmt") && name.len() > 4 && name.ends_with(b".lua")
}

impl Tree {
    fn walk(&self, d: usize, recursive: bool, path: &mut Vec<usize>, out: &mut Vec<usize>) {
        if path.contains(&d) {
            return;
        }
        path.push(d);
        for (n, to) in &self.dirs[d] {
            match to {
                To::File(f) if selectable(n) => out.push(*f),
                To::Dir(x) if recursive => self.walk(*x, true, path, out),
                _ => {}
            }
        }
        path.pop();
    }
    fn select(&self, to: To, recursive: bool) -> Option<Vec<usize>> {
        let mut out = vec![];
        match to {
            To::File(f) => out.push(f),
            To::Dir(d) => self.walk(d, recursive, &mut vec![], &mut out),
            To::Nothing => return None,
        }
        Some(out)
    }
}

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}

/// Builds the tree in a scratch directory and in the model. Directory 0 is the root, 1 is `top`, which holds the entries.
fn build(root: &Path, entries: &[Entry]) -> Tree {
    let mut t = Tree { dirs: vec![vec![], vec![], vec![]] };
    let mut nf = 0;
    let mut file = |p: &Path| -> To {
        std::fs::write(p, format!("f{} ( )", nf)).expect("scratch file");
        nf += 1;
        To::File(nf - 1)
    };
    let dir = |p: &Path| std::fs::create_dir(p).expect("scratch directory");
    let top = root.join("top");
    let ext = root.join("ext");
    dir(&top);
    dir(&ext);
    let out = file(&ext.join("out.txt"));
    let o = file(&ext.join("o.lua"));
    t.dirs[2] = vec![(b"out.txt".to_vec(), out), (b"o.lua".to_vec(), o)];
    t.dirs[0] = vec![(b"top".to_vec(), To::Dir(1)), (b"ext".to_vec(), To::Dir(2))];
    for (name, kind) in entries {
        let p = top.join(OsString::from_vec(name.to_vec()));
        let to = match kind {
            Kind::File => file(&p),
            Kind::Dir => {
                dir(&p);
                let e = vec![(b"g.lua".to_vec(), file(&p.join("g.lua"))), (b"h.txt".to_vec(), file(&p.join("h.txt")))];
                t.dirs.push(e);
                To::Dir(t.dirs.len() - 1)
            }
            Kind::Deep => {
                dir(&p);
                dir(&p.join("in.ner"));
                let e = vec![(b"k.lua".to_vec(), file(&p.join("in.ner/k.lua"))), (b".luafmt.lua".to_vec(), file(&p.join("in.ner/.luafmt.lua")))];
                t.dirs.push(e);
                let inner = t.dirs.len() - 1;
                t.dirs.push(vec![(b"in.ner".to_vec(), To::Dir(inner))]);
                To::Dir(t.dirs.len() - 1)
            }
            Kind::EmptyDir => {
                dir(&p);
                t.dirs.push(vec![]);
                To::Dir(t.dirs.len() - 1)
            }
            Kind::LinkFile => {
                symlink("../ext/out.txt", &p).expect("scratch link");
                out
            }
            Kind::LinkDir => {
                symlink("../ext", &p).expect("scratch link");
                To::Dir(2)
            }
            Kind::LinkSelf => {
                symlink(".", &p).expect("scratch link");
                To::Dir(1)
            }
            Kind::LinkUp => {
                symlink("..", &p).expect("scratch link");
                To::Dir(0)
            }
            Kind::Dangling => {
                symlink("nowhere", &p).expect("scratch link");
                To::Nothing
            }
            Kind::Fifo => {
                let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                unsafe { mkfifo(c.as_ptr(), 0o600) };
                To::Nothing
            }
        };
        t.dirs[1].push((name.to_vec(), to));
    }
    t
}

fn ids(out: &str) -> Option<Vec<usize>> {
    let mut v = vec![];
    for l in out.lines() {
        v.push(l.strip_prefix('f')?.strip_suffix(" ( )")?.parse().ok()?);
    }
    v.sort();
    Some(v)
}

fn c14_tree(cx: &Cx, entries: &[Entry], direct: bool, l: &mut Local) {
    let root = cli::fresh("c14");
    let tree = build(&root, entries);
    let names: Vec<String> = entries.iter().map(|(n, k)| format!("{} ({:?})", String::from_utf8_lossy(n), k)).collect();
    cx.state(&format!("{:?}", names));
    if l.nsample < 1 {
        l.nsample += 1;
        cx.e.sample(case(&[("entries", format!("{:?}", names))]));
    }
    let top = root.join("top");
    let run = |args: Vec<OsString>, cwd: &Path, want: Vec<usize>, errors: usize, l: &mut Local| {
        l.add("transitions", 1);
        l.add("traces_validated_against_impl", 1);
        let o = cli::run_os(&args, cwd);
        let mut w = want;
        w.sort();
        if ids(&o.out) != Some(w.clone()) {
            cx.e.violation(
                case(&[("entries", format!("{:?}", names)), ("arguments", format!("{:?}", args))]),
                &format!("directory with {:?}, luafmt {:?}: expected the files {:?}\n{}", names, args, w, show(&o)),
            );
        } else if (errors > 0) == o.err.is_empty() {
            cx.e.violation(
                case(&[("entries", format!("{:?}", names)), ("arguments", format!("{:?}", args))]),
                &format!("directory with {:?}, luafmt {:?}: expected {} error reports\n{}", names, args, errors, show(&o)),
            );
        }
    };
    let base: Vec<OsString> = vec!["--write_newline_at_eof=true".into()];
    for rec in [None, Some("-r"), Some("--recursive")] {
        let want = tree.select(To::Dir(1), rec.is_some()).unwrap();
        let forms: [(&Path, OsString); 4] = [(&root, "top".into()), (&root, "./top/".into()), (&top, ".".into()), (Path::new("/"), top.clone().into())];
        let n = if direct { 4 } else { 1 };
        for (cwd, p) in forms.iter().take(if rec == Some("--recursive") { 1 } else { n }) {
            let mut a = base.clone();
            a.push(p.clone());
            a.extend(rec.map(|r| r.into()));
            run(a, cwd, want.clone(), 0, l);
        }
        if !direct || rec == Some("--recursive") {
            continue;
        }
        // the entries themselves, alone and together with the directory
        for (i, (name, _)) in entries.iter().enumerate() {
            let p: OsString = root.join("top").join(OsString::from_vec(name.to_vec())).into();
            let sel = tree.select(tree.dirs[1][i].1, rec.is_some());
            let mut a = base.clone();
            a.extend(rec.map(|r| r.into()));
            a.push(p.clone());
            run(a.clone(), &root, sel.clone().unwrap_or_default(), sel.is_none() as usize, l);
            a.push("top".into());
            a.push("missing.lua".into());
            let mut both = want.clone();
            both.extend(sel.clone().unwrap_or_default());
            run(a, &root, both, 1, l);
        }
    }
}

fn valid(es: &[Entry]) -> bool {
    (0..es.len()).all(|i| (0..i).all(|j| es[i].0 != es[j].0))
}

pub static C14: Prop = Prop {
    id: "C14",
    level: "model_checking",
    rule: "a model state is a directory with up to 3 entries: 21 file names around the selection rule (hidden, config-like, other case, not UTF-8, ...) and four \
           names with 9 kinds of entry (directory, nested, empty, link to a file, a directory, itself, the parent, nowhere, fifo). All sets of up to 2 entries \
           (thorough: 3) over the full alphabet and of 3 over a reduced one. Transitions: the real command on the directory, recursive or not, through \
           several path spellings, on directories of 32 names, of up to 40 files and up to 40 levels, on each entry, and on entry, directory and a missing path together; a walk over the model predicts which files are \
           formatted how often.",
    assumptions: &["links to directories are followed, except back to a directory being walked"],
    explore: |e, _| {
        let cx = Cx::new(e);
        let full = alphabet(false);
        let few = alphabet(true);
        let th = e.thorough();
        let n = full.len();
        e.par(1 + n, |i, l| c14_tree(&cx, if i == 0 { &[] } else { &full[i - 1..i] }, true, l));
        e.par(n * n, |i, l| {
            let es = [full[i / n], full[i % n]];
            if i / n < i % n && valid(&es) {
                c14_tree(&cx, &es, true, l)
            }
        });
        let a = if th { &full } else { &few };
        let n = a.len();
        e.par(n * n * n, |i, l| {
            let (x, y, z) = (i / (n * n), i / n % n, i % n);
            let es = [a[x], a[y], a[z]];
            if x < y && y < z && valid(&es) {
                c14_tree(&cx, &es, false, l)
            }
        });
        // directories with usual and unusual names, alone
        let names: &[&[u8]] = &[
            b"a", b"src", b"target", b".git", b"node_modules", b"build", b"test", b"tests", b"luafmt", b".luafmt", b"x.luafmt.lua", b"LUA", b"vendor", b"bin", b"~", b"a b", b"-r", b"\xc3\xa9", b"\xff",
            b"...", b"a.b", b".lua", b"init.lua", b"tmp", b"lib", b"_", b"1", b"CVS", b"a~", b"#a#", b"third_party", b".config",
        ];
        e.par(names.len() * 3, |i, l| c14_tree(&cx, &[(names[i / 3], [Kind::Dir, Kind::Deep, Kind::File][i % 3])], true, l));
        e.par(40, |i, l| c14_sizes(&cx, i + 1, l));
        cx.done();
    },
    judge: |_| Verdict::Trivial,
};

/// Many files in one directory, and a file in each of many nested directories.
fn c14_sizes(cx: &Cx, n: usize, l: &mut Local) {
    let root = cli::fresh("c14s");
    let mut dir = root.join("deep");
    std::fs::create_dir(&dir).expect("scratch directory");
    std::fs::create_dir(root.join("many")).expect("scratch directory");
    for i in 0..n {
        std::fs::write(root.join(format!("many/{}.lua", i)), format!("f{} ( )", i)).expect("scratch file");
        std::fs::write(dir.join("x.lua"), format!("f{} ( )", i)).expect("scratch file");
        dir = dir.join("d");
        std::fs::create_dir(&dir).expect("scratch directory");
    }
    cx.state(&format!("sizes {}", n));
    let all: Vec<usize> = (0..n).collect();
    for (args, want) in [(vec!["many"], all.clone()), (vec!["-r", "many"], all.clone()), (vec!["-r", "deep"], all.clone()), (vec!["deep"], vec![0]), (vec!["-r", "."], { let mut v = [all.clone(), all].concat(); v.sort(); v })] {
        let mut a = vec!["--write_newline_at_eof=true"];
        a.extend(&args);
        let o = cli::run(&a, b"", &root, &[]);
        l.add("transitions", 1);
        l.add("traces_validated_against_impl", 1);
        if ids(&o.out) != Some(want.clone()) || !o.err.is_empty() {
            cx.e.violation(
                case(&[("files in `many`, and below each other in `deep`", n.to_string()), ("arguments", format!("{:?}", args))]),
                &format!("{} files, luafmt {:?}: expected the files {:?}\n{}", n, args, want, show(&o)),
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------- C15

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Batch {
    /// a file that formatting changes
    Plain,
    Formatted,
    SyntaxError,
    NotText,
    EmptyFile,
    Missing,
    /// a directory with a formattable file and one with a syntax error
    Directory,
    ReadOnly,
    /// a link to a formattable file
    Link,
    /// another name of the first file
    Again,
    /// no final line break
    NoEol,
    Large,
    /// blanks and line breaks only
    Blank,
    CommentOnly,
}

const BATCH: &[Batch] = &[
    Batch::Plain,
    Batch::SyntaxError,
    Batch::Formatted,
    Batch::NotText,
    Batch::EmptyFile,
    Batch::Missing,
    Batch::Directory,
    Batch::ReadOnly,
    Batch::Link,
    Batch::Again,
    Batch::NoEol,
    Batch::Large,
    Batch::Blank,
    Batch::CommentOnly,
];

/// Everything below a directory: contents, kinds, permissions.
pub fn snapshot(dir: &Path) -> BTreeMap<PathBuf, (String, u32)> {
    fn go(d: &Path, out: &mut BTreeMap<PathBuf, (String, u32)>) {
        for x in std::fs::read_dir(d).expect("scratch directory").flatten() {
            let p = x.path();
            let m = std::fs::symlink_metadata(&p).expect("scratch entry");
            if m.is_dir() {
                out.insert(p.clone(), ("directory".into(), m.permissions().mode()));
                go(&p, out);
            } else if m.file_type().is_symlink() {
                out.insert(p.clone(), (format!("-> {}", std::fs::read_link(&p).unwrap().display()), 0));
            } else {
                out.insert(p.clone(), (String::from_utf8_lossy(&std::fs::read(&p).unwrap()).into_owned(), m.permissions().mode()));
            }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, &mut out);
    out
}

struct World {
    dir: PathBuf,
    /// paths as given to the command
    args: Vec<String>,
    /// for each argument: files it stands for (real path), None if the path is in error
    files: Vec<Option<Vec<PathBuf>>>,
}

fn world(kinds: &[Batch], conf: &str) -> World {
    let dir = cli::fresh("c15");
    let w = |n: &str, t: &[u8]| {
        let p = dir.join(n);
        std::fs::write(&p, t).expect("scratch file");
        std::fs::set_permissions(&p, PermissionsExt::from_mode(0o640)).expect("scratch file");
        p
    };
    if !conf.is_empty() {
        w(".luafmt.lua", conf.as_bytes());
    }
    // bystanders
    w("bystander.lua", b"x = = 1");
    w("bystander2.lua", b"f ( )\n");
    let (mut args, mut files) = (vec![], vec![]);
    for (i, k) in kinds.iter().enumerate() {
        // names in descending order, so that the order of arguments differs from the order of names
        let n = format!("{}.lua", (b'c' - i as u8) as char);
        let text = format!("local a{} = {{ 'x',1 }} --c\nf ( a{} )\n", i, i);
        let (arg, f) = match k {
            Batch::Plain => (n.clone(), Some(vec![w(&n, text.as_bytes())])),
            Batch::Formatted => (n.clone(), Some(vec![w(&n, format!("g{}()\n", i).as_bytes())])),
            Batch::SyntaxError => (n.clone(), Some(vec![w(&n, format!("{}end", text).as_bytes())])),
            Batch::NotText => (n.clone(), Some(vec![w(&n, b"x = '\xff' y  =  1\n")])),
            Batch::EmptyFile => (n.clone(), Some(vec![w(&n, b"")])),
            Batch::NoEol => (n.clone(), Some(vec![w(&n, text.trim_end().as_bytes())])),
            Batch::Large => (n.clone(), Some(vec![w(&n, format!("{}s  =  '{}'\n{}", text.repeat(100), "y".repeat(100_000), text).as_bytes())])),
            Batch::Blank => (n.clone(), Some(vec![w(&n, b"  \n\n")])),
            Batch::CommentOnly => (n.clone(), Some(vec![w(&n, b"  --[[c]] ")])),
            Batch::Missing => (n.clone(), None),
            Batch::Directory => {
                let d = format!("{}.d", i);
                std::fs::create_dir(dir.join(&d)).expect("scratch directory");
                let a = w(&format!("{}/in.lua", d), text.as_bytes());
                let b = w(&format!("{}/err.lua", d), b"x = = 1");
                w(&format!("{}/other.txt", d), b"x  =  1");
                (d, Some(vec![a, b]))
            }
            Batch::ReadOnly => {
                let p = w(&n, text.as_bytes());
                std::fs::set_permissions(&p, PermissionsExt::from_mode(0o750)).expect("scratch file");
                (format!("./{}", n), Some(vec![p]))
            }
            Batch::Link => {
                let t = w(&format!("{}.target", i), text.as_bytes());
                symlink(&t, dir.join(&n)).expect("scratch link");
                (n.clone(), Some(vec![t]))
            }
            Batch::Again => match files.first() {
                Some(f) if args.first() != Some(&n) => {
                    let a: &String = &args[0];
                    (a.clone(), Option::<Vec<PathBuf>>::clone(f))
                }
                _ => (n.clone(), Some(vec![w(&n, text.as_bytes())])),
            },
        };
        args.push(arg);
        files.push(f);
    }
    World { dir, args, files }
}

fn c15_batch(cx: &Cx, kinds: &[Batch], flags: &[&str], by_config: bool, bare: bool, l: &mut Local) {
    let b = || V::B(true);
    // bare: texts that end without a line break, or are empty
    let options: Vec<(&'static str, V)> = match bare {
        false => vec![("field_separator", V::S(";".into())), ("remove_spaces_between_tokens", b()), ("replace_zero_spaces_with_hint", b()), ("write_newline_at_eof", b())],
        true => vec![("remove_comments", b()), ("remove_spaces_between_tokens", b()), ("replace_zero_spaces_with_hint", b()), ("remove_all_newlines", b())],
    };
    let conf: String = options.iter().map(|(n, v)| format!("{} = {}\n", n, if let V::S(s) = v { format!("'{}'", s) } else { v.text() })).collect();
    let conf = &conf;
    let cfg = opts(&options);
    let w = world(kinds, if by_config { conf } else { "" });
    let before = snapshot(&w.dir);
    let mut args: Vec<String> = flags.iter().map(|s| s.to_string()).collect();
    args.extend(w.args.iter().cloned());
    if !by_config {
        args.extend(options.iter().map(|(n, v)| format!("--{}={}", n, v.text())));
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let o = cli::run(&a, b"", &w.dir, &[]);
    let after = snapshot(&w.dir);
    l.add("transitions", w.args.len() as u64);
    l.add("traces_validated_against_impl", 1);
    cx.state(&format!("{:?} {:?} {}", kinds, flags, by_config));
    let inplace = flags.iter().any(|f| f.contains('i'));
    let verbose = flags.iter().any(|f| f.contains('v'));
    let fail = |d: String| {
        cx.e.violation(
            case(&[("paths", format!("{:?}", kinds)), ("arguments", format!("{:?}", args)), ("options by config file", by_config.to_string())]),
            &format!("paths {:?}, luafmt {:?}: {}\nexit code {}\nstdout: {:.600?}\nstderr: {:.600?}", kinds, args, d, o.code, o.out, o.err),
        )
    };
    if cli::crashed(&o) {
        return fail("the command crashed".into());
    }
    // the model: process the paths in their order, keeping the content of the files
    let mut order: Vec<usize> = (0..w.args.len()).collect();
    order.sort_by(|x, y| w.args[*x].cmp(&w.args[*y]));
    let mut state: BTreeMap<PathBuf, (String, u32)> = before.clone();
    let mut out: Vec<String> = vec![];
    let mut reports: Vec<String> = vec![];
    for i in order {
        match &w.files[i] {
            None => reports.push(w.args[i].clone()),
            Some(fs) => {
                for f in fs {
                    let text = state[f].0.clone();
                    let name = f.file_name().unwrap().to_string_lossy().into_owned();
                    match if text.contains('\u{fffd}') { None } else { lib(&text, &cfg, None) } {
                        Some(x) if inplace => state.get_mut(f).unwrap().0 = x,
                        Some(x) => out.push(x),
                        None => reports.push(if fs.len() > 1 { name } else { w.args[i].clone() }),
                    }
                }
            }
        }
    }
    if after != state {
        let diff: Vec<String> = after
            .keys()
            .chain(state.keys())
            .filter(|k| after.get(*k) != state.get(*k))
            .map(|k| format!("{}: {:.200?} instead of {:.200?}", k.display(), after.get(k), state.get(k)))
            .collect();
        return fail(format!("files differ from the expected ones: {:?}", diff));
    }
    let want = out.concat();
    if !verbose && o.out != want {
        return fail(format!("expected on the standard output: {:.600?}", want));
    }
    if verbose {
        // every text appears, in order
        let mut at = 0;
        for x in &out {
            match o.out[at..].find(x.as_str()) {
                Some(p) => at += p + x.len(),
                None => return fail(format!("the text {:.300?} is not in the output at its place", x)),
            }
        }
    }
    for r in &reports {
        if !o.err.contains(r.as_str()) {
            return fail(format!("{:?} is not reported", r));
        }
    }
    if reports.is_empty() && !o.err.is_empty() {
        fail("nothing is wrong with the files".into());
    }
}

fn c15_stdin(cx: &Cx, text: &[u8], args: &[&str], options: &Arc<Cfg>, l: &mut Local) {
    let dir = cli::fresh("c15in");
    // not used for the standard input
    std::fs::write(dir.join(".luafmt.lua"), "remove_comments = true").expect("scratch file");
    let before = snapshot(&dir);
    let o = cli::run(args, text, &dir, &[]);
    l.add("transitions", 1);
    l.add("traces_validated_against_impl", 1);
    cx.state(&format!("stdin {:?} {:?}", text, args));
    let want = std::str::from_utf8(text).ok().and_then(|t| lib(t, options, None));
    let bad = match &want {
        Some(x) => (if args.contains(&"-v") { !o.out.ends_with(x.as_str()) } else { o.out != *x }) || !o.err.is_empty(),
        None => o.err.is_empty() || !args.contains(&"-v") && !o.out.is_empty(),
    };
    if bad || cli::crashed(&o) || snapshot(&dir) != before {
        cx.e.violation(
            case(&[("stdin", format!("{:.300?}", String::from_utf8_lossy(text))), ("arguments", format!("{:?}", args))]),
            &format!("luafmt {:?} < {:.300?}: expected {:.600?}\n{:.1500}", args, String::from_utf8_lossy(text), want, show(&o)),
        );
    }
}

pub static C15: Prop = Prop {
    id: "C15",
    level: "model_checking",
    rule: "a model state is the content of every file; a transition processes one path. All lists of up to 3 paths (thorough: also 4 over the first seven kinds) \
           over 14 kinds of path (formattable, already formatted, syntax error, not text, empty, missing, directory, unusual permissions, link, the same path \
           again, no final line break, large, blank, only a comment) x flag sets x two option sets (one leaves texts without a final line break, or empty) from the command line or from a config file are run on the model and on the real command; \
           contents, permissions and names of all files, standard output and error reports are compared. Likewise the standard input.",
    assumptions: &["paths are processed in the order of their names", "faults of system calls are left to C16"],
    explore: |e, _| {
        let cx = Cx::new(e);
        let th = e.thorough();
        let texts: Vec<Vec<u8>> = [&b""[..], b"f ( )", b"f ( ) --c\n", b"x = = 1", b"x = '\xff'", b"#!x\n", b"#!x\ny  =  1\n", b"\n\n", b"--c", b"\xef\xbb\xbfx = 1"]
            .iter()
            .map(|t| t.to_vec())
            .chain([format!("{}s  =  '{}'\n{}", TEXT.repeat(100), "y".repeat(100_000), TEXT).into_bytes()])
            .collect();
        e.par(texts.len(), |i, l| {
            for flags in [&[][..], &["-i"], &["-v"], &["-r"]] {
                c15_stdin(&cx, &texts[i], flags, &opts(&[]), l);
                let mut a = flags.to_vec();
                a.push("--remove_spaces_between_tokens=true");
                a.push("--replace_zero_spaces_with_hint=true");
                c15_stdin(&cx, &texts[i], &a, &opts(&[("remove_spaces_between_tokens", V::B(true)), ("replace_zero_spaces_with_hint", V::B(true))]), l);
            }
        });
        let flags: &[&[&str]] = &[&["-i"], &[], &["-i", "-r"], &["--inplace", "-v"], &["-v"], &["-r"]];
        let n = BATCH.len();
        let mut batches: Vec<Vec<Batch>> = vec![];
        for a in BATCH {
            batches.push(vec![*a]);
        }
        for i in 0..n * n {
            batches.push(vec![BATCH[i / n], BATCH[i % n]]);
        }
        for i in 0..n * n * n {
            batches.push(vec![BATCH[i / (n * n)], BATCH[i / n % n], BATCH[i % n]]);
        }
        if th {
            for i in 0..7usize.pow(4) {
                batches.push(vec![BATCH[i / 343], BATCH[i / 49 % 7], BATCH[i / 7 % 7], BATCH[i % 7]]);
            }
        }
        e.par(batches.len(), |i, l| {
            let b = &batches[i];
            for (k, f) in flags.iter().enumerate() {
                for by_config in [false, true] {
                    if th || b.len() < 3 || k < 2 {
                        c15_batch(&cx, b, f, by_config, false, l);
                    }
                    if th || b.len() < 3 {
                        c15_batch(&cx, b, f, by_config, true, l);
                    }
                }
            }
            if l.nsample < 1 {
                l.nsample += 1;
                e.sample(case(&[("paths", format!("{:?}", b))]));
            }
        });
        super::fault::isolation(e);
        cx.done();
    },
    judge: |_| Verdict::Trivial,
};
