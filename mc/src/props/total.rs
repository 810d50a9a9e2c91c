//! C05: every input ends in a result or an error.

use super::basic::chars;
use super::*;
use crate::cli;
use crate::cfgs::{Kind, V, OPTIONS};
use crate::gen::{layout, Layout};

/// Texts that depend on a size.
pub fn generated(name: &str, n: usize) -> String {
    match name {
        "sum" => format!("a={}b", "b+".repeat(n)),
        "parens" => format!("a={}b{}", "(".repeat(n), ")".repeat(n)),
        "tables" => format!("a={}b{}", "{".repeat(n), "}".repeat(n)),
        "index" => format!("a={}c{}", "b[".repeat(n), "]".repeat(n)),
        "calls" => format!("a={}c{}", "b(".repeat(n), ")".repeat(n)),
        "do" => format!("{}{}", "do ".repeat(n), "end ".repeat(n)),
        "stats" => "a=1\n".repeat(n),
        "list" => format!("a={{{}}}", "1,".repeat(n)),
        "comment" => format!("--{}\n", "c".repeat(n)),
        "string" => format!("a='{}'", "c".repeat(n)),
        "open" => "(".repeat(n),
        "brackets" => "[".repeat(n),
        "newlines" => "\n".repeat(n),
        "comments" => "--c\n".repeat(n),
        _ => String::new(),
    }
}

/// Odd option values: everything a user can type.
fn odd_cfgs() -> Vec<Arc<Cfg>> {
    let mut out = vec![];
    for base in [cfgs::empty(), cfgs::shipped(), cfgs::collapse(20)] {
        for (n, k) in OPTIONS {
            let vals: Vec<V> = match k {
                Kind::Bool => vec![],
                Kind::Num => [0usize, 2, 3, 7, 1000, usize::MAX].iter().map(|u| V::U(*u)).collect(),
                Kind::Str => ["\n", "--", "x", "\u{439}", "]]", "\"", "\\", " \n ", "\u{1f600}"].iter().map(|s| V::S(s.to_string())).collect(),
            };
            for v in vals {
                out.push(base.with(n, Some(v)));
            }
        }
    }
    arcs(out)
}

/// Config file texts: every option, every kind of value, and all kinds of things that are not options.
fn config_texts() -> Vec<String> {
    let mut out = vec![];
    let vals = ["true", "false", "nil", "0", "1", "-1", "1e5", "0x10", "99999999999999999999", "'a'", "\"a\"", "[[a]]", "{}", "f()", "a", "a.b", "...", "function() end",
        "1, 2", "'\\n'", "''", "not true", "'\u{439}'", "(1)", "'1:2'"];
    for (n, _) in OPTIONS {
        for v in vals {
            out.push(format!("{}={}", n, v));
        }
    }
    for n in ["unknown", "line_range", "a.b", "local max_width", "max_width, max_width", "(a).b", "a[1]", "f().x", "end"] {
        for v in vals {
            out.push(format!("{}={}", n, v));
        }
    }
    for t in ["", "\n", "#!a\nmax_width=1", "return 1", "return", "max_width=1 return", "do max_width=1 end", "if a then b=1 end", "::a::", ";", "a", "=", "'", "[[", "--c",
        "local x", "local function f() end", "function f() end", "f()", "max_width=", "max_width=1;max_width=2", "a=1 b=2 c=3"] {
        out.push(t.to_string());
    }
    out
}

fn cli_args() -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    let one = |s: &str| vec![s.to_string()];
    for a in ["-", "--", "-x", "--x", "-i", "-r", "-v", "-irv", "--=", "--a", "--a=", "--=a", "-a=b", "--max_width", "--max_width=", "--max_width=a", "--max_width=-1", "--max_width=1e3",
        "--max_width=99999999999999999999", "--line_range=", "--line_range=1", "--line_range=1:", "--line_range=:1", "--line_range=0:0", "--line_range=2:1", "--line_range=1:99",
        "--line_range=99999999999999999999:1", "--line_range=-1:1", "--line_range=a:b", "--field_separator=", "--field_separator=\n", "--indentation_string=\u{439}", "---", "--a-b=c", "-\u{439}",
        "--\u{439}=\u{439}", "--inplace", "--recursive", "--verbose", "--help", "-h", "--version", "--max_width=1=2", "nofile", "./", ".", "/nonexistent/x", ""] {
        v.push(one(a));
    }
    for (n, _) in OPTIONS {
        for x in ["", "true", "0", "x", " "] {
            v.push(one(&format!("--{}={}", n, x)));
        }
    }
    v
}

pub static C05: Prop = Prop {
    id: "C05",
    level: "exploration",
    rule: "every text of bounded length over lexical alphabets, every prefix and one-character edit of grammar programs, under five base configurations; every \
           single and every pair of option values, odd option values (huge numbers, line breaks, quotes, non-ASCII); every line range with bounds from 0 \
           to beyond the end, in any order; config file texts; command line arguments. Oracle: no panic, no abort, no arithmetic overflow (checked \
           build), finished within 60 s. Non-trivial: any run that was made.",
    assumptions: &["nesting depth of tables, calls and index expressions at most 9 (the time is exponential beyond; a known finding)"],
    explore: |e, p| {
        let th = e.thorough();
        let bases = arcs(cfgs::bases());
        let three = arcs(vec![cfgs::empty(), cfgs::shipped(), cfgs::collapse(20)]);
        sweep_texts(e, p, &odd_texts(), &bases);
        sweep_texts(e, p, &crate::lexical::long_texts(if th { 5000 } else { 1100 }), &three);
        chars(e, p, &three, if th { 5 } else { 4 }, super::basic::SHORT_ALPHABET);
        chars(e, p, &three, if th { 5 } else { 4 }, &["--", "[", "=", "]", "\n", " ", "a", "--[[", "]]", "\u{439}", ";", "{", "}", "'", "#!", "0x", "1e", "\r", "\\"]);
        // prefixes and one-character edits
        let edits = ["\"", "'", "[", "]", "(", ")", "\n", "-", "=", "end", "\u{439}", "\u{0}", "\\", " ", "{", "}"];
        let v = progs(if th { 1 } else { 0 }, Vary::Two).into_iter().chain(items(showcase(), Vary::Two)).collect::<Vec<_>>();
        e.par(v.len(), |i, l| {
            v[i].each(&mut |s| {
                let cs: Vec<char> = s.chars().collect();
                for k in 0..=cs.len() {
                    let (a, b): (String, String) = (cs[..k].iter().collect(), cs[k..].iter().collect());
                    let mut texts = vec![a.clone(), b.clone()];
                    if k < cs.len() {
                        texts.push(format!("{}{}", a, b.chars().skip(1).collect::<String>()));
                    }
                    for x in edits {
                        texts.push(format!("{}{}{}", a, x, b));
                    }
                    for t in &texts {
                        for c in &three {
                            l.add("edited_texts", 1);
                            e.check(p, &Case::new(t, c), l);
                        }
                    }
                }
            })
        });
        // options
        let odd = odd_cfgs();
        sweep(e, p, &items(showcase(), Vary::GapShort), &odd);
        sweep(e, p, &progs(0, Vary::GapShort), &odd);
        sweep(e, p, &items(all_lists(1..=3), Vary::Two), &odd);
        sweep(e, p, &progs(1, Vary::Two), &single_cfgs());
        sweep(e, p, &items(showcase(), Vary::Two), &arcs(cfgs::dedup(cfgs::pairs(&cfgs::shipped()))));
        sweep(e, p, &items(showcase(), Vary::Two), &arcs(cfgs::dedup(cfgs::pairs(&cfgs::empty()))));
        // ranges, in every order and beyond both ends
        let texts: Vec<String> = {
            let mut t: Vec<String> = odd_texts();
            for i in progs(1, Vary::Layouts).iter().chain(&items(showcase(), Vary::Layouts)).chain(&items(all_lists(2..=2), Vary::Layouts)) {
                i.each(&mut |s| t.push(s.replace('a', "\u{439}'\u{65e5}'").replace('\u{439}', "a")));
                i.each(&mut |s| t.push(s.to_string()));
            }
            t
        };
        e.par(texts.len(), |i, l| {
            let n = texts[i].matches('\n').count() + 3;
            let mut bounds: Vec<usize> = (0..=n.min(9)).collect();
            bounds.extend([n, usize::MAX]);
            for a in &bounds {
                for b in &bounds {
                    for c in &three {
                        l.add("ranges", 1);
                        e.check(p, &Case::new(&texts[i], c).with_range(Some((*a, *b))), l);
                    }
                }
            }
        });
        // sizes
        for (name, ns) in [("sum", vec![10, 100, 1000]), ("parens", vec![10, 100, 500]), ("tables", vec![9]), ("index", vec![9]), ("calls", vec![9]), ("do", vec![10, 100, 500]), ("stats", vec![1000, 5000]),
            ("list", vec![100, 3000]), ("comment", vec![100000]), ("string", vec![100000]), ("open", vec![10000]), ("brackets", vec![10000]), ("newlines", vec![10000]), ("comments", vec![10000])] {
            e.par(ns.len(), |i, l| {
                let t = generated(name, ns[i]);
                for c in &three {
                    l.add("big_texts", 1);
                    e.check(p, &Case::new(&t, c), l);
                }
                e.check(p, &Case::new("", &three[0]).with_extra(&format!("gen:{}:{}", name, ns[i])), l);
            });
        }
        sweep(e, p, &items(all_nests(if th { 2..=9 } else { 2..=6 }), Vary::Two), &bases);
        // config files and the command line
        let ct = config_texts();
        e.par(ct.len(), |i, l| {
            l.add("config_texts", 1);
            e.check(p, &Case::new(&ct[i], &three[0]).with_extra("config"), l);
        });
        let args = cli_args();
        e.par(args.len(), |i, l| {
            for src in ["a = {1,--c\n2}", "a(", ""] {
                l.add("command_lines", 1);
                let x = J::A(args[i].iter().map(|s| J::s(s)).collect()).show();
                e.check(p, &Case::new(src, &three[0]).with_extra(&format!("args:{}", x)), l);
            }
        });
        if th {
            sweep(e, p, &standard(2), &bases);
            for b in cfgs::bases() {
                sweep(e, p, &items(showcase(), Vary::Layouts), &arcs(cfgs::dedup(cfgs::pairs(&b))));
            }
            chars(e, p, &three, 6, super::basic::SHORT_ALPHABET);
        }
    },
    judge: |c| {
        let x = c.extra.as_deref().unwrap_or("");
        if x == "config" {
            let f = cli::scratch().join("config.lua");
            std::fs::write(&f, &c.src).expect("scratch file");
            return match watched(c, || guarded(|| luafmt::config::Config::default().reload_format_from_file(&f).is_ok())) {
                Ok(_) => Verdict::Pass,
                Err(m) => Verdict::Fail(format!("reading options from this config text panicked: {}", m)),
            };
        }
        if let Some(g) = x.strip_prefix("gen:") {
            let (name, n) = g.split_once(':').unwrap_or(("", "0"));
            let text = generated(name, n.parse().unwrap_or(0));
            let limit = if name == "index" { "5" } else { "60" };
            let bin = cli::binary();
            let opts: Vec<String> = cfgs::shipped().set.iter().map(|(n, v)| format!("--{}={}", n, v.text())).collect();
            let mut a: Vec<&str> = vec![limit, &bin];
            a.extend(opts.iter().map(|s| s.as_str()));
            let o = cli::run_bin("/usr/bin/timeout", &a, text.as_bytes(), &cli::scratch(), &[]);
            return if o.code == 124 {
                Verdict::Fail(format!("did not finish within {} s", limit))
            } else if cli::crashed(&o) {
                Verdict::Fail(format!("the command crashed (status {}): {}", o.code, o.err.chars().take(200).collect::<String>()))
            } else {
                Verdict::Pass
            };
        }
        if let Some(a) = x.strip_prefix("args:") {
            let a = crate::json::parse(a).expect("args");
            let a: Vec<&str> = a.arr().iter().map(|s| s.str()).collect();
            let o = watched(c, || cli::run(&a, c.src.as_bytes(), &cli::fresh("args"), &[]));
            return if cli::crashed(&o) {
                Verdict::Fail(format!("the command crashed (status {}): {}", o.code, o.err.chars().take(300).collect::<String>()))
            } else {
                Verdict::Pass
            };
        }
        match c.run() {
            Out::Panic(m) => Verdict::Fail(format!("panic: {}", m)),
            _ => Verdict::Pass,
        }
    },
};

#[allow(dead_code)]
pub fn natural(t: &Toks) -> String {
    layout(t, Layout::Natural).text()
}
