//! C18: quote conversion.

use super::*;
use crate::cfgs::V;
use crate::lua::K;

pub fn judge(c: &Case) -> Verdict {
    let sp = parsed(&c.src);
    let sp = match sp.as_ref() {
        Ok(p) => p,
        Err(_) => return Verdict::Trivial,
    };
    let out = match format(&c.src, &c.cfg, c.range) {
        Out::Ok(o) => o,
        _ => return Verdict::Trivial,
    };
    let convert = c.cfg.is("convert_charstring_to_normalstring");
    let op = match lua::lex(&out, false) {
        Ok(v) => v,
        Err((at, e)) => return Verdict::Fail(format!("the output is no sequence of tokens: {} at {}\n  output: {:?}", e, at, out)),
    };
    let is = |i: &&lua::Item| matches!(i.k, K::Str | K::Long);
    let a: Vec<&lua::Item> = sp.toks.iter().filter(is).collect();
    let b: Vec<&lua::Item> = op.iter().filter(is).collect();
    if a.len() != b.len() {
        return Verdict::Fail(format!("{} strings became {}\n  output: {:?}", a.len(), b.len(), out));
    }
    if a.is_empty() {
        return Verdict::Trivial;
    }
    // statements that the line range touches
    let lines: Option<(usize, usize)> = c.range;
    let line = |at: usize| c.src[..at].matches('\n').count() + 1;
    for (x, y) in a.iter().zip(b.iter()) {
        let (s, t) = (x.text(&c.src), y.text(&out));
        let must = match lines {
            None => convert,
            Some((l, r)) => {
                // the top-level statement around the string
                let ti = sp.toks.iter().position(|i| i.s == x.s).unwrap();
                let st = sp.stats.iter().find(|st| st.depth == 0 && st.first <= ti && ti <= st.last);
                match st {
                    Some(st) => {
                        let (f, z) = (line(sp.toks[st.first].s), line(sp.toks[st.last].e));
                        if z < l || f > r {
                            false
                        } else if l <= f && z <= r {
                            convert
                        } else {
                            // selected in part: C09
                            continue;
                        }
                    }
                    None => continue,
                }
            }
        };
        if !must || !s.starts_with('\'') {
            if s != t {
                return Verdict::Fail(format!("the string {} became {}\n  output: {:?}", s, t, out));
            }
            continue;
        }
        if !t.starts_with('"') {
            return Verdict::Fail(format!("the string {} came out as {}\n  output: {:?}", s, t, out));
        }
        match (lua::decode_string(s), lua::decode_string(t)) {
            (Some(v), Some(w)) if v == w => {}
            // not a valid escape sequence: the rest must be the same
            (None, None) if s[1..s.len() - 1] == t[1..t.len() - 1].replace("\\\"", "\"") || s[1..s.len() - 1].replace("\\\"", "\"") == t[1..t.len() - 1].replace("\\\"", "\"") => {}
            (v, w) => return Verdict::Fail(format!("the string {} with the value {:?} became {} with the value {:?}\n  output: {:?}", s, v, t, w, out)),
        }
    }
    Verdict::Pass
}

const PLACES: &[&str] = &[
    "x = @",
    "x  =  {  @ , [ @ ] = 1 ; k = @ }",
    "f(@)\nf @ -- ' \"\nf { @ }",
    "(@):m(@)\na . b : c @ . d = 1",
    "return @, @",
    "if a == @ then x = @ .. @ elseif @ then end",
    "for i = 1, #@ do local s <const> = 1 end",
    "x = a .. @ .. b\n\n\ny = [[ ' \" ]] .. \"'\" .. @",
    "local function f(a) return function() return @ end end",
    "while a [ @ ] do repeat b [ @ ] = not @ until @ end",
    "--[[ ' ]] x = --[==[ \" ]==] @ --'",
    "é = 1 x = @",
];

fn bodies(units: &[&str], max: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..max {
        let mut next = vec![];
        for b in &last {
            for u in units {
                next.push(format!("{}{}", b, u));
            }
        }
        v.extend(next.iter().cloned());
        last = next;
    }
    v
}

const UNITS: &[&str] = &[
    "'", "\"", "\\'", "\\\"", "\\\\", "a", "\\n", "\\z \n", "\\0", "\\10", "\\x4a", "\\u{e9}", "é", "\\\n", "--", "[[", "]]", "1", " ", "\t",
];

const RAW: &[&str] = &["'", "\"", "\\", "a", "n", "z", "0", " ", "\n", "é"];

fn configs() -> Vec<Arc<Cfg>> {
    let with = |b: Cfg, v: bool| {
        let mut s = b.set.clone();
        s.retain(|(n, _)| *n != "convert_charstring_to_normalstring");
        s.push(("convert_charstring_to_normalstring", V::B(v)));
        Cfg::of(format!("{} +convert={}", b.name, v), s)
    };
    let mut v = vec![];
    for b in [cfgs::empty(), cfgs::shipped(), cfgs::dense(), cfgs::collapse(14)] {
        v.push(with(b.clone(), true));
        v.push(with(b, false));
    }
    let mut e = cfgs::empty();
    e.name = "empty, unset".into();
    v.push(e);
    let mut s = cfgs::spread();
    s.set.push(("convert_charstring_to_normalstring", V::B(true)));
    s.name = "spread +convert".into();
    v.push(s);
    arcs(v)
}

pub static C18: Prop = Prop {
    id: "C18",
    level: "exploration",
    rule: "All sequences of up to 4 (thorough: 5) of 20 units of string text (quotes, escaped quotes and backslashes, every kind of escape, line continuations, comment and \
           bracket marks, non-ASCII) between single and between double quotes, and all texts of up to 6 (thorough: 7) of 10 raw characters that make a string, at every \
           position of 12 program frames (all positions for short bodies) under 10 option sets with the conversion on, off and unset; every program of the standard space; \
           line ranges over statements with strings; every option and every two options set to anything (or left out) around several base sets, over six programs of intricate statements. Non-trivial: the program is accepted and contains a string.",
    assumptions: &["a string with an escape that Lua does not know denotes nothing; there, everything but the quotes must stay"],
    explore: |e, p| {
        let th = e.thorough();
        let cs = configs();
        let main: Vec<Arc<Cfg>> = vec![cs[0].clone(), cs[2].clone(), cs[8].clone()];
        let lit = |b: &str| vec![format!("'{}'", b), format!("\"{}\"", b)];
        // short bodies everywhere
        let short = bodies(UNITS, 2);
        e.par(short.len(), |i, l| {
            for s in lit(&short[i]) {
                for f in PLACES {
                    let src = f.replace('@', &s);
                    for c in &cs {
                        e.check(p, &Case::new(&src, c), l);
                    }
                }
            }
        });
        // two different strings at the two first places
        let tiny = bodies(UNITS, 1);
        e.par(tiny.len() * tiny.len(), |i, l| {
            for s in lit(&tiny[i / tiny.len()]) {
                for t in lit(&tiny[i % tiny.len()]) {
                    for f in ["x = @..%", "f(@,%)", "x = {@,[%]=1}", "x=@\ny=%", "f @ % (1)", "return @==%"] {
                        let src = f.replace('@', &s).replace('%', &t);
                        for c in &main {
                            e.check(p, &Case::new(&src, c), l);
                        }
                    }
                }
            }
        });
        let long = bodies(UNITS, if th { 5 } else { 4 });
        e.par(long.len(), |i, l| {
            for s in lit(&long[i]) {
                for f in if th { &["x = @", "f{@}"][..] } else { &["x = @"] } {
                    let src = f.replace('@', &s);
                    for c in &main {
                        e.check(p, &Case::new(&src, c), l);
                    }
                }
            }
        });
        let raw = bodies(RAW, if th { 7 } else { 6 });
        e.par(raw.len(), |i, l| {
            for s in lit(&raw[i]) {
                for f in ["x = @", "f @ --"] {
                    let src = f.replace('@', &s);
                    if parsed(&src).is_ok() {
                        for c in &main[..if th { 3 } else { 2 }] {
                            e.check(p, &Case::new(&src, c), l);
                        }
                    }
                }
            }
        });
        // line ranges
        let strings = ["'a'", "'\"'", "\"'\"", "'\\''", "[['\"]]", "'\\\n'", "'\u{e9}'", "'日'"];
        let k = strings.len();
        e.par(k * k * k, |i, l| {
            let (a, b, d) = (strings[i % k], strings[i / k % k], strings[i / k / k]);
            for src in [format!("x = {}\ny = {} .. {}\nz = {}", a, b, a, d), format!("f {}\nif {} then\n  g {}\nend", a, b, d), format!("x = {{ {} }} y = {}\n\nz = {}\n", a, b, d)] {
                for r in line_ranges(&src) {
                    for c in &main {
                        e.check(p, &Case::new(&src, c).with_range(r), l);
                    }
                }
            }
        });
        sweep_texts(e, p, &crate::lexical::long_texts(if th { 5000 } else { 1100 }), &main);
        let on = |b: Cfg| b.with("convert_charstring_to_normalstring", Some(V::B(true)));
        let quoted: Vec<String> = rich().iter().map(|s| s.replace("'d'", "'d\"\\''").replace("'u'", "'\\\\\"'")).collect();
        sweep_texts(e, p, &quoted, &two_options(&[on(cfgs::shipped()), on(cfgs::empty())], &super::basic::in_domain));
        sweep(e, p, &standard(if th { 2 } else { 1 }), &[main[0].clone(), cs[3].clone()]);
    },
    judge,
};
