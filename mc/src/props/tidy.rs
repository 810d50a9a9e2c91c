//! C19 blank lines and line breaks, C21 tidiness.

use super::*;
use crate::lexical;
use crate::cfgs::V;
use crate::lua::{Parsed, K};

/// The pieces of white space of a text: before, between and after its tokens and comments.
/// (text, item before, item after)
fn gaps<'a>(src: &'a str, p: &Parsed) -> Vec<(&'a str, Option<usize>, Option<usize>)> {
    let mut v = vec![];
    let mut at = 0;
    for (i, it) in p.items.iter().enumerate() {
        v.push((&src[at..it.s], i.checked_sub(1), Some(i)));
        at = it.e;
    }
    v.push((&src[at..], p.items.len().checked_sub(1), None));
    v
}

fn blanks(s: &str) -> bool {
    s.ends_with([' ', '\t', '\u{b}', '\u{c}'])
}

// ---------------------------------------------------------------------------------------------------------------- C21

pub fn tidy(c: &Case) -> Verdict {
    let sp = parsed(&c.src);
    let sp = match sp.as_ref() {
        Ok(p) => p,
        Err(_) => return Verdict::Trivial,
    };
    // carriage returns are kept as they are
    if c.src.contains('\r') {
        return Verdict::Trivial;
    }
    let out = match format(&c.src, &c.cfg, c.range) {
        Out::Ok(o) => o,
        _ => return Verdict::Trivial,
    };
    let op = match lua::parse(&out, true) {
        Ok(p) => p,
        Err(e) => return Verdict::Fail(format!("the output is not Lua: {}\n  output: {:?}", e, out)),
    };
    let fail = |d: String| Verdict::Fail(format!("{}\n  output: {:?}", d, out));
    let indent = c.cfg.str("indentation_string").unwrap_or("");
    let show = |i: Option<usize>| i.map(|i| op.items[i].text(&out)).unwrap_or("(nothing)");
    for (g, before, after) in gaps(&out, &op) {
        let place = || format!("between {} and {}", show(before), show(after));
        let mut lines: Vec<&str> = g.split('\n').collect();
        let last = lines.pop().unwrap();
        // the first piece ends the line of the item before
        if lines.iter().any(|l| !l.is_empty()) {
            return fail(format!("{} a line ends in blanks: {:?}", place(), g));
        }
        let begins = !lines.is_empty() || before.is_none();
        if after.is_none() {
            if blanks(last) {
                return fail(format!("the text ends in blanks: {:?}", g));
            }
        } else if begins {
            let rest = if indent.is_empty() { last } else { last.trim_start_matches(indent) };
            if !rest.is_empty() {
                return fail(format!("{} a line begins with {:?}", place(), last));
            }
        } else if last != "" && last != " " {
            return fail(format!("{} are the blanks {:?}", place(), last));
        }
    }
    let tail = |src: &str, p: &Parsed| src[p.items.last().map_or(0, |i| i.e)..].matches('\n').count();
    if !op.items.is_empty() {
        let (n, m) = (tail(&c.src, sp), tail(&out, &op));
        if m == 0 || m > n.max(1) {
            return fail(format!("the text ends with {} line breaks, the source with {}", m, n));
        }
    }
    Verdict::Pass
}

pub static C21: Prop = Prop {
    id: "C21",
    level: "exploration",
    rule: "Every program of the standard space (all programs to a weight bound with every trivia in every gap, pairs of gaps, lists, nests, literals) and odd texts, under the shipped \
           options, also with other widths and indentations; six programs of intricate statements with every width from 0 to 130 and three indentations; every gap of the output is inspected. Non-trivial: the program is accepted.",
    assumptions: &["sources without carriage returns"],
    explore: |e, p| {
        let th = e.thorough();
        let mut cs = vec![cfgs::shipped(), cfgs::shipped().with("indentation_string", Some(V::S("\t".into()))), cfgs::shipped().with("max_width", Some(V::U(20)))];
        cs.push(cfgs::shipped().with("max_width", Some(V::U(40))).with("indentation_string", Some(V::S("  ".into()))));
        cs.push(cfgs::shipped().with("max_width", Some(V::U(0))));
        if th {
            cs.push(cfgs::shipped().with("max_width", None));
            for w in [5, 10, 15, 30, 60] {
                cs.push(cfgs::shipped().with("max_width", Some(V::U(w))));
            }
        }
        let cs = arcs(cs);
        sweep_texts(e, p, &odd_texts(), &cs);
        sweep_texts(e, p, &lexical::sized_texts(), &cs);
        sweep_texts(e, p, &lexical::long_texts(if th { 5000 } else { 1100 }), &cs[..2]);
        sweep_texts(e, p, &lexical::comment_texts(if th { 4 } else { 3 }), &cs[..1]);
        sweep_texts(e, p, &lexical::literal_texts(if th { 4 } else { 2 }), &cs[..1]);
        let every: Vec<Arc<Cfg>> = (0..=130).flat_map(|w| ["    ", "\t", "  "].map(|s| cfgs::shipped().with("max_width", Some(V::U(w))).with("indentation_string", Some(V::S(s.into()))))).map(Arc::new).collect();
        sweep_texts(e, p, &rich(), &every);
        sweep(e, p, &standard(if th { 2 } else { 1 }), &cs);
    },
    judge: tidy,
};

// ---------------------------------------------------------------------------------------------------------------- C19

/// Line breaks of every piece of white space between two neighbouring statements; None if comments differ.
fn between_statements(src: &str, p: &Parsed) -> Vec<(usize, usize, Vec<usize>)> {
    let mut v = vec![];
    for (i, a) in p.stats.iter().enumerate() {
        for (j, b) in p.stats.iter().enumerate() {
            if a.depth == b.depth && b.first == a.last + 1 {
                let (from, to) = (p.toks[a.last].e, p.toks[b.first].s);
                let mut at = from;
                let mut n = vec![];
                for it in p.items.iter().filter(|x| x.is_comment() && x.s >= from && x.e <= to) {
                    n.push(src[at..it.s].matches('\n').count());
                    at = it.e;
                }
                n.push(src[at..to].matches('\n').count());
                v.push((i, j, n));
            }
        }
    }
    v
}

pub fn lines(c: &Case) -> Verdict {
    let sp = parsed(&c.src);
    let sp = match sp.as_ref() {
        Ok(p) => p,
        Err(_) => return Verdict::Trivial,
    };
    let out = match format(&c.src, &c.cfg, c.range) {
        Out::Ok(o) => o,
        _ => return Verdict::Trivial,
    };
    let op = match lua::parse(&out, true) {
        Ok(p) => p,
        Err(e) => return Verdict::Fail(format!("the output is not Lua: {}\n  output: {:?}", e, out)),
    };
    let fail = |d: String| Verdict::Fail(format!("{}\n  output: {:?}", d, out));
    let removes = c.cfg.is("remove_all_newlines");
    let layout = c.cfg.set.iter().any(|(n, _)| n.starts_with("newline_format") || n.starts_with("write_newline_at_") || *n == "max_width");
    let show = |i: Option<usize>| i.map(|i| op.items[i].text(&out)).unwrap_or("(nothing)");
    let mut trivial = true;
    // the end of the file
    if c.cfg.is("write_newline_at_eof") && !op.items.is_empty() {
        trivial = false;
        if !out.ends_with('\n') {
            return fail("the text does not end with a line break".into());
        }
    }
    if removes {
        trivial = false;
        for (g, before, after) in gaps(&out, &op) {
            let n = g.matches('\n').count();
            let comment = before.map_or(false, |i| matches!(op.items[i].k, K::LineComment | K::Shebang));
            let most = if comment || layout { 1 } else { 0 };
            let most = if after.is_none() && c.cfg.is("write_newline_at_eof") { 1 } else { most };
            if n > most {
                return fail(format!("{} line breaks remain between {} and {}", n, show(before), show(after)));
            }
        }
    } else if !c.cfg.is("remove_comments") {
        let (a, b) = (between_statements(&c.src, sp), between_statements(&out, &op));
        if a.len() != b.len() {
            return fail("the statements differ".into());
        }
        let one = c.cfg.is("remove_single_newlines");
        let statements = c.cfg.has("newline_format_statement");
        let comments = c.cfg.set.iter().any(|(n, _)| n.starts_with("newline_format_") && n.ends_with("_comment"));
        for ((i, j, x), (_, _, y)) in a.iter().zip(b.iter()) {
            trivial = false;
            if x.len() != y.len() {
                return fail("the comments differ".into());
            }
            for (k, (n, m)) in x.iter().zip(y.iter()).enumerate() {
                // blank lines
                let (n, m) = (*n, *m);
                let ok = if n >= 2 {
                    m == n
                } else if statements || comments && x.len() > 1 {
                    // the statements are separated by a line break, the parts of the gap may be
                    m <= 1
                } else {
                    m == n || one && m <= 1
                };
                let whole = k > 0 || x.len() > 1 || !statements || m >= 1;
                if !ok || !whole {
                    return fail(format!("{} line breaks between statements {} and {} (piece {}) became {}", n, i + 1, j + 1, k + 1, m));
                }
            }
        }
    } else {
        trivial = trivial && true;
    }
    if trivial {
        Verdict::Trivial
    } else {
        Verdict::Pass
    }
}

const PAIRS: &[&str] = &[
    "f()@g()@h()",
    "do a=1@b=2@end@return",
    "if a then@b()@c()@else@d()@end@e()",
    "local function f()@local x@return x@end@f()",
    "for i=1,2 do@f()@end@while a do@f()@g()@end",
    "repeat@a()@b()@until c@d()",
    "a={function()@b()@c()@end}@d()",
    "f();@g()@;h()",
    "goto a@::a::@local x=1@(f)()",
    "@f()@g()@",
    "x='a\n\nb'@y=[[\n\n]]@",
];

pub static C19: Prop = Prop {
    id: "C19",
    level: "exploration",
    rule: "Eleven program frames of statement lists at all nesting levels with every combination of gaps (up to four line breaks, with blanks, with one-line and long comments) in up to three \
           places at a time, and the standard space, under the shipped options, bare line-break options, and options that remove line breaks; every option and every two options set to anything (or left out) around several base sets, over six programs of intricate statements. For each gap between statements the number of \
           line breaks is compared; for options that remove line breaks every gap of the output is inspected. Non-trivial: the option set asks something of a gap.",
    assumptions: &[],
    explore: |e, p| {
        let th = e.thorough();
        let b = |v: bool| Some(V::B(v));
        let mut cs = vec![
            cfgs::shipped(),
            cfgs::shipped().with("remove_all_newlines", b(true)),
            cfgs::shipped().with("max_width", Some(V::U(12))),
            cfgs::empty(),
            cfgs::empty().with("write_newline_at_eof", b(true)),
            cfgs::empty().with("remove_single_newlines", b(true)),
            cfgs::empty().with("remove_single_newlines", b(false)).with("remove_all_newlines", b(false)).with("remove_spaces_between_tokens", b(true)).with("replace_zero_spaces_with_hint", b(true)),
            cfgs::empty().with("remove_all_newlines", b(true)),
            cfgs::empty().with("remove_all_newlines", b(true)).with("write_newline_at_eof", b(true)),
            cfgs::empty().with("remove_all_newlines", b(true)).with("remove_single_newlines", b(true)).with("remove_spaces_between_tokens", b(true)).with("replace_zero_spaces_with_hint", b(true)),
            cfgs::empty().with("newline_format_statement", Some(V::U(1))).with("write_newline_at_eof", b(true)),
            cfgs::dense(),
            cfgs::dense().with("remove_comments", None),
        ];
        if th {
            cs.push(cfgs::spread());
            cs.push(cfgs::collapse(20));
        }
        let cs = arcs(cs);
        let gaps = ["\n", "\n\n", " ", "\n\n\n", " \n  \n\t\n\n", " --c\n", "\n--c\n", "\n\n--c\n\n", " --[[c]]\n\n", "\n--[[c\n\nd]] ", "\n\n\n\n--c\n\n\n--d\n", "--c\n\n--[[d]]\n\n\n", "\r\n\r\n"];
        let n = gaps.len();
        let most = if th { 4 } else { 3 };
        let jobs: Vec<(&str, usize, usize)> = PAIRS
            .iter()
            .flat_map(|f| {
                let k = f.matches('@').count();
                let sub: Vec<(&str, usize, usize)> = (0..k.saturating_sub(most) + 1).map(|at| (*f, at, most.min(k))).collect();
                sub
            })
            .flat_map(|(f, at, len)| (0..n.pow(len as u32)).map(move |x| (f, at * 16 + len, x)))
            .collect();
        e.par(jobs.len(), |i, l| {
            let (f, w, mut x) = jobs[i];
            let (at, len) = (w / 16, w % 16);
            let mut src = String::new();
            for (k, part) in f.split('@').enumerate() {
                if k > 0 {
                    let g = k - 1;
                    if g >= at && g < at + len {
                        src += gaps[x % n];
                        x /= n;
                    } else {
                        src += "\n";
                    }
                }
                src += part;
            }
            for c in &cs {
                e.check(p, &Case::new(&src, c), l);
            }
        });
        sweep_texts(e, p, &odd_texts(), &cs);
        sweep_texts(e, p, &crate::lexical::long_texts(if th { 1100 } else { 300 }), &cs);
        sweep_texts(e, p, &rich(), &two_options(&[cfgs::shipped(), cfgs::spread(), cfgs::empty()], &super::basic::in_domain));
        sweep(e, p, &standard(if th { 2 } else { 1 }), &cs);
    },
    judge: lines,
};
