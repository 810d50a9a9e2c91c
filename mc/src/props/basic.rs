//! C01 program, C02 comments, C03 no options.

use super::*;
use crate::lexical;
use crate::compare::{self, allow, diff, full, trims};

/// Removing blanks between tokens without the option that puts a blank back where it is needed is outside the domain:
/// the repository's own tests ask for merged tokens there.
pub fn in_domain(c: &Cfg) -> bool {
    !(c.is("remove_spaces_between_tokens") && !c.is("replace_zero_spaces_with_hint"))
}

fn cfgs_in_domain(v: Vec<Arc<Cfg>>) -> Vec<Arc<Cfg>> {
    v.into_iter().filter(|c| in_domain(c)).collect()
}

/// Shared exploration of C01 and C02: sources × option values × ranges.
fn explore_tokens(e: &Arc<Engine>, p: &'static Prop) {
    let bases = arcs(cfgs::bases());
    let depth = if e.thorough() { 2 } else { 1 };
    sweep_texts(e, p, &odd_texts(), &cfgs_in_domain(single_cfgs()));
    let n = if e.thorough() { 4 } else { 3 };
    sweep_texts(e, p, &lexical::comment_texts(n), &bases);
    sweep_texts(e, p, &lexical::sized_texts(), &bases);
    sweep_texts(e, p, &lexical::long_texts(if e.thorough() { 5000 } else { 1100 }), &bases);
    if p.id == "C01" {
        sweep_texts(e, p, &lexical::literal_texts(n), &bases);
    }
    sweep(e, p, &standard(1), &bases);
    // every single option value
    sweep(e, p, &standard(0), &cfgs_in_domain(single_cfgs()));
    let comments: Vec<Item> = items(showcase(), Vary::GapShort).into_iter().chain(progs(0, Vary::GapShort)).collect();
    sweep(e, p, &comments, &cfgs_in_domain(single_cfgs()));
    // every pair of option values on the programs that hold every construct
    let pairs = cfgs_in_domain(arcs(cfgs::dedup(cfgs::pairs(&cfgs::shipped()))));
    sweep(e, p, &items(showcase(), Vary::Two), &pairs);
    sweep_texts(e, p, &rich(), &two_options(&[cfgs::shipped(), cfgs::empty(), cfgs::spread(), cfgs::collapse(24)], &in_domain));
    sweep_ranges(e, p, &range_items(depth), &bases, &[(0, 0), (2, 1), (1, 99), (99, 100)]);
    sweep(e, p, &progs(2, Vary::GapShort), &arcs(vec![cfgs::shipped(), cfgs::collapse(12)]));
    if e.thorough() {
        for b in [cfgs::empty(), cfgs::dense(), cfgs::spread(), cfgs::collapse(20)] {
            let pairs = cfgs_in_domain(arcs(cfgs::dedup(cfgs::pairs(&b))));
            sweep(e, p, &items(showcase(), Vary::Two), &pairs);
        }
        sweep(e, p, &standard(2), &bases);
    }
}

pub static C01: Prop = Prop {
    id: "C01",
    level: "exploration",
    rule: "sources: every derivation of a weighted Lua 5.3 grammar up to a weight bound, long lists, deep nestings, every literal in every position; \
           layouts: uniform layouts, every trivia in every gap, pairs of gaps; options: five base configurations, every single option value around each, \
           every pair of option values; every option and every two options set to anything (or left out) around several base sets, over six programs of intricate statements; line ranges: every range of lines. Non-trivial: valid Lua by the independent parser and accepted by the formatter, \
           so that code tokens of source and output were compared.",
    assumptions: &[
        "the independent Lua 5.3 lexer and parser in mc/src/lua.rs",
        "remove_spaces_between_tokens is only combined with replace_zero_spaces_with_hint (the repository's tests pin merged tokens otherwise)",
    ],
    explore: explore_tokens,
    judge: |c| {
        let sp = parsed(&c.src);
        let sp = match &*sp {
            Ok(p) => p,
            Err(_) => return Verdict::Trivial,
        };
        match c.run() {
            Out::Ok(o) => match compare::same_program(&c.src, sp, &o, &c.cfg) {
                Ok(_) => Verdict::Pass,
                Err(m) => Verdict::Fail(format!("{}\noutput: {:?}", m, o)),
            },
            Out::Refused(_) => Verdict::Trivial,
            Out::Failed(m) => Verdict::Fail(format!("formatting error after parsing: {}", m)),
            Out::Panic(m) => Verdict::Fail(format!("panic: {}", m)),
        }
    },
};

pub static C02: Prop = Prop {
    id: "C02",
    level: "exploration",
    rule: "as C01; comments of every form stand in every gap. Non-trivial: the source holds at least one comment, and code tokens and comments of source \
           and output were compared in sequence.",
    assumptions: &["the independent Lua 5.3 lexer and parser in mc/src/lua.rs", "option domain as in C01"],
    explore: explore_tokens,
    judge: |c| {
        let sp = parsed(&c.src);
        let sp = match &*sp {
            Ok(p) => p,
            Err(_) => return Verdict::Trivial,
        };
        let o = match c.run() {
            Out::Ok(o) => o,
            Out::Refused(_) => return Verdict::Trivial,
            x => return Verdict::Fail(format!("{:?}", x)),
        };
        let has = sp.items.iter().any(|i| i.is_comment());
        let op = match lua::parse(&o, true) {
            Ok(p) => p,
            Err(m) => return Verdict::Fail(format!("output is not Lua: {}\noutput: {:?}", m, o)),
        };
        let (a, t) = (allow(&c.cfg), trims(&c.cfg));
        let remove = c.cfg.is("remove_comments");
        let want = full(&c.src, sp, a, t, !remove || c.range.is_some());
        let got = full(&o, &op, a, t, true);
        if remove && c.range.is_some() {
            // comments outside the selected lines stay: what is left is the source with some comments missing
            let mut g = got.iter().peekable();
            for w in &want {
                if g.peek() == Some(&w) {
                    g.next();
                } else if !matches!(w, compare::El::Comment(..)) {
                    return Verdict::Fail(format!("{:?} is missing or moved\noutput: {:?}", w, o));
                }
            }
            if let Some(x) = g.next() {
                return Verdict::Fail(format!("{:?} is new or moved\noutput: {:?}", x, o));
            }
        } else if let Some(d) = diff(&want, &got) {
            return Verdict::Fail(format!("{}\noutput: {:?}", d, o));
        }
        if has {
            Verdict::Pass
        } else {
            Verdict::Trivial
        }
    },
};

pub static C03: Prop = Prop {
    id: "C03",
    level: "exploration",
    rule: "sources as in C01 plus every text of bounded length over a lexical alphabet, under no options, with and without line ranges. Non-trivial: \
           accepted, not empty, compared byte by byte.",
    assumptions: &[],
    explore: |e, p| {
        let none = arcs(vec![cfgs::empty()]);
        let depth = if e.thorough() { 2 } else { 1 };
        sweep_texts(e, p, &odd_texts(), &none);
        sweep_texts(e, p, &lexical::literal_texts(depth + 2), &none);
        sweep_texts(e, p, &lexical::comment_texts(depth + 2), &none);
        sweep_texts(e, p, &lexical::sized_texts(), &none);
        sweep_texts(e, p, &lexical::long_texts(5000), &none);
        sweep(e, p, &standard(depth), &none);
        sweep(e, p, &progs(2, Vary::Gap), &none);
        sweep_ranges(e, p, &range_items(2), &none, &[(0, 0), (2, 1), (1, 99), (99, 100)]);
        chars(e, p, &none, if e.thorough() { 6 } else { 5 }, SHORT_ALPHABET);
    },
    judge: |c| match c.run() {
        Out::Ok(o) => {
            if o == c.src {
                return if o.is_empty() { Verdict::Trivial } else { Verdict::Pass };
            }
            let last_line = c.src.rsplit('\n').next().unwrap_or("");
            let open_end = last_line.trim_start().starts_with("#!") || match lua::lex(&c.src, false) {
                Ok(items) => {
                    items.last().map(|i| (i.k == lua::K::LineComment || i.k == lua::K::Shebang) && i.e == c.src.len()) == Some(true)
                }
                Err(_) => false,
            };
            if open_end && o.strip_suffix('\n') == Some(&c.src) {
                return Verdict::Pass;
            }
            Verdict::Fail(format!("the output differs from the source: {:?}", o))
        }
        Out::Refused(_) => Verdict::Trivial,
        x => Verdict::Fail(format!("{:?}", x)),
    },
};

/// Characters that open, close or extend lexical elements.
pub const SHORT_ALPHABET: &[&str] = &["a", "1", "=", "(", ")", "-", "[", "]", "\"", "'", "\\", "\n", " ", ";", ".", "#", "!"];

/// Every text of at most `n` characters of the alphabet.
pub fn chars(e: &Arc<Engine>, p: &'static Prop, cfgs: &[Arc<Cfg>], n: usize, alphabet: &[&str]) {
    let k = alphabet.len();
    let head = 2.min(n);
    let heads = k.pow(head as u32);
    fn rec(e: &Engine, p: &Prop, cfgs: &[Arc<Cfg>], s: &mut String, left: usize, al: &[&str], l: &mut Local) {
        l.add("texts", 1);
        for c in cfgs {
            e.check(p, &Case::new(s, c), l);
        }
        if left > 0 {
            for a in al {
                let n = s.len();
                s.push_str(a);
                rec(e, p, cfgs, s, left - 1, al, l);
                s.truncate(n);
            }
        }
    }
    e.par(heads, |i, l| {
        let mut s = format!("{}{}", alphabet[i / k], alphabet[i % k]);
        rec(e, p, cfgs, &mut s, n - head, alphabet, l);
    });
}
