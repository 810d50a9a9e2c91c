//! C22 spacing, C23 comment layout, C24 line breaks and indentation: the output against the reference model of layout.rs.

use super::*;
use crate::cfgs::V;
use crate::layout::{self, Piece};
use crate::{lexical, wide};

/// Compare every gap of the output with the model; the property looks at the gaps of its own kind.
fn conform(c: &Case, mine: Piece) -> Verdict {
    let sp = parsed(&c.src);
    let sp = match sp.as_ref() {
        Ok(p) => p,
        Err(_) => return Verdict::Trivial,
    };
    let m = match layout::model(&c.src, sp, &c.cfg) {
        Some(m) => m,
        None => return Verdict::Trivial,
    };
    let out = match format(&c.src, &c.cfg, c.range) {
        Out::Ok(o) => o,
        _ => return Verdict::Trivial,
    };
    // the model's gaps: (text, kind)
    let mut want: Vec<(String, Piece)> = vec![(String::new(), Piece::Blank)];
    let mut toks: Vec<&str> = vec![];
    let mut at = 0;
    for (end, k) in &m.pieces {
        let t = &m.text[at..*end];
        at = *end;
        if *k == Piece::Code {
            if !t.is_empty() {
                toks.push(t);
                want.push((String::new(), Piece::Blank));
            }
        } else {
            let g = want.last_mut().unwrap();
            g.0 += t;
            g.1 = match (g.1, *k) {
                (Piece::Comment, _) | (_, Piece::Comment) => Piece::Comment,
                (Piece::Break, _) | (_, Piece::Break) => Piece::Break,
                _ => Piece::Blank,
            };
        }
    }
    // the output's gaps: between the tokens of the model
    let mut have: Vec<&str> = vec![];
    let items = match lua::lex(&out, false) {
        Ok(i) => i,
        Err(_) => return Verdict::Trivial,
    };
    let mut last = 0;
    for it in items.iter().filter(|i| !i.is_comment()) {
        have.push(&out[last..it.s]);
        last = it.e;
    }
    have.push(&out[last..]);
    let mut trivial = true;
    if have.len() != want.len() {
        return Verdict::Trivial;
    }
    for (i, (h, (w, kind))) in have.iter().zip(want.iter()).enumerate() {
        let lines = |s: &str| s.matches('\n').count();
        if *kind != mine {
            // no line is broken, and none joined, where no option asks for it
            if mine == Piece::Break && lines(h) != lines(w) {
                return Verdict::Fail(format!("{:?} written where {:?} is asked for\n  output:   {:?}\n  expected: {:?}", h, w, out, m.text));
            }
            continue;
        }
        trivial = false;
        if *h != w {
            let show = |i: Option<usize>| i.and_then(|i| toks.get(i)).copied().unwrap_or("(the end)");
            return Verdict::Fail(format!(
                "between {} and {}: {:?} written, {:?} asked for\n  output:   {:?}\n  expected: {:?}",
                if i == 0 { "(the beginning)" } else { show(Some(i - 1)) },
                show(Some(i)),
                h,
                w,
                out,
                m.text
            ));
        }
    }
    if trivial {
        Verdict::Trivial
    } else {
        Verdict::Pass
    }
}

fn b(v: bool) -> Option<V> {
    Some(V::B(v))
}
fn s(x: &str) -> Option<V> {
    Some(V::S(x.into()))
}

/// Blanks normalised, line breaks of the source removed.
fn flat() -> Cfg {
    let mut c = cfgs::empty().with("replace_zero_spaces_with_hint", b(true)).with("remove_spaces_between_tokens", b(true)).with("remove_all_newlines", b(true));
    c.name = "flat".into();
    c
}


/// Every combination of the given option values around a base.
fn product(base: &Cfg, dims: &[(&'static str, Vec<Option<V>>)]) -> Vec<Cfg> {
    let mut out = vec![base.clone()];
    for (n, vs) in dims {
        out = out.iter().flat_map(|c| vs.iter().map(|v| c.with(n, v.clone())).collect::<Vec<_>>()).collect();
    }
    for c in &mut out {
        let set: Vec<String> = c.set.iter().map(|(n, v)| format!("{}={:?}", n, v.text())).collect();
        c.name = format!("{{{}}}", set.join(" "));
    }
    cfgs::dedup(out)
}

fn u(n: usize) -> Option<V> {
    Some(V::U(n))
}

/// The shipped options without widths.
fn open() -> Cfg {
    let mut c = cfgs::shipped();
    c.set.retain(|(n, _)| !n.starts_with("force_single_line") && *n != "max_width");
    c.name = "open".into();
    c
}

const SPACES: &[&str] = &["replace_zero_spaces_with_hint", "remove_spaces_between_tokens"];

fn space_cfgs() -> Vec<Cfg> {
    let z = || vec![None, b(true)];
    let mut v = product(
        &cfgs::empty(),
        &[
            (SPACES[0], z()),
            (SPACES[1], z()),
            ("remove_single_newlines", z()),
            ("remove_all_newlines", z()),
            ("hint_table_constructor", vec![None, s(""), s(" "), s("\t ")]),
        ],
    );
    v.push(open());
    v.push(open().with("newline_format_binary_op", u(2)));
    v
}

/// Gaps made of up to `n` comments and line breaks, with and without blanks between them.
fn comment_gaps(n: usize) -> Vec<String> {
    const ELS: &[&str] = &["\n", "\n\n", "--c\n", "--[[c]]", "--\n", "-- [[c \n", "--[=[ c]] ]=]", "--[[c\n d]]"];
    let mut seqs: Vec<Vec<&str>> = vec![vec![]];
    let mut out = vec![];
    for _ in 0..n {
        seqs = seqs.iter().flat_map(|q| ELS.iter().map(|e| { let mut q = q.clone(); q.push(*e); q }).collect::<Vec<_>>()).collect();
        for q in &seqs {
            for b in ["", " ", "\t "] {
                let mut t = b.to_string();
                for e in q {
                    t += e;
                    t += b;
                }
                out.push(t);
            }
        }
    }
    out
}

/// Gaps made of exactly `n` of the simplest comments and line breaks.
fn plain_comment_gaps(n: usize) -> Vec<String> {
    let mut seqs = vec![String::new()];
    for _ in 0..n {
        seqs = seqs.iter().flat_map(|q| ["\n", "\n\n", "--c\n", "--[[c]]", " "].map(|x| format!("{}{}", q, x))).collect();
    }
    seqs.retain(|q| !q.contains("  ") && !q.contains("\n\n\n"));
    seqs
}

const FRAMES: &[&str] = &[
    "@a@=@b@,@c@d@(@e@)@",
    "@do@local@a@=@-@b@..@c@end@return@;@",
    "@if@a@then@b@(@)@else@c@'d'@end@",
    "@a@=@{@b@,@c@=@d@;@}@",
    "@a@.@b@:@c@(@function@(@x@)@return@x@end@,@{@}@)@[@1@]@=@not@y@",
    "#!s\n@a@(@)@",
    "@for@i@=@1@,@2@do@end@goto@l@::@l@::@;@(@f@)@(@)@",
];

/// Every frame with the gap in every place.
fn framed(frames: &[&str], gaps: &[String]) -> Vec<String> {
    let mut out = vec![];
    for f in frames {
        let parts: Vec<&str> = f.split('@').collect();
        for at in 1..parts.len() {
            for g in gaps {
                let mut t = parts[0].to_string();
                for (i, p) in parts.iter().enumerate().skip(1) {
                    t += if i == at {
                        g
                    } else if i > 1 && i < parts.len() - 1 {
                        " "
                    } else {
                        ""
                    };
                    t += p;
                }
                out.push(t);
            }
        }
    }
    out
}

pub static C22: Prop = Prop {
    id: "C22",
    level: "exploration",
    rule: "All combinations of the options about blanks, the removal of line breaks and the table hint (64 sets) and the shipped options without widths, each documented option at every value \
           around five base sets, over the standard space of programs (all programs to a weight bound with every trivia in every gap, lists, nests) and every construct with every filling in one or two places. The text of every gap without comment and \
           without a line break asked for is compared (also: every option and every two options set to anything (or left out) around several base sets, over six programs of intricate statements) with the reference model. Non-trivial: the option set is covered by the model and there is such a gap.",
    assumptions: &["reference model of the layout built on the independent parser", "no width in reach of the text, or no one-line option (C11 and C26 decide those)", "gaps of blanks, tabs and line feeds only"],
    explore: |e, p| {
        let th = e.thorough();
        let cs = arcs(space_cfgs());
        sweep_texts(e, p, &odd_texts(), &cs);
        sweep_texts(e, p, &lexical::sized_texts(), &cs);
        sweep_texts(e, p, &lexical::literal_texts(if th { 3 } else { 1 }), &cs);
        sweep_texts(e, p, &lexical::long_texts(if th { 5000 } else { 600 }), &arcs(vec![flat(), open()]));
        sweep_texts(e, p, &framed(FRAMES, &["", " ", "\t", "\n", "  ", " \n", "\n ", "\n\n", " \n \n ", "\n\t\n\n"].map(|x| x.to_string())), &cs);
        sweep(e, p, &items(fillings(1, 1), Vary::Two), &cs);
        sweep(e, p, &items(fillings(2, if th { 1 } else { 5 }), Vary::Layouts), &arcs(vec![flat(), open()]));
        sweep(e, p, &standard(0), &single_cfgs());
        sweep(e, p, &standard(1), &if th { cs.clone() } else { arcs(vec![flat(), open()]) });
        sweep(e, p, &items(mixed_nests(2), Vary::Layouts), &cs);
        sweep_texts(e, p, &rich(), &two_options(&[open(), flat()], &layout::covered));
        if th {
            sweep(e, p, &standard(2), &arcs(vec![flat(), open()]));
        }
    },
    judge: |c| conform(c, Piece::Blank),
};

pub static C23: Prop = Prop {
    id: "C23",
    level: "exploration",
    rule: "Seven program frames with, in every place, every sequence of up to two (thorough: three) comments and line breaks of eight kinds with three kinds of blanks between them, under 40 sets; \
           one-comment gaps under every combination of the comment options (3072 sets) and of the removal options (256 sets); every comment body to a length bound under every combination of \
           the comment text options; sequences of three and four (thorough: five) plain comments under 512 sets; the standard space and the constructs with fillings. Also every option and every two options set to anything (or left out) around several base sets, over six programs of intricate statements. Every gap that has comments is compared with the reference model. Non-trivial: there is such a gap and the set is covered.",
    assumptions: &["reference model of the layout built on the independent parser", "no width in reach of the text, or no one-line option (C11 and C26 decide those)", "blanks, tabs and line feeds only outside comments"],
    explore: |e, p| {
        let th = e.thorough();
        let z = || vec![None, b(true)];
        let nl = || vec![None, u(1)];
        let h = || vec![None, s(" ")];
        let texts = product(
            &cfgs::empty(),
            &[
                ("hint_before_oneline_comment_text", vec![None, s(""), s(" "), s(" \t")]),
                ("hint_before_multiline_comment_text", vec![None, s(""), s(" ")]),
                ("hint_after_multiline_comment_text", vec![None, s(""), s(" "), s("  ")]),
            ],
        );
        let layouts = product(
            &cfgs::empty(),
            &[
                ("hint_before_comment", h()),
                ("hint_after_multiline_comment", h()),
                ("hint_before_oneline_comment_text", vec![None, s(""), s(" ")]),
                ("hint_before_multiline_comment_text", h()),
                ("hint_after_multiline_comment_text", h()),
                ("newline_format_first_oneline_comment", nl()),
                ("newline_format_first_multiline_comment", nl()),
                ("newline_format_oneline_comment", nl()),
                ("newline_format_multiline_comment", nl()),
                ("remove_spaces_between_tokens", z()),
                ("indentation_string", vec![None, s("\t")]),
            ],
        );
        let removal = product(
            &cfgs::empty(),
            &[
                ("remove_comments", z()),
                ("remove_all_newlines", z()),
                ("remove_single_newlines", z()),
                ("replace_zero_spaces_with_hint", z()),
                ("remove_spaces_between_tokens", z()),
                ("hint_before_comment", h()),
                ("newline_format_oneline_comment", nl()),
                ("newline_format_statement", nl()),
            ],
        );
        let mut some = vec![flat(), cfgs::empty(), open(), cfgs::spread(), cfgs::dense()];
        for n in [
            "newline_format_first_oneline_comment",
            "newline_format_first_multiline_comment",
            "newline_format_oneline_comment",
            "newline_format_multiline_comment",
        ] {
            some.push(open().with(n, u(1)));
            some.push(cfgs::empty().with(n, u(1)).with("indentation_string", s("  ")));
            some.push(flat().with(n, u(1)));
        }
        for n in ["hint_before_comment", "hint_after_multiline_comment"] {
            for v in ["", " ", "   "] {
                some.push(open().with(n, s(v)));
                some.push(flat().with(n, s(v)));
                some.push(cfgs::empty().with(n, s(v)));
            }
        }
        for n in ["remove_comments", "remove_all_newlines", "write_newline_at_multiline_table", "indent_one_line_exp_list", "indent_one_line_var_suffix"] {
            some.push(open().with(n, b(true)));
        }
        let some = arcs(cfgs::dedup(some));
        let (texts, layouts, removal) = (arcs(texts), arcs(layouts), arcs(removal));
        sweep_texts(e, p, &odd_texts(), &some);
        let gaps = comment_gaps(1);
        sweep_texts(e, p, &framed(&FRAMES[..1], &gaps), &layouts);
        sweep_texts(e, p, &framed(FRAMES, &gaps), &removal);
        sweep_texts(e, p, &framed(FRAMES, &gaps), &texts);
        sweep_texts(e, p, &framed(FRAMES, &comment_gaps(2)), &some);
        let grouped = arcs(product(
            &cfgs::empty(),
            &[
                ("newline_format_first_oneline_comment", nl()),
                ("newline_format_first_multiline_comment", nl()),
                ("newline_format_oneline_comment", nl()),
                ("newline_format_multiline_comment", nl()),
                ("remove_all_newlines", z()),
                ("remove_single_newlines", z()),
                ("remove_spaces_between_tokens", z()),
                ("hint_before_comment", h()),
                ("remove_comments", z()),
            ],
        ));
        for n in 3..=if th { 5 } else { 4 } {
            sweep_texts(e, p, &framed(&["@do@a@=@b@end@"], &plain_comment_gaps(n)), &grouped);
        }
        sweep(e, p, &items(fillings(1, 1), Vary::GapShort), &arcs(vec![open()]));
        sweep_texts(e, p, &lexical::long_texts(if th { 5000 } else { 600 }), &arcs(vec![flat(), open()]));
        sweep_texts(e, p, &lexical::comment_texts(if th { 4 } else { 3 }), &texts);
        sweep(e, p, &standard(0), &single_cfgs());
        sweep(e, p, &standard(1), &arcs(vec![open()]));
        sweep_texts(e, p, &rich(), &two_options(&[open(), cfgs::empty()], &layout::covered));
        if th {
            sweep_texts(e, p, &framed(FRAMES, &gaps), &layouts);
            sweep_texts(e, p, &framed(&FRAMES[..5], &comment_gaps(3)), &some);
            sweep(e, p, &standard(1), &some);
        }
    },
    judge: |c| conform(c, Piece::Comment),
};

const BREAKS: &[&str] = &[
    "newline_format_statement",
    "newline_format_do_end",
    "newline_format_for",
    "newline_format_function",
    "newline_format_if",
    "newline_format_repeat_until",
    "newline_format_while",
    "newline_format_table_constructor",
    "newline_format_table_field",
    "newline_format_binary_op",
    "newline_format_var_suffix",
    "newline_format_exp_list",
    "newline_format_exp_list_first",
];

pub static C24: Prop = Prop {
    id: "C24",
    level: "exploration",
    rule: "Every one and every two of the 13 line-break options set (the binary operator one in both its ways), with every combination of the four continuation indentation options and two kinds \
           of source line breaks kept or removed; every subset of the 13 options on nested programs (thorough); each documented option at every value around five base sets; over the standard \
           space. Also every option and every two options set to anything (or left out) around several base sets, over six programs of intricate statements. The text of every gap where a line break is asked for is compared with the reference model, and every other gap without comments must not gain a break (gaps with comments: the number of line breaks must agree). Non-trivial: a break is \
           asked for somewhere.",
    assumptions: &["reference model of the layout built on the independent parser", "no width in reach of the text, or no one-line option (C11 and C26 decide those)"],
    explore: |e, p| {
        let th = e.thorough();
        let unit = flat().with("indentation_string", s("  "));
        let kept = cfgs::empty().with("indentation_string", s("\t")).with("remove_spaces_between_tokens", b(true));
        let mut base = vec![];
        for c in [&unit, &kept] {
            for ind in [&[][..], &["indent_exp_list", "indent_var_suffix"], &["indent_exp_list", "indent_var_suffix", "indent_one_line_exp_list", "indent_one_line_var_suffix"]] {
                base.push(ind.iter().fold(c.clone(), |c, n| c.with(n, b(true))));
            }
        }
        let val = |n: &str| if n == "newline_format_binary_op" { vec![1, 2] } else { vec![1] };
        let mut one = vec![];
        let mut two = vec![];
        for c in &base {
            for (i, n) in BREAKS.iter().enumerate() {
                for x in val(n) {
                    let d = c.with(n, u(x));
                    for m in &BREAKS[i + 1..] {
                        for y in val(m) {
                            two.push(d.with(m, u(y)));
                        }
                    }
                    one.push(d);
                }
            }
            for n in ["write_newline_at_eof", "write_newline_at_multiline_table"] {
                one.push(c.with(n, b(true)));
            }
            for first in [false, true] {
                let d = c.with("write_newline_at_explist_multiline_table", b(true)).with("write_newline_at_multiline_table", b(first));
                one.push(d.with("newline_format_exp_list", u(1)));
                one.push(d.with("newline_format_exp_list_first", u(1)));
                one.push(d);
            }
        }
        let (one, two) = (arcs(cfgs::dedup(one)), arcs(cfgs::dedup(two)));
        let few = arcs(vec![open(), open().with("newline_format_binary_op", u(2)), open().with("newline_format_exp_list_first", u(1)), cfgs::spread()]);
        let nested = || items(mixed_nests(2), Vary::Two);
        sweep_texts(e, p, &odd_texts(), &one);
        sweep_texts(e, p, &lexical::sized_texts(), &few);
        sweep_texts(e, p, &lexical::long_texts(if th { 5000 } else { 600 }), &few);
        sweep(e, p, &standard(0), &one);
        sweep(e, p, &nested(), &one);
        sweep(e, p, &items(fillings(1, 1), Vary::Two), &one);
        sweep(e, p, &items(fillings(2, if th { 1 } else { 5 }), Vary::Two), &few);
        sweep(e, p, &items(showcase(), Vary::GapShort), &one);
        sweep(e, p, &items(showcase(), Vary::Two), &two);
        sweep(e, p, &progs(1, Vary::Two), &two);
        sweep(e, p, &standard(0), &single_cfgs());
        sweep(e, p, &standard(if th { 2 } else { 1 }), &few);
        sweep(e, p, &items(mixed_nests(3), Vary::Two), &few);
        // any two options, set to anything or left out
        let kinks: Vec<String> = KINKS.iter().map(|s| s.to_string()).chain(rich()).collect();
        sweep_texts(e, p, &kinks, &two_options(&[open()], &layout::covered));
        sweep_texts(e, p, &rich(), &two_options(&[unit.clone()], &layout::covered));
        if th {
            sweep(e, p, &items(showcase(), Vary::Two), &two_options(&[open(), cfgs::spread(), unit.clone()], &layout::covered));
            sweep(e, p, &standard(1), &one);
            sweep(e, p, &nested(), &two);
            let mut all = vec![unit.with("indent_exp_list", b(true)).with("indent_var_suffix", b(true))];
            for n in BREAKS {
                all = all.iter().flat_map(|c| [c.clone(), c.with(n, u(1))]).collect();
            }
            let all = arcs(cfgs::dedup(all));
            sweep(e, p, &items(showcase(), Vary::Two), &all);
            sweep(e, p, &nested(), &all);
            sweep(e, p, &items(mixed_nests(4), Vary::Two), &few);
        }
    },
    judge: |c| conform(c, Piece::Break),
};

/// Everything that decides which constructs stand on one line, at one maximum width.
fn conform_wide(c: &Case) -> Verdict {
    let sp = parsed(&c.src);
    let sp = match sp.as_ref() {
        Ok(p) => p,
        Err(_) => return Verdict::Trivial,
    };
    let want = match wide::model(&c.src, sp, &c.cfg) {
        Some(m) => m,
        None => return Verdict::Trivial,
    };
    let out = match format(&c.src, &c.cfg, c.range) {
        Out::Ok(o) => o,
        _ => return Verdict::Trivial,
    };
    if out == want {
        return Verdict::Pass;
    }
    let at = out.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let line = want.as_bytes()[..at].iter().filter(|b| **b == b'\n').count() + 1;
    Verdict::Fail(format!("line {} is not laid out as the options ask for\n  output:   {:?}\n  expected: {:?}", line, out, want))
}

/// The lines the text is broken into, against the model: where a gap between two tokens has a line break.
pub fn broken_as_modelled(c: &Case) -> Verdict {
    let sp = parsed(&c.src);
    let sp = match sp.as_ref() {
        Ok(p) => p,
        Err(_) => return Verdict::Trivial,
    };
    let (want, out) = match (wide::model(&c.src, sp, &c.cfg), format(&c.src, &c.cfg, c.range)) {
        (Some(m), Out::Ok(o)) => (m, o),
        _ => return Verdict::Trivial,
    };
    if want == out {
        return Verdict::Pass;
    }
    // tokens and whether the line is broken in front of them; a separator before a closing brace comes and goes
    let lines = |s: &str| -> Option<Vec<(String, bool)>> {
        let items = lua::lex(s, false).ok()?;
        let mut v: Vec<(String, bool)> = vec![];
        let mut last = 0;
        for it in items.iter().filter(|i| !i.is_comment()) {
            let t = it.text(s);
            if t == "}" && v.last().map_or(false, |x| x.0 == "," || x.0 == ";") {
                v.pop();
            }
            v.push((t.to_string(), s[last..it.s].contains('\n')));
            last = it.e;
        }
        Some(v)
    };
    let (a, b) = match (lines(&out), lines(&want)) {
        (Some(a), Some(b)) if a.len() == b.len() => (a, b),
        _ => return Verdict::Trivial,
    };
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        if x.1 != y.1 {
            return Verdict::Fail(format!(
                "the line is {}broken between {} and {}\n  output:   {:?}\n  expected: {:?}",
                if x.1 { "" } else { "not " },
                if i == 0 { "the beginning" } else { &a[i - 1].0 },
                x.0,
                out,
                want
            ));
        }
    }
    Verdict::Pass
}

/// A source under an option set with every maximum width up to two more than its longest line, and without.
fn every_width(e: &Arc<Engine>, p: &'static Prop, src: &str, c: &Cfg, l: &mut Local) {
    let at = |w: Option<usize>| {
        let mut d = c.with("max_width", w.map(V::U));
        d.name = format!("{} width {:?}", c.name, w);
        Arc::new(d)
    };
    // both as it is and as it should be
    let lines = |o: &str| o.lines().map(|x| x.chars().count()).max().unwrap_or(0);
    let all = at(Some(1_000_000));
    let mut longest = match stable::reference_run(src, &all) {
        Out::Ok(o) => lines(&o),
        _ => return,
    };
    if let Ok(sp) = parsed(src).as_ref() {
        longest = longest.max(wide::model(src, sp, &all).map_or(0, |m| lines(&m)));
    }
    l.add("pairs_of_source_and_options", 1);
    e.check(p, &Case::new(src, &at(None)), l);
    for w in 0..=longest + 2 {
        e.check(p, &Case::new(src, &at(Some(w))), l);
    }
}

fn sweep_widths(e: &Arc<Engine>, p: &'static Prop, items: &[Item], cfgs: &[Cfg]) {
    e.par(items.len(), |i, l| {
        items[i].each(&mut |src| {
            l.add("sources", 1);
            for c in cfgs {
                every_width(e, p, src, c, l);
            }
        });
    });
}

pub fn sweep_texts_widths(e: &Arc<Engine>, p: &'static Prop, texts: &[String], cfgs: &[Cfg]) {
    e.par(texts.len(), |i, l| {
        l.add("sources", 1);
        for c in cfgs {
            every_width(e, p, &texts[i], c, l);
        }
    });
}

/// Option sets for products of the options of one kind of construct, under widths.
pub fn families() -> Vec<(&'static str, Vec<Cfg>)> {
    let z = || vec![None, b(true)];
    let t3 = || vec![None, b(false), b(true)];
    let n2 = || vec![None, u(1)];
    let n3 = || vec![None, u(0), u(1)];
    let base = flat()
        .with("remove_all_newlines", None)
        .with("remove_single_newlines", b(true))
        .with("indentation_string", s("  "))
        .with("hint_before_comment", s(" "));
    vec![
        (
            "if",
            product(
                &base,
                &[
                    ("newline_format_if", n3()),
                    ("newline_format_function", n3()),
                    ("force_single_line_if", t3()),
                    ("force_single_line_top_level_function", z()),
                    ("force_single_line_scoped_function", z()),
                    ("newline_format_statement", n2()),
                ],
            ),
        ),
        (
            "table",
            product(
                &base,
                &[
                    ("newline_format_table_constructor", n3()),
                    ("newline_format_table_field", n2()),
                    ("force_single_line_table", z()),
                    ("force_single_line_iv_table_field", z()),
                    ("force_single_line_kv_table_field", z()),
                    ("write_trailing_field_separator", t3()),
                    ("write_newline_at_multiline_table", t3()),
                    ("field_separator", vec![None, s(";")]),
                ],
            ),
        ),
        (
            "table",
            product(
                &base,
                &[
                    ("newline_format_table_constructor", n2()),
                    ("newline_format_table_field", n2()),
                    ("force_single_line_table", z()),
                    ("force_single_line_iv_table_field", z()),
                    ("write_newline_at_explist_multiline_table", t3()),
                    ("write_newline_at_multiline_table", t3()),
                    ("newline_format_exp_list", n2()),
                    ("newline_format_exp_list_first", n2()),
                    ("force_single_line_exp_list", z()),
                    ("indent_exp_list", z()),
                ],
            ),
        ),
        (
            "suffix",
            product(
                &base,
                &[
                    ("newline_format_var_suffix", n2()),
                    ("force_single_line_var_suffix", z()),
                    ("indent_var_suffix", z()),
                    ("indent_one_line_var_suffix", z()),
                    ("newline_format_exp_list", n2()),
                    ("newline_format_exp_list_first", n3()),
                    ("force_single_line_exp_list", z()),
                    ("indent_exp_list", z()),
                    ("indent_one_line_exp_list", z()),
                ],
            ),
        ),
        (
            "list",
            product(
                &base,
                &[
                    ("newline_format_exp_list", n3()),
                    ("newline_format_exp_list_first", n3()),
                    ("force_single_line_exp_list", t3()),
                    ("indent_exp_list", t3()),
                    ("indent_one_line_exp_list", t3()),
                    ("indentation_string", vec![None, s("\t")]),
                ],
            ),
        ),
        (
            "op",
            product(
                &base,
                &[
                    ("newline_format_binary_op", vec![None, u(0), u(1), u(2)]),
                    ("force_single_line_binary_op", t3()),
                    ("newline_format_var_suffix", n2()),
                    ("force_single_line_var_suffix", z()),
                    ("indent_var_suffix", z()),
                    ("newline_format_exp_list", n2()),
                    ("force_single_line_exp_list", z()),
                    ("indent_exp_list", z()),
                ],
            ),
        ),
    ]
}

/// The sources that have the construct.
pub fn having(kind: &str, texts: Vec<String>) -> Vec<String> {
    let is = |p: &Parsed| match kind {
        "if" => !p.ifs.is_empty() || !p.fbodies.is_empty(),
        "table" => p.tables.iter().any(|t| !t.fields.is_empty()),
        "op" => !p.ops.is_empty(),
        "suffix" => !p.chains.is_empty(),
        _ => p.lists.iter().any(|l| l.kind == "exp" && l.items.len() > 1),
    };
    texts.into_iter().filter(|t| parsed(t).as_ref().as_ref().map_or(false, is)).collect()
}

fn spelled(its: Vec<Item>) -> Vec<String> {
    let mut v = vec![];
    for i in its {
        i.each(&mut |s| v.push(s.to_string()));
    }
    v
}

/// Layouts with lines broken inside, where the width matters for what is around them.
pub const KINKS: &[&str] = &[
    "f({ --c\n a, b }, { c })",
    "x = { { a, b }, { c, d }, { e } }",
    "x = { a, function() return b end, { c = d } }",
    "x = { k = { a, b }, j = { --[[c]] c } }",
    "x = { {}, { {} }, f{}, g{ {} } }",
    "f(a, --c\n b, { c, d })",
    "f(function() g() end, function() return { a, b } end)",
    "a.b --c\n .c:d(e).f = g",
    "a:b{ c, d }:e'f':g(h, i)[j].k()",
    "x = a --c\n + b * c",
    "x = (a .. b):c(d .. e) .. f",
    "if a then f{ b, c } end",
    "if a --c\n then b() end",
    "if a then b() --c\n end",
    "local function f() return function() return { a, { b } } end end",
    "return { a, b }, { c }",
    "x = { f(a, { b }), { c } }",
    "f(a, { { b }, f{ c } })",
    "f( --c\n a, b)",
    "a: --[[c]] b{ c }: d --[[e]] (f):g --[[h]] 'i'",
    "a: --c\n b(c): d --e\n ().f.g = h",
    "f'a''b'{ c }[[d]](e)",
    "x = { [a] = b --c\n, d = e; --[[f]] }",
    "x = { a --c\n, { b --[[d]] }; --e\n }",
    "x = - -- c\n a ^ - b ^ c .. d .. not e",
    "function f(a, --c\n b, ...) return a end",
    "if a then b() elseif c then else d{ e } end",
    "f(a)(function() if b then return end end)",
    "do local x <const>, y = { a }, f(b, c) end",
    "for k, v in pairs({ a, b }), c do f(k)(v){ k }'v' end",
];

fn conform_width_cases(e: &Arc<Engine>, p: &'static Prop) {
    let th = e.thorough();
    let kinks: Vec<String> = KINKS.iter().map(|s| s.to_string()).filter(|s| lua::parse(s, false).is_ok()).collect();
    assert!(kinks.len() > 15);
    let kinds: Vec<Cfg> = shape::KINDS.iter().map(|k| k.0).chain(["shipped"]).map(|k| (*shape::width_cfg(k, 0)).clone()).chain([cfgs::collapse(0)]).collect();
    let texts = shape::width_texts();
    let short: Vec<String> = texts.iter().filter(|t| t.len() < 42).cloned().chain(kinks.clone()).collect();
    let show = || items(showcase(), Vary::Two);
    let few = [cfgs::shipped(), cfgs::collapse(0)];
    sweep_texts_widths(e, p, &short, &kinds);
    sweep_texts_widths(e, p, &texts, &kinds);
    sweep_widths(e, p, &standard(0), &kinds);
    for (kind, cs) in families() {
        // every kind of break with few programs first, then more programs
        let few: Vec<String> = having(kind, kinks.clone());
        sweep_texts_widths(e, p, &few, &cs);
        if th {
            sweep_texts_widths(e, p, &having(kind, texts.clone()), &cs);
            sweep_texts_widths(e, p, &having(kind, spelled(show())), &cs);
        }
    }
    let near = cfgs::dedup([cfgs::shipped(), cfgs::collapse(0)].iter().flat_map(cfgs::singles).filter(|c| c.name.find("max_width").is_none()).collect());
    sweep_texts_widths(e, p, &kinks, &near);
    sweep_texts_widths(e, p, &rich(), &near);
    let any = two_options(&[cfgs::shipped().with("max_width", u(24)), cfgs::collapse(24)], &|_| true);
    sweep_texts(e, p, &rich(), &any);
    sweep_widths(e, p, &items(fillings(1, 1), Vary::Two), &few);
    let mut at = vec![];
    for c in &few {
        for w in if th { &[20, 40, 80, 110, 300, 1000, 9000][..] } else { &[40, 110, 300] } {
            at.push(c.with("max_width", u(*w)));
        }
    }
    sweep_texts(e, p, &lexical::long_texts(if th { 1100 } else { 300 }), &arcs(at));
    sweep_widths(e, p, &items(mixed_nests(2), Vary::Two), &kinds);
    sweep_widths(e, p, &items(all_lists(2..=2), Vary::GapShort), &kinds);
    sweep_widths(e, p, &items(all_nests(2..=2), Vary::GapShort), &kinds);
    if th {
        sweep_widths(e, p, &show(), &near);
        sweep_widths(e, p, &items(fillings(1, 1), Vary::Two), &kinds);
        sweep_widths(e, p, &items(fillings(2, 5), Vary::Two), &few);
        sweep_widths(e, p, &items(showcase(), Vary::GapShort), &kinds);
        sweep_widths(e, p, &items(all_lists(3..=3), Vary::GapShort), &kinds);
        sweep_widths(e, p, &items(all_nests(3..=3), Vary::GapShort), &kinds);
        sweep_widths(e, p, &progs(1, Vary::Gap), &kinds);
        sweep_widths(e, p, &progs(2, Vary::Two), &kinds);
        sweep_widths(e, p, &items(mixed_nests(3), Vary::Two), &kinds);
        sweep_widths(e, p, &standard(1), &[cfgs::shipped()]);
    }
}

pub static C26: Prop = Prop {
    id: "C26",
    level: "exploration",
    rule: "Every maximum width from 0 to two more than the longest line, and none, for: the option sets that collapse one kind of construct, the shipped ones and all of them together, over the \
           standard space, every construct with every filling in one or two places, sources with names of growing length and nested constructs with comments inside; the full product of the options of each family (if and function; tables twice; \
           suffixes with argument lists; lists; operators: 192 to 1152 sets) and each documented option at every value around the shipped and the all-collapsing sets. Also every option and every two options set to anything (or left out) around several base sets, over six programs of intricate statements. The whole output is \
           compared with the text of a reference model of the layout. Non-trivial: the model covers program and options.",
    assumptions: &["reference model of the layout built on the independent parser", "gaps of blanks, tabs and line feeds only", "no line range"],
    explore: conform_width_cases,
    judge: conform_wide,
};
