//! C06 formatting twice, C07 layout independence.

use super::*;
use crate::lexical;
use crate::cfgs::V;
use crate::gen::{layout, Layout};

pub fn width(w: usize) -> Arc<Cfg> {
    Arc::new(cfgs::shipped().with("max_width", Some(V::U(w))))
}

pub static C06: Prop = Prop {
    id: "C06",
    level: "model_checking",
    rule: "explicit-state graph: a state is a text, a transition is one run of the real formatter; from every source of the enumerated space the graph is \
           followed until a state repeats. Property: the state after the first transition has itself as successor. Sources as in C01, under the shipped \
           options with several maximum widths (for six programs of intricate statements: every one from 1 to 130). Every transition is a run of the implementation.",
    assumptions: &["the shipped option set with any maximum width"],
    explore: |e, p| {
        let ws: &[usize] = &[110, 25, 15, 8, 40, 1, 12, 20, 30, 35, 50, 60, 80, 200];
        let cs: Vec<Arc<Cfg>> = ws.iter().map(|w| width(*w)).collect();
        let odd: Vec<String> = odd_texts();
        sweep_texts(e, p, &odd, &cs);
        sweep_texts(e, p, &lexical::sized_texts(), &cs);
        sweep_texts(e, p, &lexical::long_texts(if e.thorough() { 5000 } else { 1100 }), &cs[..2]);
        let every: Vec<Arc<Cfg>> = (1..=130).map(width).collect();
        sweep_texts(e, p, &rich(), &every);
        let n = if e.thorough() { 4 } else { 3 };
        sweep_texts(e, p, &lexical::comment_texts(n), &cs[..2]);
        sweep_texts(e, p, &lexical::literal_texts(n), &cs[..1]);
        sweep(e, p, &standard(0), &cs);
        sweep(e, p, &progs(0, Vary::Gap), &cs);
        sweep(e, p, &standard(if e.thorough() { 2 } else { 1 }), if e.thorough() { &cs } else { &cs[..2] });
        sweep(e, p, &progs(2, Vary::GapShort), &cs[..1]);
        sweep(e, p, &progs(1, Vary::Gaps2), &cs[..1]);
        sweep(e, p, &items(all_lists(4..=6), Vary::GapShort), &cs[..3]);
        sweep(e, p, &items(mixed_nests(2), Vary::GapShort), &cs[..2]);
        sweep(e, p, &items(wide_texts(), Vary::GapShort), &cs[..3]);
        super::basic::chars(e, p, &cs[..1], if e.thorough() { 6 } else { 4 }, &["a", "=", "1", " ", "\n", "--", "[[", "]]", "c", ";", "{", "}", "\t", "(", ")", ","]);
        if e.thorough() {
            sweep(e, p, &items(mixed_nests(3), Vary::Two), &cs);
            sweep(e, p, &items(all_lists(2..=6), Vary::Gaps2), &cs[..4]);
            sweep(e, p, &items(all_nests(2..=4), Vary::Gap), &cs[..6]);
            sweep(e, p, &items(wide_texts(), Vary::Gaps2), &cs);
        }
        let t = e.count("evaluations");
        e.add("traces_validated_against_impl", t - e.count("trivial"));
        e.add("transitions", 2 * t - e.count("trivial"));
        e.add("states", e.distinct_len() as u64);
    },
    judge: |c| match c.run() {
        Out::Ok(o) => {
            let again = Case { src: o.clone(), cfg: c.cfg.clone(), range: None, extra: None };
            match again.run() {
                Out::Ok(q) if q == o => Verdict::Pass,
                Out::Ok(q) if nested_op_comment(&c.src) => Verdict::Listed(format!("first run:  {:?}\nsecond run: {:?}", o, q)),
                Out::Ok(q) => Verdict::Fail(format!("first run:  {:?}\nsecond run: {:?}", o, q)),
                x => Verdict::Fail(format!("the output is not accepted again: {:?}\nfirst run: {:?}", x, o)),
            }
        }
        Out::Refused(_) => Verdict::Trivial,
        x => Verdict::Fail(format!("{:?}", x)),
    },
};

/// The listed finding of C06: a comment before or after an operator inside brackets that stand in the right operand of
/// another operator.  Where the width makes the formatter break the line next to such a comment, the second run may lay
/// out the outer operator differently.  Failures of such sources are the listed finding; all others are reported.
fn nested_op_comment(src: &str) -> bool {
    let sp = parsed(src);
    let p = match &*sp {
        Ok(p) => p,
        Err(_) => return false,
    };
    let comment_between = |a: usize, b: usize| p.items.iter().any(|i| i.is_comment() && i.s >= p.toks[a].e && i.e <= p.toks[b].s);
    let mut open: Vec<(usize, bool)> = vec![];
    let mut seen_op = false;
    for i in 0..p.toks.len() {
        match p.toks[i].text(src) {
            "(" | "{" | "[" => {
                open.push((i, seen_op));
            }
            ")" | "}" | "]" => {
                open.pop();
            }
            _ if p.binops.contains(&i) => {
                let inside = open.iter().any(|o| o.1);
                if inside && (comment_between(i - 1, i) || comment_between(i, i + 1)) {
                    return true;
                }
                seen_op = true;
            }
            _ => {}
        }
    }
    false
}

/// Programs whose lines come close to the shipped maximum width.
pub fn wide_texts() -> Vec<Toks> {
    let mut out = vec![];
    for n in [20, 35, 48, 49, 50, 51, 52, 53, 54, 60] {
        let x = "x".repeat(n);
        for t in [
            "a = { @ , @ }", "a = { b = @ , c = @ }", "local a = @ + @", "f ( @ , @ )", "if @ then @ ( ) end", "return @ , @", "a = function ( ) return @ .. @ end",
            "@ : b ( ) : c ( @ )", "a . b = { { @ } , { @ } }", "if a then return { @ , @ } else b ( ) end", "for k , v in @ ( @ ) do end", "f ( a , { @ , @ } )",
            "f ( function ( ) @ ( @ ) end )", "a = b and @ or @", "local function a ( @ , @ ) b ( ) end",
        ] {
            out.push(toks(&t.replace('@', &x)));
        }
    }
    out
}

thread_local! {
    static REF: std::cell::RefCell<Option<(String, String, Out)>> = const { std::cell::RefCell::new(None) };
}

/// The run of the reference text; remembers the last one.
pub fn reference_run(text: &str, cfg: &Arc<Cfg>) -> Out {
    REF.with(|r| {
        if let Some((t, c, o)) = r.borrow().as_ref() {
            if t == text && *c == cfg.name {
                return o.clone();
            }
        }
        let o = format(text, cfg, None);
        *r.borrow_mut() = Some((text.to_string(), cfg.name.clone(), o.clone()));
        o
    })
}

/// Trivia that differ only in blanks, by class; the first is the reference.
const CLASSES: &[&[&str]] = &[
    &["", " ", "  ", "\t", " \t ", "\n", " \n ", "\n\t", "\t\n", "\r\n", "\u{b}"],
    &["--c\n", " --c\n", "\t --c\n", "--c\n  ", " --c\n\t", "-- c\n", "--  c\n", "--\tc\n"],
    &["--[[c]]", " --[[c]]", "--[[c]] ", "  --[[c]]\t", "--[[ c]]", "--[[c ]]", "--[[  c\t]]"],
    &["\n--c\n", " \n--c\n", "\n  --c\n", "\t\n --c\n "],
    &["\n--[[c]]\n", "\n  --[[c]]\n  ", " \n--[[c]] \n"],
    &["\n\n", " \n\n", "\n \n", "\n\n  ", "\t\n\t\n\t"],
    &["\n\n\n", "\n \n\t\n "],
    &["\n\n--c\n\n", " \n \n --c\n \n "],
    &["\n\n--[[c]]\n\n", " \n \n --[[c]] \n \n "],
    &["--[[c]]--d\n", " --[[c]] --d\n"],
    &["--c\n--d\n", " --c\n  --d\n  "],
];

pub static C07: Prop = Prop {
    id: "C07",
    level: "exploration",
    rule: "for every token sequence of the space and every gap: every pair (reference trivia, equivalent trivia) of eleven classes (no comment and at most one \
           line break; each form of comment or blank lines with different blanks around), also with a comment in one gap and other spacing in another; \
           the two texts must format to the same text. Also uniform layouts against the minimal one. Non-trivial: two different accepted texts compared.",
    assumptions: &["texts shorter than twice the maximum width (longer ones are a known finding)", "line breaks next to comments are significant and not varied"],
    explore: |e, p| {
        let th = e.thorough();
        let ws: &[usize] = if th { &[110, 40, 20, 60, 80, 30] } else { &[110, 40] };
        let cs: Vec<Arc<Cfg>> = ws.iter().map(|w| width(*w)).collect();
        let mut v = progs(1, Vary::Two);
        v.extend(items(showcase(), Vary::Two));
        v.extend(items(all_lists(1..=3), Vary::Two));
        v.extend(items(all_nests(2..=2), Vary::Two));
        let light = v.len();
        v.extend(progs(2, Vary::Two));
        v.extend(items(all_lists(4..=6), Vary::Two));
        v.extend(items(all_nests(3..=4), Vary::Two));
        v.extend(items(mixed_nests(2), Vary::Two));
        v.extend(items(literals(), Vary::Two));
        e.par(v.len(), |i, l| {
            let t = v[i].toks();
            let base = layout(&t, Layout::Min);
            let reference = base.text();
            let fit = |s: &str, c: &Cfg| s.len() < 2 * c.num("max_width").unwrap_or(0);
            let mut check = |a: &str, b: &str, c: &Arc<Cfg>| {
                if a != b && fit(a, c) && fit(b, c) {
                    e.check(p, &Case::new(b, c).with_extra(a), l);
                }
            };
            for (ci, c) in cs.iter().enumerate() {
                if ci > 0 && !th && i >= light {
                    break;
                }
                for lay in [Layout::Spaced, Layout::Lines, Layout::Natural] {
                    check(&reference, &layout(&t, lay).text(), c);
                }
                for g in 0..base.gaps.len() {
                    for class in CLASSES {
                        if !th && i >= light && class[0] != "" && class[0] != "--[[c]]" {
                            continue;
                        }
                        let r = match class.iter().find(|x| base.gap_ok(g, x)) {
                            Some(r) => base.with_gap(g, r),
                            None => continue,
                        };
                        let rt = r.text();
                        for x in class.iter() {
                            if base.gap_ok(g, x) {
                                check(&rt, &base.with_gap(g, x).text(), c);
                            }
                        }
                        // a comment or blank line here, other spacing in another gap
                        if class[0] != "" && (i < light || th) {
                            for h in 0..base.gaps.len() {
                                if h != g {
                                    for x in ["\n", "  ", " \n\t"] {
                                        if r.gap_ok(h, x) {
                                            check(&rt, &r.with_gap(h, x).text(), c);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        });
    },
    judge: |c| {
        let reference = c.extra.clone().unwrap_or_default();
        let a = reference_run(&reference, &c.cfg);
        match (a, c.run()) {
            (Out::Ok(a), Out::Ok(b)) if a == b => Verdict::Pass,
            (Out::Refused(_), Out::Refused(_)) => Verdict::Trivial,
            (a, b) => Verdict::Fail(format!("the text {:?}\nformats to {:?}\nits other spelling {:?}\nformats to {:?}", reference, a, c.src, b)),
        }
    },
};
