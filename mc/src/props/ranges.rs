//! C08 nothing outside the selected lines changes, C09 selected lines come out as in a whole-file run.

use super::*;

/// The selected part of a text: (first byte, byte after the last), by the documented clamping.
pub fn selected(src: &str, (l, r): (usize, usize)) -> (usize, usize) {
    let mut ends: Vec<usize> = src.char_indices().filter(|c| c.1 == '\n').map(|c| c.0).collect();
    ends.push(src.len());
    let n = ends.len();
    let left = if l >= 1 && l <= r && l <= n { l } else { 1 };
    let right = if r >= 1 && l <= r && r <= n { r } else { n };
    (if left == 1 { 0 } else { ends[left - 2] }, ends[right - 1])
}

/// Top-level statements as byte spans with token spans.
fn tops(src: &str, p: &Parsed) -> Vec<(usize, usize)> {
    let _ = src;
    p.stats.iter().filter(|s| s.depth == 0).map(|s| (p.toks[s.first].s, p.toks[s.last].e)).collect()
}

fn explore(e: &Arc<Engine>, p: &'static Prop) {
    let th = e.thorough();
    let bases = arcs(cfgs::bases());
    let b4 = [cfgs::shipped(), cfgs::empty(), cfgs::spread(), cfgs::collapse(24)];
    let odd = &[(0, 0), (2, 1), (1, 99), (99, 100), (0, 1), (3, 2)];
    sweep_ranges(e, p, &range_items(if th { 2 } else { 1 }), &bases, odd);
    let singles: Vec<_> = single_cfgs().into_iter().filter(|c| super::basic::in_domain(c)).collect();
    let mut small = items(showcase(), Vary::Two);
    small.extend(progs(0, Vary::Layouts));
    small.extend(items(range_texts(), Vary::Two));
    sweep_ranges(e, p, &small, &singles, &[]);
    sweep_ranges(e, p, &items(range_texts(), Vary::GapShort), &bases, odd);
    sweep_ranges(e, p, &items(range_texts(), Vary::GapNatural), if th { &bases } else { &bases[1..3] }, &[]);
    // long runs of statements, every range
    let mut texts = odd_texts();
    for t in range_texts() {
        let s = crate::gen::layout(&t, crate::gen::Layout::Natural).text();
        texts.push(format!("#!sh\n{}\n--\u{439}\n\n{}", s, s));
        texts.push(format!("{}\r\n\r\n{}--[[\n\u{65e5}\n]]\n", s.replace('a', "\u{439}").replace('\u{439}', "a"), s));
    }
    e.par(texts.len(), |i, l| {
        let t = &texts[i];
        for c in &bases {
            for r in line_ranges(t) {
                e.check(p, &Case::new(t, c).with_range(r), l);
            }
        }
    });
    // any two options
    let two = two_options(if th { &b4 } else { &b4[..2] }, &super::basic::in_domain);
    let split: Vec<String> = rich().iter().map(|s| s.replacen(" end", "\n end", 1).replacen(" then", "\nthen", 1).replacen(" do", "\n do", 1)).collect();
    e.par(split.len() * two.len(), |i, l| {
        let (t, c) = (&split[i / two.len()], &two[i % two.len()]);
        for r in line_ranges(t) {
            e.check(p, &Case::new(t, c).with_range(r), l);
        }
    });
    let texts = crate::lexical::long_texts(if th { 1100 } else { 130 });
    e.par(texts.len(), |i, l| {
        for c in &bases {
            for r in [(1, 1), (2, 2), (2, 5), (9, 12), (20, 0), (0, 20), (60, 70), (100, 101), (129, 500), (0, 0), (5, 2)] {
                e.check(p, &Case::new(&texts[i], c).with_range(Some(r)), l);
            }
        }
    });
    if th {
        sweep_ranges(e, p, &items(range_texts(), Vary::Gap), &singles, &[]);
        sweep_ranges(e, p, &items(range_texts(), Vary::Gaps2), &bases, &[]);
        sweep_ranges(e, p, &progs(1, Vary::Gap), &bases, &[]);
        sweep_ranges(e, p, &progs(2, Vary::GapNaturalShort), &bases[1..3], &[]);
    }
}

/// Programs of several top-level statements of different kinds.
pub fn range_texts() -> Vec<Toks> {
    let units = ["a ( )", "local b = { 1 , '\u{65e5}' }", "if c then d ( ) end", "x . y = - 1", "function f ( a ) return '\u{439}' end", "; ( g ) ( )", ":: l ::"];
    let mut out = vec![];
    for a in units {
        for b in units {
            for c in ["h ( )", "return '\u{439}' , i", "for i = 1 , 2 do j ( ) end"] {
                out.push(toks(&format!("{} {} {}", a, b, c)));
            }
        }
    }
    out
}

pub static C08: Prop = Prop {
    id: "C08",
    level: "exploration",
    rule: "programs of several top-level statements in many layouts, every trivia in every gap, shebangs, non-ASCII text x every line range (also empty, \
           reversed, beyond the end) x option sets; every option and every two options set to anything (or left out) around several base sets, over six programs of intricate statements. Non-trivial: accepted, and some text lies outside the selection.",
    assumptions: &["the documented clamping of ranges", "top-level statements as found by the independent parser"],
    explore,
    judge: |c| {
        let r = match c.range {
            Some(r) => r,
            None => return Verdict::Trivial,
        };
        let sp = parsed(&c.src);
        let sp = match &*sp {
            Ok(p) => p,
            Err(_) => return Verdict::Trivial,
        };
        let o = match c.run() {
            Out::Ok(o) => o,
            Out::Refused(_) => return Verdict::Trivial,
            x => return Verdict::Fail(format!("{:?}", x)),
        };
        let (mut l, mut e) = selected(&c.src, r);
        // statements and comments that are selected in part are selected as a whole
        let (l0, e0) = (l, e);
        let long = sp.items.iter().filter(|i| i.k == lua::K::LongComment).map(|i| (i.s, i.e));
        for (s, t) in tops(&c.src, sp).into_iter().chain(long) {
            if t > l0 && s < e0 {
                l = l.min(s);
                e = e.max(t);
            }
        }
        let (head, tail) = (&c.src[..l], &c.src[e..]);
        if !o.starts_with(head) {
            return Verdict::Fail(format!("the text before the selected statements {:?} changed\noutput: {:?}", head, o));
        }
        // the line break that ends the last selected line may be removed on request
        let free = c.cfg.is("remove_all_newlines") && tail.starts_with('\n');
        if !(o.ends_with(tail) || free && o.ends_with(&tail[1..])) || o.len() + 1 < head.len() + tail.len() {
            return Verdict::Fail(format!("the text after the selected statements {:?} changed\noutput: {:?}", tail, o));
        }
        if head.is_empty() && tail.is_empty() {
            Verdict::Trivial
        } else {
            Verdict::Pass
        }
    },
};

pub static C09: Prop = Prop {
    id: "C09",
    level: "exploration",
    rule: "as C08. Oracle: the whole-file run of the same formatter: every top-level statement touched by the range, and everything between two such \
           statements, must be spelled as there; a range over all lines must give the whole-file text. Non-trivial: at least one statement compared.",
    assumptions: &["statements that start at another column than in the whole-file run (text before them on the same line is not selected) are not compared"],
    explore,
    judge: |c| {
        let r = match c.range {
            Some(r) => r,
            None => return Verdict::Trivial,
        };
        let sp = parsed(&c.src);
        let sp = match &*sp {
            Ok(p) => p,
            Err(_) => return Verdict::Trivial,
        };
        let whole = match super::stable::reference_run(&c.src, &c.cfg) {
            Out::Ok(o) => o,
            Out::Refused(_) => return Verdict::Trivial,
            x => return Verdict::Fail(format!("{:?}", x)),
        };
        let o = match c.run() {
            Out::Ok(o) => o,
            x => return Verdict::Fail(format!("accepted as a whole, but with a range: {:?}", x)),
        };
        let (l, e) = selected(&c.src, r);
        if l == 0 && e == c.src.len() {
            return if o == whole {
                Verdict::Pass
            } else {
                Verdict::Fail(format!("the range selects all lines, but the whole-file run gives {:?}\nand this one {:?}", whole, o))
            };
        }
        let (wp, op) = match (lua::parse(&whole, true), lua::parse(&o, true)) {
            (Ok(a), Ok(b)) => (a, b),
            _ => return Verdict::Fail(format!("an output is not Lua\nwhole: {:?}\nrange: {:?}", whole, o)),
        };
        let (st, wt, ot) = (tops(&c.src, sp), tops(&whole, &wp), tops(&o, &op));
        if st.len() != wt.len() || st.len() != ot.len() {
            return Verdict::Fail(format!("a different number of statements\nwhole: {:?}\nrange: {:?}", whole, o));
        }
        let col = |s: &str, i: usize| s[..i].chars().rev().take_while(|c| *c != '\n').count();
        let mut seen = false;
        let mut prev: Option<usize> = None;
        for i in 0..st.len() {
            if st[i].1 > l && st[i].0 < e {
                if col(&whole, wt[i].0) != col(&o, ot[i].0) {
                    prev = None;
                    continue;
                }
                let from = |t: &[(usize, usize)]| match prev {
                    Some(j) => t[j].1,
                    None => t[i].0,
                };
                let (a, b) = (&whole[from(&wt)..wt[i].1], &o[from(&ot)..ot[i].1]);
                if a != b {
                    return Verdict::Fail(format!("the statement comes out as {:?}\nbut in a whole-file run as {:?}", b, a));
                }
                seen = true;
                prev = Some(i);
            } else {
                prev = None;
            }
        }
        if seen {
            Verdict::Pass
        } else {
            Verdict::Trivial
        }
    },
};
