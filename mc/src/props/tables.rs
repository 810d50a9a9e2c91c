//! C20: table separators.

use super::*;
use crate::cfgs::V;
use crate::lua::Parsed;

/// The separators of a table: between the fields, and after the last one.
fn separators(src: &str, p: &Parsed, t: &lua::Table) -> (Vec<String>, Option<String>) {
    let sep = |k: usize| p.toks[k].text(src).to_string();
    let n = t.fields.len();
    let inner = t.fields.iter().take(n.saturating_sub(1)).map(|f| sep(f.1 + 1)).collect();
    let last = match t.fields.last() {
        Some(f) if f.1 + 1 < t.close => Some(sep(f.1 + 1)),
        _ => None,
    };
    (inner, last)
}

/// Something between the direct parts of a table (braces, fields, separators) breaks the line.
fn several_lines(src: &str, p: &Parsed, t: &lua::Table) -> bool {
    let gap = |k: usize| src[p.toks[k].e..p.toks[k + 1].s].contains('\n');
    if gap(t.open) {
        return true;
    }
    t.fields.iter().any(|f| gap(f.1) || f.1 + 1 < t.close && gap(f.1 + 1))
}

pub fn judge(c: &Case) -> Verdict {
    let sp = parsed(&c.src);
    let sp = match sp.as_ref() {
        Ok(p) => p,
        Err(_) => return Verdict::Trivial,
    };
    if sp.tables.iter().all(|t| t.fields.is_empty()) {
        return Verdict::Trivial;
    }
    let out = match format(&c.src, &c.cfg, c.range) {
        Out::Ok(o) => o,
        _ => return Verdict::Trivial,
    };
    let op = match lua::parse(&out, true) {
        Ok(p) => p,
        Err(e) => return Verdict::Fail(format!("the output is not Lua: {}\n  output: {:?}", e, out)),
    };
    let fail = |d: String| Verdict::Fail(format!("{}\n  output: {:?}", d, out));
    if sp.tables.len() != op.tables.len() {
        return fail(format!("{} tables became {}", sp.tables.len(), op.tables.len()));
    }
    let order = |p: &Parsed| {
        let mut v: Vec<usize> = (0..p.tables.len()).collect();
        v.sort_by_key(|i| p.tables[*i].open);
        v
    };
    let set = c.cfg.str("field_separator");
    let trailing = match c.cfg.get("write_trailing_field_separator") {
        Some(V::B(b)) => Some(*b),
        _ => None,
    };
    let single = c.cfg.is("force_single_line_table");
    for (i, j) in order(sp).into_iter().zip(order(&op)) {
        let (t, u) = (&sp.tables[i], &op.tables[j]);
        if t.fields.len() != u.fields.len() {
            return fail(format!("a table with {} fields has {} fields now", t.fields.len(), u.fields.len()));
        }
        if t.fields.is_empty() {
            continue;
        }
        for ((a, b), (x, y)) in t.fields.iter().zip(u.fields.iter()) {
            if b - a != y - x && trailing.is_none() && !single {
                return fail("a field changed its length".into());
            }
        }
        let (before, last) = separators(&c.src, sp, t);
        let (after, now) = separators(&out, &op, u);
        for (a, b) in before.iter().zip(after.iter()) {
            if b != set.unwrap_or(a) {
                return fail(format!("a separator {:?} came out as {:?}", a, b));
            }
        }
        // the separator after the last field, if it is to be written
        let written = match (set, &last) {
            (Some(s), _) => Some(s.to_string()),
            (None, Some(l)) => Some(l.clone()),
            // none configured, none in the source
            (None, None) => None,
        };
        let many = several_lines(&out, &op, u);
        // one-line tables are asked for, and nothing says where several lines would break
        if single && many && !(c.cfg.has("newline_format_table_constructor") && c.cfg.has("newline_format_table_field")) {
            continue;
        }
        // positional fields that stay together: the breaks come from the braces around, the source or comments
        let positional = t.fields.iter().all(|f| sp.toks[f.0].text(&c.src) != "[" && (f.1 == f.0 || sp.toks[f.0 + 1].text(&c.src) != "="));
        if single && many && positional && c.cfg.is("force_single_line_iv_table_field") {
            continue;
        }
        // fields that happen to share the line though nothing says where the braces' lines break: C26 decides
        let on = |n: &str| c.cfg.num(n) == Some(1);
        if single && !many && !on("newline_format_table_constructor") && (c.cfg.has("newline_format_table_constructor") || c.cfg.has("newline_format_table_field") && c.cfg.is("force_single_line_kv_table_field")) {
            continue;
        }
        let want = if single && !many {
            None
        } else {
            match trailing {
                Some(true) => written,
                Some(false) => None,
                None => match last {
                    Some(_) => written,
                    None => None,
                },
            }
        };
        if now != want {
            return fail(format!(
                "the table {:?} ({}) ends with the separator {:?} instead of {:?}",
                &out[op.toks[u.open].s..op.toks[u.close].e],
                if many { "several lines" } else { "one line" },
                now,
                want
            ));
        }
    }
    Verdict::Pass
}

fn configs(th: bool) -> Vec<Arc<Cfg>> {
    let mut v = vec![];
    let opt_b = [None, Some(V::B(true)), Some(V::B(false))];
    for sep in [None, Some(","), Some(";")] {
        for tr in &opt_b {
            for force in &opt_b {
                for (nc, nf) in [(false, false), (true, true), (true, false), (false, true)] {
                    for w in [None, Some(8), Some(20), Some(110)] {
                        for base in [cfgs::empty(), cfgs::shipped(), cfgs::dense()] {
                            if base.name == "dense" && (nc || nf || w.is_some()) && !th {
                                continue;
                            }
                            let c = base
                                .with("field_separator", sep.map(|s: &str| V::S(s.into())))
                                .with("write_trailing_field_separator", tr.clone())
                                .with("force_single_line_table", force.clone())
                                .with("newline_format_table_constructor", if nc { Some(V::U(1)) } else { None })
                                .with("newline_format_table_field", if nf { Some(V::U(1)) } else { None })
                                .with("max_width", w.map(V::U));
                            v.push(c);
                        }
                    }
                }
            }
        }
    }
    arcs(v)
}

/// All tables with up to `n` fields, out of kinds of fields and separators.
fn tables(n: usize, fields: &[&str]) -> Vec<String> {
    let mut v = vec!["{}".to_string()];
    let mut open: Vec<String> = vec!["{".into()];
    for k in 0..n {
        let mut next = vec![];
        for o in &open {
            for f in fields {
                let t = format!("{}{}", o, f);
                v.push(format!("{}}}", t));
                for s in [",", ";"] {
                    v.push(format!("{}{}}}", t, s));
                    if k + 1 < n {
                        next.push(format!("{}{}", t, s));
                    }
                }
            }
        }
        open = next;
    }
    v
}

pub static C20: Prop = Prop {
    id: "C20",
    level: "exploration",
    rule: "All tables with up to 3 fields (thorough: 4 over fewer kinds) out of kinds of fields (positional, named, bracketed, nested tables, functions, strings, with comments and line breaks) \
           with every choice of separators and of a trailing one, in several positions, re-spaced, under all combinations of separator, trailing separator, one-line, line break and width options over \
           bare, shipped and dense options; the standard space under some of them; every option and every two options set to anything (or left out) around several base sets, over six programs of intricate statements. Non-trivial: the program is accepted and holds a table with a field.",
    assumptions: &[],
    explore: |e, p| {
        let th = e.thorough();
        let cs = configs(th);
        let fields = ["1", "a=1", "[b]=2"];
        let small = tables(2, &["1", "a=1", "[b]=2", "{1;2,}", "{x=1}", "function() end", "f{2,}", "'s'", "function()return{3;}end", "--c\n1", "1--c\n", "1--[[c]]", "\n1"]);
        e.par(small.len(), |i, l| {
            for f in ["x=@", "f@.g{@}", "return @,1"] {
                let src = f.replace('@', &small[i]);
                for c in &cs {
                    e.check(p, &Case::new(&src, c), l);
                }
            }
        });
        let big = tables(if th { 4 } else { 3 }, &fields);
        e.par(big.len(), |i, l| {
            for (a, b) in [("", ""), (",", ", "), (",", ",\n"), ("{", "{\n"), ("}", "\n}"), (",", "\n,"), ("1", "aaaaaaaaaaaaaaaaaaa")] {
                let src = format!("x={}", if a.is_empty() { big[i].clone() } else { big[i].replace(a, b) });
                for c in &cs {
                    e.check(p, &Case::new(&src, c), l);
                }
            }
        });
        let few: Vec<Arc<Cfg>> = arcs(vec![
            cfgs::shipped(),
            cfgs::shipped().with("write_trailing_field_separator", Some(V::B(false))).with("field_separator", Some(V::S(";".into()))),
            cfgs::shipped().with("write_trailing_field_separator", None).with("field_separator", None).with("force_single_line_table", None),
            cfgs::collapse(20),
            cfgs::spread(),
        ]);
        sweep_texts(e, p, &crate::lexical::long_texts(if th { 1100 } else { 300 }), &few);
        sweep_texts(e, p, &rich(), &two_options(&[cfgs::shipped(), cfgs::spread(), cfgs::collapse(24), cfgs::empty()], &super::basic::in_domain));
        sweep(e, p, &standard(if th { 2 } else { 1 }), &few);
    },
    judge,
};
