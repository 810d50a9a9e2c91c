//! A reference model of the layout under a maximum width: which constructs stand on one line, where lines are broken
//! and how they are indented.  A construct (or the rest of a line up to the end of an operand, list item, suffix or
//! field) is laid out on one line when its one-line form, as it would be written there, ends before the maximum width.
//! Works on the token sequence and the structure found by the independent parser; shares no code with the formatter.

use crate::cfgs::{Cfg, V};
use crate::layout::{self, blank_only, W};
use crate::lua::{Parsed, Role, K};
use std::cell::RefCell;

/// The options that the one-line form of a construct sees differently.
#[derive(Clone)]
struct Opts {
    nl_if: Option<usize>,
    nl_func: Option<usize>,
    ctor: Option<usize>,
    field: Option<usize>,
    trail: Option<bool>,
    at_table: Option<bool>,
    list_table: Option<bool>,
}

/// Options that stay.
struct Fixed {
    max: Option<usize>,
    one_if: bool,
    one_top: bool,
    one_scoped: bool,
    one_table: bool,
    one_iv: bool,
    one_kv: bool,
    one_op: bool,
    one_list: bool,
    one_suffix: bool,
    op: Option<usize>,
    suffix: bool,
    list: Option<usize>,
    list_first: Option<usize>,
    indent_list: bool,
    indent_list1: bool,
    indent_suffix: bool,
    indent_suffix1: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Plain,
    Op(usize),
    List(usize),
    Chain(usize),
    Table(usize),
}

/// first token, last token, first gap, last gap
type Span = (usize, usize, usize, usize, What);

/// What was decided on the way, for the constructs the text has reached.
#[derive(Clone)]
struct St {
    list: Vec<Option<bool>>,
    chain: Vec<Option<bool>>,
    table: Vec<Option<bool>>,
    /// a line was broken at an item of the list, chain or table
    hit_list: Vec<bool>,
    hit_chain: Vec<bool>,
    hit_table: Vec<bool>,
    /// the operator (or its operand) starts a new line
    op: Vec<Option<bool>>,
}

#[derive(Clone, Copy, PartialEq)]
enum Item {
    No,
    ListItem(usize, usize),
    Suffix(usize, usize),
    Field(usize, usize),
    TableEnd(usize),
    TableEmpty,
    OpBefore(usize),
    OpAfter(usize),
}

struct M<'a> {
    src: &'a str,
    p: &'a Parsed,
    ops: Vec<(usize, usize, usize)>,
    w: W<'a>,
    x: Fixed,
    hint: Vec<&'a str>,
    nl: Vec<bool>,
    nl_if: Vec<bool>,
    nl_func: Vec<bool>,
    item: Vec<Item>,
    /// constructs that begin at a token
    if_at: Vec<Option<usize>>,
    func_at: Vec<Option<(usize, bool)>>,
    table_at: Vec<Option<usize>>,
    /// for each gap the spans around it, outermost first; the same for the place in front of a token after its gap
    around: Vec<Vec<What>>,
    around_node: Vec<Vec<What>>,
    /// only positional fields (and the only field of a table that holds it, or no positional field at all)
    iv: Vec<bool>,
    single: Vec<bool>,
    oneline: RefCell<Vec<bool>>,
    has_indent: RefCell<Vec<bool>>,
    trail_of: Vec<Option<usize>>,
    last_field: Vec<Option<usize>>,
    shebang: bool,
    steps: RefCell<usize>,
}

const STEPS: usize = 3_000_000;

fn bool_of(c: &Cfg, n: &str) -> Option<bool> {
    match c.get(n) {
        Some(V::B(b)) => Some(*b),
        _ => None,
    }
}

fn last_line(s: &str) -> usize {
    s.chars().rev().take_while(|c| *c != '\n').count()
}

fn first_line(s: &str) -> usize {
    s.chars().take_while(|c| *c != '\n').count()
}

impl<'a> M<'a> {
    fn tok(&self, t: usize) -> &'a str {
        self.p.toks[t].text(self.src)
    }

    /// bytes of the source from token a to token b
    fn span(&self, a: usize, b: usize) -> usize {
        self.p.toks[b].e - self.p.toks[a].s
    }

    /// A construct spelled in the source with at least twice the maximum width may stay broken: outside the model.
    fn short(&self, a: usize, b: usize) -> Option<()> {
        (self.span(a, b) < self.x.max.unwrap_or(0).saturating_mul(2)).then_some(())
    }

    fn active(&self, st: &St, w: What) -> bool {
        match w {
            What::Plain | What::Op(_) => true,
            What::List(i) => st.list[i] == Some(true),
            What::Chain(i) => st.chain[i] == Some(true),
            What::Table(i) => st.table[i] == Some(true),
        }
    }

    fn indent(&self, spans: &[What], st: &St) -> String {
        let mut n = 0;
        let mut top: Option<&str> = None;
        for w in spans {
            if !self.active(st, *w) {
                continue;
            }
            match w {
                What::Op(o) => {
                    let s = self.tok(self.ops[*o].1);
                    if top != Some(s) {
                        n += 1;
                    }
                    top = Some(s);
                }
                _ => {
                    n += 1;
                    top = None;
                }
            }
        }
        self.w.unit.repeat(n)
    }

    fn fits(&self, f: &str, trial: &str) -> bool {
        self.x.max.map_or(false, |m| last_line(f) + first_line(trial) < m)
    }

    /// The text of tokens a to b, written somewhere else; with the gap before the first one if asked for.
    fn trial(&self, o: &Opts, a: usize, b: usize, gap: bool, st: &St) -> Option<String> {
        let mut s = String::new();
        let mut st = st.clone();
        self.emit(o, a, b, gap, &mut s, &mut st)?;
        Some(s)
    }

    /// Does the item start a new line (before its gap is written; after it for the first one)?
    fn breaks(&self, o: &Opts, item: Item, f: &str, st: &mut St) -> Option<bool> {
        let x = &self.x;
        Some(match item {
            Item::No | Item::TableEnd(_) | Item::TableEmpty => false,
            Item::ListItem(l, i) => {
                if x.list.is_none() && x.list_first.is_none() {
                    return Some(false);
                }
                let it = self.p.lists[l].items[i];
                if i == 0 {
                    return Some(match x.list_first {
                        Some(1) if f.ends_with('\n') => true,
                        Some(1) if x.one_list => !self.fits(f, &self.trial(o, it.0, it.1, false, st)?),
                        Some(1) => true,
                        _ => false,
                    });
                }
                let table = self.table_at[it.0].map_or(false, |t| self.p.tables[t].close == it.1 && !self.p.tables[t].fields.is_empty());
                if table && o.list_table == Some(true) && o.at_table == Some(false) {
                    true
                } else {
                    match x.list {
                        Some(1) if x.one_list => !self.fits(f, &self.trial(o, it.0, it.1, false, st)?),
                        Some(1) => true,
                        _ => false,
                    }
                }
            }
            Item::Suffix(c, i) => {
                if !x.suffix {
                    return Some(false);
                }
                if i == 0 && f.ends_with('\n') {
                    return Some(true);
                }
                let ch = &self.p.chains[c];
                let b = ch.2[i];
                let e = if i + 1 < ch.2.len() { ch.2[i + 1] - 1 } else { ch.1 };
                let end = match self.tok(b) {
                    "." => e,
                    ":" => match self.tok(b + 2) {
                        "{" => b + 1,
                        "(" if x.list_first.is_some() || self.tok(b + 3) == ")" => b + 1,
                        _ => e,
                    },
                    _ => return Some(false),
                };
                if x.one_suffix {
                    !self.fits(f, &self.trial(o, b, end, false, st)?)
                } else {
                    true
                }
            }
            Item::Field(t, i) => {
                if o.field.is_none() {
                    return Some(false);
                }
                let tb = &self.p.tables[t];
                let (a, b) = tb.fields[i];
                let kv = !self.iv[t];
                let flat = |m: &M, st: &St| -> Option<bool> {
                    let s = m.trial(o, a, b, false, st)?;
                    let on = m.fits(f, &s) && !s.contains('\n');
                    if on && (kv && x.one_kv || i == 0) {
                        m.short(a, b)?;
                    }
                    Some(on)
                };
                if i == 0 {
                    if x.one_table && self.iv[t] && x.one_iv {
                        return Some(self.has_indent.borrow()[t] || !self.single[t]);
                    }
                    if x.one_iv && self.iv[t] || x.one_kv && kv {
                        return Some(f.ends_with('\n') || !(x.max.is_some() && flat(self, st)?));
                    }
                    return Some(true);
                }
                if self.iv[t] && x.one_iv {
                    if x.one_table {
                        let (pa, pb) = tb.fields[i - 1];
                        if let Some(prev) = self.table_at[pa].filter(|p| self.p.tables[*p].close == pb && !self.p.tables[*p].fields.is_empty()) {
                            let one = self.oneline.borrow()[prev];
                            return Some(one || flat(self, st)?);
                        }
                        return Some(!flat(self, st)?);
                    }
                    return Some(false);
                }
                if x.one_kv && kv {
                    return Some(!(x.max.is_some() && flat(self, st)?));
                }
                true
            }
            Item::OpBefore(_) | Item::OpAfter(_) => false,
        })
    }

    /// Tokens a to b, and the gap before the first one if asked for. The end of the file is one more token.
    fn emit(&self, o: &Opts, a: usize, b: usize, gap: bool, f: &mut String, st: &mut St) -> Option<()> {
        let n = self.p.toks.len();
        let mut t = a;
        loop {
            *self.steps.borrow_mut() += 1;
            if *self.steps.borrow() > STEPS {
                return None;
            }
            if t > a || gap {
                self.gap(o, t, f, st)?;
            }
            if t == n {
                return Some(());
            }
            match self.whole(o, t, f, st)? {
                Some(e) => t = e,
                None => self.token(o, t, f),
            }
            if t >= b {
                return Some(());
            }
            if let Some(i) = self.last_field[t] {
                if self.trail(o, i) == Some(true) && self.p.roles[t + 1] != Role::TrailSep {
                    f.push_str(self.w.c.str("field_separator").unwrap_or(""));
                }
            }
            t += 1;
        }
    }

    /// A construct that begins here and is written as a whole: its last token.
    fn whole(&self, o: &Opts, t: usize, f: &mut String, st: &mut St) -> Option<Option<usize>> {
        let x = &self.x;
        if let Some(e) = self.if_at[t] {
            if x.max.is_some() && x.one_if && o.nl_if.is_some() {
                let o2 = Opts { nl_if: None, ..o.clone() };
                let s = self.trial(&o2, t, e, false, st)?;
                if self.fits(f, &s) && !s.contains('\n') {
                    self.short(t, e)?;
                    f.push_str(&s);
                    return Some(Some(e));
                }
            }
        }
        if let Some((e, nested)) = self.func_at[t] {
            if x.max.is_some() && o.nl_func.is_some() && if nested { x.one_scoped } else { x.one_top } {
                let o2 = Opts { nl_func: None, ..o.clone() };
                let s = self.trial(&o2, t, e, false, st)?;
                if self.fits(f, &s) && !s.contains('\n') {
                    self.short(t, e)?;
                    f.push_str(&s);
                    return Some(Some(e));
                }
            }
        }
        if let Some(i) = self.table_at[t].filter(|i| !self.p.tables[*i].fields.is_empty()) {
            let e = self.p.tables[i].close;
            if x.max.is_some() && o.ctor.is_some() && x.one_table {
                let o2 = Opts { ctor: None, field: None, trail: Some(false), at_table: Some(false), list_table: Some(false), ..o.clone() };
                let s = self.trial(&o2, t, e, false, st)?;
                if self.fits(f, &s) && !s.contains('\n') {
                    self.short(t, e)?;
                    self.oneline.borrow_mut()[i] = true;
                    f.push_str(&s);
                    return Some(Some(e));
                }
                self.oneline.borrow_mut()[i] = false;
            }
            if o.at_table == Some(true) && !self.oneline.borrow()[i] {
                W::break_line(f, &self.indent(&self.around_node[t], st));
            }
        }
        Some(None)
    }

    fn token(&self, o: &Opts, t: usize, f: &mut String) {
        let next = self.tok(t);
        let c = self.w.c;
        let sep = c.str("field_separator");
        match self.p.roles[t] {
            Role::FieldSep => f.push_str(sep.unwrap_or(next)),
            Role::TrailSep => {
                if self.trail(o, self.trail_of[t].unwrap()) != Some(false) {
                    f.push_str(sep.unwrap_or(next))
                }
            }
            _ if self.p.toks[t].k == K::Str && next.starts_with('\'') && c.is("convert_charstring_to_normalstring") => layout::requote(next, f),
            _ => f.push_str(next),
        }
    }

    fn trail(&self, o: &Opts, t: usize) -> Option<bool> {
        if self.x.one_table && (o.field.is_none() && o.ctor.is_none() || self.iv[t] && !self.has_indent.borrow()[t]) {
            return Some(false);
        }
        o.trail
    }

    /// Is a list, chain or table indented? Its items are written for a trial, starting with the gap before the first.
    fn indented(&self, o: &Opts, t: usize, f: &str, st: &mut St) -> Option<()> {
        let x = &self.x;
        match self.item[t] {
            Item::ListItem(l, 0) if st.list[l].is_none() => {
                let li = &self.p.lists[l].items;
                let on = if !x.indent_list {
                    false
                } else if x.indent_list1 {
                    true
                } else if li.len() == 1 && x.list_first.is_none() {
                    false
                } else {
                    let mut s = st.clone();
                    s.list[l] = Some(false);
                    let mut g = f.to_string();
                    self.emit(o, t, li[li.len() - 1].1, true, &mut g, &mut s)?;
                    s.hit_list[l]
                };
                st.list[l] = Some(on);
            }
            Item::Suffix(c, 0) if st.chain[c].is_none() => {
                let on = if !x.indent_suffix {
                    false
                } else if x.indent_suffix1 {
                    true
                } else {
                    let mut s = st.clone();
                    s.chain[c] = Some(false);
                    let mut g = f.to_string();
                    self.emit(o, t, self.p.chains[c].1, true, &mut g, &mut s)?;
                    s.hit_chain[c]
                };
                st.chain[c] = Some(on);
            }
            Item::Field(i, 0) if st.table[i].is_none() => {
                let on = if x.one_table && self.iv[i] && self.single[i] {
                    self.has_indent.borrow_mut()[i] = false;
                    let mut s = st.clone();
                    s.table[i] = Some(false);
                    let mut g = f.to_string();
                    let tb = &self.p.tables[i];
                    self.emit(o, t, tb.fields[tb.fields.len() - 1].1, true, &mut g, &mut s)?;
                    s.hit_table[i]
                } else {
                    true
                };
                self.has_indent.borrow_mut()[i] = on;
                st.table[i] = Some(on);
            }
            _ => {}
        }
        Some(())
    }

    fn gap(&self, o: &Opts, t: usize, f: &mut String, st: &mut St) -> Option<()> {
        let n = self.p.toks.len();
        let x = &self.x;
        let at = if t == 0 { 0 } else { self.p.toks[t - 1].e };
        let end = if t < n { self.p.toks[t].s } else { self.src.len() };
        let at = if t == 0 && self.shebang { self.src[..end].find('\n').map_or(end, |i| i + 1) } else { at };
        let gap = &self.src[at..end];
        let next = if t < n { self.tok(t) } else { "" };
        let begins = t == 0;
        self.indented(o, t, f, st)?;
        let item = self.item[t];
        let mut broken = self.nl[t] || self.nl_if[t] && o.nl_if == Some(1) || self.nl_func[t] && o.nl_func == Some(1);
        let first = matches!(item, Item::ListItem(_, 0) | Item::Suffix(_, 0) | Item::Field(_, 0));
        match item {
            Item::OpBefore(i) => {
                let forced = st.op[i];
                let on = match forced {
                    Some(b) => b,
                    None => {
                        let want = x.op == Some(1) || x.op == Some(2);
                        let mut on = want;
                        if want && x.one_op {
                            // a comment next to the operator breaks the line anyway
                            let q = if x.op == Some(1) { t } else { t + 1 };
                            let mut probe = String::new();
                            let ind = self.indent(&self.around[q], st);
                            let (qs, qe) = (self.p.toks[q - 1].e, self.p.toks[q].s);
                            self.w.gap(&mut probe, &self.src[qs..qe], " ", self.tok(q), false, &ind)?;
                            if !probe.contains('\n') {
                                let mut s = st.clone();
                                s.op[i] = Some(false);
                                let mut g = String::new();
                                self.emit(o, t, self.ops[i].2, true, &mut g, &mut s)?;
                                if self.fits(f, &g) {
                                    on = false;
                                }
                            }
                        }
                        st.op[i] = Some(on);
                        on
                    }
                };
                broken |= on && x.op == Some(1);
            }
            Item::OpAfter(i) => broken |= st.op[i] == Some(true) && x.op == Some(2),
            Item::TableEnd(i) => {
                broken = st.table[i] == Some(true) && (o.ctor == Some(1) || x.max.map_or(false, |m| last_line(f) >= m));
            }
            Item::TableEmpty => {
                let mut probe = String::new();
                self.w.gap(&mut probe, gap, self.hint[t], next, begins, "")?;
                broken = o.ctor.is_some() && probe.contains('\n');
            }
            _ if !first => {
                let hit = self.breaks(o, item, f, st)?;
                if hit {
                    self.note(item, st);
                }
                broken |= hit;
            }
            _ => {}
        }
        let indent = self.indent(&self.around[t], st);
        if broken {
            return self.w.gap_nl(f, gap, next, begins, &indent);
        }
        self.w.gap(f, gap, self.hint[t], next, begins, &indent)?;
        if first && self.breaks(o, item, f, st)? {
            self.note(item, st);
            W::break_line(f, &indent);
        }
        Some(())
    }

    fn note(&self, item: Item, st: &mut St) {
        match item {
            Item::ListItem(l, _) => st.hit_list[l] = true,
            Item::Suffix(c, _) => st.hit_chain[c] = true,
            Item::Field(t, _) => st.hit_table[t] = true,
            _ => {}
        }
    }
}

/// Operations; a chain of the operators that group to the right is laid out one operand after the other, as those that
/// group to the left are.
fn grouped(src: &str, p: &Parsed) -> Vec<(usize, usize, usize)> {
    let mut ops = p.ops.clone();
    ops.sort_by_key(|o| o.1);
    let was = ops.clone();
    let unary = |t: usize| matches!(p.toks[t].text(src), "-" | "not" | "#" | "~");
    for (i, o) in was.iter().enumerate() {
        let same = |n: &(usize, usize, usize)| p.toks[n.1].text(src) == p.toks[o.1].text(src);
        let next = (i + 1..was.len()).find(|j| {
            let n = &was[*j];
            n.2 == o.2 && n.0 > o.1 && same(n) && (o.1 + 1..n.0).all(unary)
        });
        if let Some(j) = next {
            ops[i].2 = was[j].1 - 1;
            ops[j].0 = ops[i].0;
        }
    }
    ops
}

/// The text to be written; None if the program or the options are outside the model.
pub fn model(src: &str, p: &Parsed, c: &Cfg) -> Option<String> {
    if p.toks.is_empty() || src.contains(['\r', '\u{b}', '\u{c}']) {
        return None;
    }
    let n = p.toks.len();
    // what does not depend on widths
    let mut c0 = c.clone();
    let dynamic = ["newline_format_if", "newline_format_function", "newline_format_exp_list", "newline_format_exp_list_first", "newline_format_binary_op", "newline_format_var_suffix"];
    c0.set.retain(|(n, _)| !dynamic.contains(n) && !n.starts_with("newline_format_table") && *n != "write_newline_at_multiline_table");
    let g = layout::gaps(src, p, &c0);
    let (mut nl_if, mut nl_func) = (vec![false; n + 1], vec![false; n + 1]);
    for b in &p.blocks {
        let v = match b.kind {
            "do" | "while" | "repeat" | "for" | "for2" => continue,
            "function" => &mut nl_func,
            _ => &mut nl_if,
        };
        if b.first < b.close {
            v[b.first] = true;
            v[b.close] = true;
        } else if !(b.kind == "then" && p.toks[b.close].text(src) == "else") {
            v[b.close] = true;
        }
    }
    let ops = grouped(src, p);
    let mut item = vec![Item::No; n + 1];
    for (i, o) in ops.iter().enumerate() {
        item[o.1] = Item::OpBefore(i);
        item[o.1 + 1] = Item::OpAfter(i);
    }
    for (i, l) in p.lists.iter().enumerate().filter(|(_, l)| l.kind == "exp") {
        for (k, it) in l.items.iter().enumerate() {
            item[it.0] = Item::ListItem(i, k);
        }
    }
    for (i, ch) in p.chains.iter().enumerate() {
        for (k, s) in ch.2.iter().enumerate() {
            item[*s] = Item::Suffix(i, k);
        }
    }
    let mut table_at = vec![None; n + 1];
    let mut trail_of = vec![None; n + 1];
    let mut last_field = vec![None; n + 1];
    let mut iv = vec![];
    let mut single = vec![];
    for (i, t) in p.tables.iter().enumerate() {
        table_at[t.open] = Some(i);
        for (k, fl) in t.fields.iter().enumerate() {
            item[fl.0] = Item::Field(i, k);
        }
        item[t.close] = if t.fields.is_empty() { Item::TableEmpty } else { Item::TableEnd(i) };
        if let Some(fl) = t.fields.last() {
            last_field[fl.1] = Some(i);
            if p.roles[fl.1 + 1] == Role::TrailSep {
                trail_of[fl.1 + 1] = Some(i);
            }
        }
        let named = |f: &(usize, usize)| {
            p.toks[f.0].text(src) == "[" || f.1 > f.0 && p.toks[f.0].k == K::Name && p.toks[f.0 + 1].text(src) == "="
        };
        iv.push(!t.fields.iter().any(named));
        single.push(p.tables.iter().find(|o| o.fields.contains(&(t.open, t.close))).map_or(true, |o| o.fields.len() == 1));
    }
    let mut if_at = vec![None; n + 1];
    for s in &p.ifs {
        if_at[s.0] = Some(s.1);
    }
    let mut func_at = vec![None; n + 1];
    for s in &p.fbodies {
        let inside = |o: &(usize, usize)| o.0 < s.0 && s.1 < o.1;
        let nested = p.fbodies.iter().any(inside) || p.tables.iter().any(|t| inside(&(t.open, t.close)));
        func_at[s.0] = Some((s.1, nested));
    }
    let mut spans: Vec<Span> = vec![];
    for b in &p.blocks {
        if b.first < b.close {
            spans.push((b.first, b.close - 1, b.first, b.close - 1, What::Plain));
        }
    }
    for f in &p.fbodies {
        let close = (f.0..).find(|t| p.toks[*t].text(src) == ")").unwrap();
        if close > f.0 + 1 {
            spans.push((f.0 + 1, close - 1, f.0 + 1, close, What::Plain));
        }
    }
    for (i, t) in p.tables.iter().enumerate() {
        if !t.fields.is_empty() {
            spans.push((t.open + 1, t.close - 1, t.open + 1, t.close - 1, What::Table(i)));
        }
    }
    for (i, l) in p.lists.iter().enumerate().filter(|(_, l)| l.kind == "exp") {
        let (a, last) = (l.items[0].0, l.items[l.items.len() - 1].1);
        let ends = p.stats.iter().any(|s| s.kind == "return" && s.last == last + 1 && s.first + 1 == a);
        spans.push((a, last, a, last + ends as usize, What::List(i)));
    }
    for (i, ch) in p.chains.iter().enumerate() {
        spans.push((ch.2[0], ch.1, ch.2[0], ch.1, What::Chain(i)));
    }
    for (i, o) in ops.iter().enumerate() {
        spans.push((o.0, o.2, o.0 + 1, o.2, What::Op(i)));
    }
    spans.sort_by_key(|s| (std::cmp::Reverse(s.1 - s.0), matches!(s.4, What::Op(_))));
    let around = (0..=n).map(|t| spans.iter().filter(|s| s.2 <= t && t <= s.3).map(|s| s.4).collect()).collect();
    let around_node =
        (0..=n).map(|t| spans.iter().filter(|s| s.2 <= t && t <= s.3 || s.0 == t && matches!(s.4, What::Op(_))).map(|s| s.4).collect()).collect();
    let shebang = p.items.first().filter(|i| i.k == K::Shebang);
    let m = M {
        src,
        p,
        ops,
        w: W { c, unit: c.str("indentation_string").unwrap_or("") },
        x: Fixed {
            max: c.num("max_width"),
            one_if: c.is("force_single_line_if"),
            one_top: c.is("force_single_line_top_level_function"),
            one_scoped: c.is("force_single_line_scoped_function"),
            one_table: c.is("force_single_line_table"),
            one_iv: c.is("force_single_line_iv_table_field"),
            one_kv: c.is("force_single_line_kv_table_field"),
            one_op: c.is("force_single_line_binary_op"),
            one_list: c.is("force_single_line_exp_list"),
            one_suffix: c.is("force_single_line_var_suffix"),
            op: c.num("newline_format_binary_op"),
            suffix: c.has("newline_format_var_suffix"),
            list: c.num("newline_format_exp_list"),
            list_first: c.num("newline_format_exp_list_first"),
            indent_list: c.is("indent_exp_list"),
            indent_list1: c.is("indent_one_line_exp_list"),
            indent_suffix: c.is("indent_var_suffix"),
            indent_suffix1: c.is("indent_one_line_var_suffix"),
        },
        hint: g.hint.clone(),
        nl: g.nl.clone(),
        nl_if,
        nl_func,
        item,
        if_at,
        func_at,
        table_at,
        around,
        around_node,
        iv,
        single,
        oneline: RefCell::new(vec![false; p.tables.len()]),
        has_indent: RefCell::new(vec![false; p.tables.len()]),
        trail_of,
        last_field,
        shebang: shebang.is_some(),
        steps: RefCell::new(0),
    };
    let o = Opts {
        nl_if: c.num("newline_format_if"),
        nl_func: c.num("newline_format_function"),
        ctor: c.num("newline_format_table_constructor"),
        field: c.num("newline_format_table_field"),
        trail: bool_of(c, "write_trailing_field_separator"),
        at_table: bool_of(c, "write_newline_at_multiline_table"),
        list_table: bool_of(c, "write_newline_at_explist_multiline_table"),
    };
    let mut st = St {
        list: vec![None; p.lists.len()],
        chain: vec![None; p.chains.len()],
        table: vec![None; p.tables.len()],
        hit_list: vec![false; p.lists.len()],
        hit_chain: vec![false; p.chains.len()],
        hit_table: vec![false; p.tables.len()],
        op: vec![None; p.ops.len()],
    };
    let mut f = String::new();
    if let Some(s) = shebang {
        if !blank_only(&src[..s.s]) {
            return None;
        }
        m.w.gap(&mut f, &src[..s.s], "", s.text(src), true, "")?;
        f += s.text(src);
        f.push('\n');
    }
    m.emit(&o, 0, n, true, &mut f, &mut st)?;
    Some(f)
}
