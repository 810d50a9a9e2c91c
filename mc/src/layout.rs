//! A reference model of the layout: from the structure of a program (independent parser), the text between its tokens
//! and the options other than the widths and the one-line options, the exact text the formatter has to write.
//! Written from the meaning of the options; shares no code with the formatter.

use crate::cfgs::{Cfg, V};
use crate::lua::{self, Parsed, Role, K};

/// What a piece of the output is, for attributing a difference.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Piece {
    Code,
    /// white space without comments, no line break asked for
    Blank,
    /// white space without comments, where an option asks for a line break
    Break,
    /// comments between two tokens
    Comment,
}

pub struct Model {
    pub text: String,
    /// (end in the text, what)
    pub pieces: Vec<(usize, Piece)>,
}

/// One option's view of the gaps in front of the tokens.
pub struct Gaps<'a> {
    /// what stands in a gap without line break
    pub hint: Vec<&'a str>,
    /// the gap is broken by an option
    pub nl: Vec<bool>,
    /// the gap is written, then a line break is asked for at its end
    then_nl: Vec<bool>,
    /// an empty table: broken only if the gap has line breaks
    empty_table: Vec<bool>,
    /// a table that is asked to stand on a new line (after its gap)
    before_table: Vec<bool>,
    /// first suffix of a chain
    chain_start: Vec<bool>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Span {
    Op(usize),
    Chain(usize),
    Plain,
}

pub fn blank_only(s: &str) -> bool {
    s.bytes().all(|b| matches!(b, b' ' | b'\t' | b'\n'))
}

/// The options the model does not cover.
pub fn covered(c: &Cfg) -> bool {
    let forced = |n: &str, v: &V| n.starts_with("force_single_line") && *v != V::B(false);
    let tables = ["force_single_line_table", "force_single_line_iv_table_field"];
    match c.num("max_width") {
        // the one-line options need a width (those for tables say more)
        None => c.set.iter().all(|(n, v)| !forced(n, v) || !tables.contains(n)),
        // no line is so long
        Some(w) => w >= 1_000_000 && !c.set.iter().any(|(n, v)| forced(n, v)),
    }
}

pub fn gaps<'a>(src: &str, p: &Parsed, c: &'a Cfg) -> Gaps<'a> {
    let n = p.toks.len();
    let text = |t: usize| p.toks[t].text(src);
    let op = |t: usize, s: &str| p.toks[t].k == K::Op && text(t) == s;
    let mut g = Gaps {
        hint: vec![" "; n + 1],
        nl: vec![false; n + 1],
        then_nl: vec![false; n + 1],
        empty_table: vec![false; n + 1],
        before_table: vec![false; n + 1],
        chain_start: vec![false; n + 1],
    };
    let on = |o: &str| c.num(o) == Some(1);
    // by the tokens
    let binary: Vec<bool> = (0..n).map(|t| p.ops.iter().any(|o| o.1 == t)).collect();
    for t in 0..n {
        let punct = |t: usize| ["(", "[", ".", ":"].iter().any(|s| op(t, s));
        if t > 0 && (punct(t - 1) || !binary[t - 1] && (op(t - 1, "-") || op(t - 1, "#") || op(t - 1, "~"))) {
            g.hint[t] = "";
        }
        if [",", ")", "]", ".", ":"].iter().any(|s| op(t, s)) || p.roles[t] != Role::Plain {
            g.hint[t] = "";
        }
    }
    // by the structure
    for f in &p.fbodies {
        g.hint[f.0] = "";
    }
    for (_, _, ss) in &p.chains {
        for s in ss {
            g.hint[*s] = "";
            if op(*s, ":") {
                g.hint[*s + 2] = "";
            }
            if c.has("newline_format_var_suffix") && (op(*s, ".") || op(*s, ":")) {
                if *s == ss[0] {
                    g.then_nl[*s] = true;
                } else {
                    g.nl[*s] = true;
                }
            }
        }
        g.chain_start[ss[0]] = true;
    }
    for o in &p.ops {
        if on("newline_format_binary_op") {
            g.nl[o.1] = true;
        }
        if c.num("newline_format_binary_op") == Some(2) {
            g.nl[o.1 + 1] = true;
        }
    }
    for l in p.lists.iter().filter(|l| l.kind == "exp") {
        for (i, it) in l.items.iter().enumerate() {
            if i == 0 {
                if on("newline_format_exp_list_first") {
                    g.then_nl[it.0] = true;
                }
            } else {
                let table = p.tables.iter().any(|t| (t.open, t.close) == *it && !t.fields.is_empty());
                let tables = c.is("write_newline_at_explist_multiline_table") && c.get("write_newline_at_multiline_table") == Some(&V::B(false));
                let lists = c.has("newline_format_exp_list") || c.has("newline_format_exp_list_first");
                if on("newline_format_exp_list") || table && tables && lists {
                    g.nl[it.0] = true;
                }
            }
        }
    }
    for t in &p.tables {
        let h = c.str("hint_table_constructor").unwrap_or("");
        g.hint[t.open + 1] = h;
        g.hint[t.close] = h;
        if t.fields.is_empty() {
            g.empty_table[t.close] = c.has("newline_format_table_constructor");
            continue;
        }
        if c.is("write_newline_at_multiline_table") {
            g.before_table[t.open] = true;
        }
        if on("newline_format_table_constructor") {
            g.nl[t.close] = true;
        }
        if c.has("newline_format_table_field") {
            for (i, f) in t.fields.iter().enumerate() {
                if i == 0 {
                    g.then_nl[f.0] = true;
                } else {
                    g.nl[f.0] = true;
                }
            }
        }
    }
    for s in &p.stats {
        match s.kind {
            // follows its statement without blank, and the word that opens the block with one
            ";" => g.hint[s.first] = if p.blocks.iter().any(|b| b.first == s.first) { " " } else { "" },
            "label" => {
                g.hint[s.first + 1] = "";
                g.hint[s.last] = "";
            }
            "return" if op(s.last, ";") => g.hint[s.last] = "",
            _ => {}
        }
        if s.kind != ";" {
            g.hint[s.first] = " ";
        }
        let starts = s.first == 0 || p.blocks.iter().any(|b| b.first == s.first);
        if !starts && c.has("newline_format_statement") {
            g.nl[s.first] = true;
        }
    }
    for b in &p.blocks {
        let o = match b.kind {
            "do" => "newline_format_do_end",
            "while" => "newline_format_while",
            "repeat" => "newline_format_repeat_until",
            "for" | "for2" => "newline_format_for",
            "function" => "newline_format_function",
            _ => "newline_format_if",
        };
        if b.first < b.close {
            g.nl[b.first] |= on(o);
            g.nl[b.close] |= on(o);
        } else {
            // empty blocks of these kinds stay on their line
            let short = b.kind == "do" || b.kind == "for2" || b.kind == "then" && text(b.close) == "else";
            g.nl[b.close] = on(o) && !short;
        }
    }
    if n > 0 {
        g.hint[0] = "";
    }
    g.hint[n] = "";
    g.nl[n] = c.is("write_newline_at_eof");
    g
}

/// Constructs that indent the gaps inside them: (first token, last token, first gap, last gap, what).
fn spans(src: &str, p: &Parsed, c: &Cfg, g: &Gaps) -> Vec<(usize, usize, usize, usize, Span)> {
    let mut v = vec![];
    let mut plain = |a: usize, b: usize, ga: usize, gb: usize| v.push((a, b, ga, gb, Span::Plain));
    for b in &p.blocks {
        if b.first < b.close {
            plain(b.first, b.close - 1, b.first, b.close - 1);
        }
    }
    for f in &p.fbodies {
        let close = (f.0..).find(|t| p.toks[*t].text(src) == ")").unwrap();
        if close > f.0 + 1 {
            plain(f.0 + 1, close - 1, f.0 + 1, close);
        }
    }
    for t in &p.tables {
        if !t.fields.is_empty() {
            plain(t.open + 1, t.close - 1, t.open + 1, t.close - 1);
        }
    }
    for l in p.lists.iter().filter(|l| l.kind == "exp") {
        let broken = l.items.iter().any(|i| g.nl[i.0] || g.then_nl[i.0]);
        if c.is("indent_exp_list") && (c.is("indent_one_line_exp_list") || broken) {
            let (a, mut b) = (l.items[0].0, l.items[l.items.len() - 1].1);
            let last = b;
            if p.stats.iter().any(|s| s.kind == "return" && s.last == b + 1 && s.first + 1 == a) {
                b += 1;
            }
            plain(a, last, a, b);
        }
    }
    for (_, last, ss) in &p.chains {
        if c.is("indent_var_suffix") {
            let broken = ss.iter().any(|s| g.nl[*s] || g.then_nl[*s]);
            if c.is("indent_one_line_var_suffix") || broken {
                v.push((ss[0], *last, ss[0], *last, Span::Plain));
            } else if c.has("newline_format_var_suffix") {
                v.push((ss[0], *last, ss[0], *last, Span::Chain(ss[0])));
            }
        }
    }
    for o in &p.ops {
        v.push((o.0, o.2, o.0 + 1, o.2, Span::Op(o.1)));
    }
    v
}

pub struct W<'a> {
    pub c: &'a Cfg,
    pub unit: &'a str,
}

#[derive(Debug)]
enum El {
    Nl,
    One(String),
    Long(usize, String),
}

impl W<'_> {
    /// a line break at the end of the text
    pub fn break_line(f: &mut String, indent: &str) {
        while f.len() > 1 && f.ends_with([' ', '\t']) {
            f.pop();
        }
        if !f.ends_with('\n') {
            f.push('\n');
        }
        f.push_str(indent);
    }

    fn one(&self, s: &str) -> String {
        if self.c.is("remove_comments") {
            return if self.c.is("remove_all_newlines") { String::new() } else { "\n".into() };
        }
        match self.c.str("hint_before_oneline_comment_text") {
            None => format!("--{}\n", s),
            Some(h) => {
                let t = s.trim_start();
                let bracket = t.starts_with('[') && t[1..].trim_start_matches('=').starts_with('[');
                if t.is_empty() {
                    "--\n".into()
                } else if h.is_empty() && bracket {
                    format!("-- {}\n", t)
                } else {
                    format!("--{}{}\n", h, t)
                }
            }
        }
    }

    fn long(&self, level: usize, s: &str) -> String {
        if self.c.is("remove_comments") {
            return String::new();
        }
        let eq = "=".repeat(level);
        let (mut before, mut after, mut t) = ("", "", s);
        if let Some(h) = self.c.str("hint_before_multiline_comment_text") {
            before = h;
            t = t.trim_start();
        }
        if let Some(h) = self.c.str("hint_after_multiline_comment_text") {
            after = h;
            t = t.trim_end();
            if h.is_empty() && t.ends_with(&format!("]{}", eq)) {
                after = " ";
            }
        }
        format!("--[{}[{}{}{}]{}]", eq, before, t, after, eq)
    }

    /// The comments and line breaks of a gap, after the last character of the text before it.
    fn block(&self, last: char, gap: &str, indent: &str) -> Option<String> {
        let c = self.c;
        let keep = |b: &str| if c.is("remove_spaces_between_tokens") { String::new() } else { b.to_string() };
        // blanks before each element, the elements, blanks at the end
        let items = lua::lex(gap, true).ok()?;
        let mut els: Vec<(String, El)> = vec![];
        let mut at = 0;
        let blanks = |s: &str, els: &mut Vec<(String, El)>| -> String {
            let mut b = String::new();
            for ch in s.chars() {
                if ch == '\n' {
                    els.push((std::mem::take(&mut b), El::Nl));
                } else {
                    b.push(ch);
                }
            }
            b
        };
        let mut rest;
        let mut skip = 0;
        for it in &items {
            rest = blanks(&gap[at + skip..it.s], &mut els);
            let t = it.text(gap);
            if it.k == K::LineComment {
                els.push((rest, El::One(t[2..].to_string())));
                // its line break belongs to it
                skip = gap[it.e..].starts_with('\n') as usize;
            } else {
                let (level, s) = lua::long_parts(t);
                els.push((rest, El::Long(level, s.to_string())));
                skip = 0;
            }
            at = it.e;
        }
        rest = blanks(&gap[at + skip..], &mut els);
        let mut f = String::from(last);
        if els.is_empty() {
            f += &keep(&rest);
            return Some(f[last.len_utf8()..].to_string());
        }
        f += &keep(&els[0].0);
        let single = els.len() == 1 && matches!(els[0].1, El::Nl) && c.is("remove_single_newlines");
        if !single {
            for k in 0..els.len() {
                let (b, el) = &els[k];
                let comment = !matches!(el, El::Nl);
                // a comment that follows a comment, or begins after line breaks
                let follows = k > 0 && comment && !matches!(els[k - 1].1, El::Nl);
                let o = match (el, k) {
                    (El::Nl, _) => None,
                    (El::One(_), 0) => Some("newline_format_first_oneline_comment"),
                    (El::One(_), _) => Some("newline_format_oneline_comment"),
                    (El::Long(..), 0) => Some("newline_format_first_multiline_comment"),
                    (El::Long(..), _) => Some("newline_format_multiline_comment"),
                };
                if o.map_or(false, |o| c.num(o) == Some(1)) {
                    W::break_line(&mut f, indent);
                } else if k > 0 {
                    if !c.is("remove_spaces_between_tokens") {
                        f += b;
                    } else if follows && !(c.has("indentation_string") && f.ends_with('\n')) {
                        f += c.str("hint_before_comment").unwrap_or("");
                    }
                }
                match el {
                    El::Nl => {
                        if !c.is("remove_all_newlines") {
                            f.push('\n')
                        }
                    }
                    El::One(s) => f += &self.one(s),
                    El::Long(l, s) => f += &self.long(*l, s),
                }
            }
        }
        f += &keep(&rest);
        Some(f[last.len_utf8()..].to_string())
    }

    /// A gap written at the end of `f`.
    pub fn gap(&self, f: &mut String, gap: &str, hint: &str, next: &str, begins: bool, indent: &str) -> Option<()> {
        let b = self.block(f.chars().last().unwrap_or(' '), gap, indent)?;
        if b.is_empty() {
            let zero = self.c.is("replace_zero_spaces_with_hint");
            if zero && !f.ends_with([' ', '\t']) {
                f.push_str(hint);
            }
            if !blank_only(gap) || gap.contains('\n') || zero && !gap.is_empty() {
                if merges(f, next) {
                    f.push(' ');
                }
            }
            return Some(());
        }
        if b.starts_with('-') && !(self.c.has("indentation_string") && begins) {
            f.push_str(self.c.str("hint_before_comment").unwrap_or(""));
        }
        if b.starts_with('-') && f.ends_with('-') {
            f.push(' ');
        }
        f.push_str(&b);
        if b.ends_with(']') {
            f.push_str(self.c.str("hint_after_multiline_comment").unwrap_or(""));
        }
        Some(())
    }

    /// A gap that an option breaks.
    pub fn gap_nl(&self, f: &mut String, gap: &str, next: &str, begins: bool, indent: &str) -> Option<()> {
        let mut b = String::new();
        self.gap(&mut b, gap, "", next, begins, indent)?;
        let t = b.trim_end_matches([' ', '\t']);
        if t.is_empty() {
            W::break_line(f, indent);
        } else {
            f.push_str(t);
            if !t.ends_with('\n') {
                f.push('\n');
            }
            f.push_str(indent);
        }
        Some(())
    }
}

/// The last token of `f` and the beginning of `next` are not two tokens when they touch.
fn merges(f: &str, next: &str) -> bool {
    let first = match next.chars().next() {
        Some(c) => c,
        None => return false,
    };
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let last = match f.chars().last() {
        Some(c) => c,
        None => return false,
    };
    match last {
        '-' => first == '-',
        '[' => first == '[' || first == '=',
        '.' => first == '.',
        _ if word(last) && first == '.' => {
            let w = f.rfind(|c| !word(c)).map_or(0, |i| i + f[i..].chars().next().unwrap().len_utf8());
            let digit = |s: &str| s.starts_with(|c: char| c.is_ascii_digit());
            let before = &f[..w];
            digit(&f[w..]) || f[w..].starts_with(['e', 'E']) && before.ends_with('.') && before[..before.len() - 1].ends_with(|c: char| c.is_ascii_digit())
        }
        _ => word(last) && word(first),
    }
}

/// A single-quoted string as a double-quoted one.
pub fn requote(s: &str, out: &mut String) {
    out.push('"');
    let mut escaped = false;
    for ch in s[1..s.len() - 1].chars() {
        if ch == '"' && !escaped {
            out.push('\\');
        }
        escaped = ch == '\\' && !escaped;
        out.push(ch);
    }
    out.push('"');
}

/// The text to be written for a program; None if the program or the options are outside the model.
pub fn model(src: &str, p: &Parsed, c: &Cfg) -> Option<Model> {
    if !covered(c) || p.toks.is_empty() || src.contains(['\r', '\u{b}', '\u{c}']) {
        return None;
    }
    let n = p.toks.len();
    let g = gaps(src, p, c);
    let sp = spans(src, p, c, &g);
    // operators that continue a chain of the same operator do not indent again
    let mut kept = vec![];
    for (i, s) in sp.iter().enumerate() {
        if let Span::Op(o) = s.4 {
            let around = sp
                .iter()
                .enumerate()
                .filter(|(j, e)| *j != i && e.0 <= s.0 && s.1 <= e.1 && !matches!(e.4, Span::Chain(_)) && (e.0 < s.0 || s.1 < e.1 || !matches!(e.4, Span::Op(_))))
                .min_by_key(|(_, e)| (e.1 - e.0, !matches!(e.4, Span::Op(_))));
            if let Some((_, e)) = around {
                if let Span::Op(x) = e.4 {
                    if p.toks[x].text(src) == p.toks[o].text(src) {
                        continue;
                    }
                }
            }
        }
        kept.push(*s);
    }
    let w = W { c, unit: c.str("indentation_string").unwrap_or("") };
    let mut out = String::new();
    let mut pieces = vec![];
    let mut live = vec![]; // chains that turned out to be broken
    let mut at = 0;
    let shebang = p.items.first().filter(|i| i.k == K::Shebang);
    if let Some(s) = shebang {
        w.gap(&mut out, &src[..s.s], "", s.text(src), true, "")?;
        out += s.text(src);
        pieces.push((out.len(), Piece::Code));
        out.push('\n');
        at = s.e + src[s.e..].starts_with('\n') as usize;
        pieces.push((out.len(), Piece::Blank));
    }
    for t in 0..=n {
        let end = if t < n { p.toks[t].s } else { src.len() };
        let gap = &src[at..end];
        let next = if t < n { p.toks[t].text(src) } else { "" };
        let commented = !blank_only(gap);
        let begins = at == 0 || at > 0 && shebang.is_some() && t == 0;
        let inside = |live: &[usize]| kept.iter().filter(|s| s.2 <= t && t <= s.3 && !matches!(s.4, Span::Chain(x) if !live.contains(&x))).count();
        if g.chain_start[t] && c.has("newline_format_var_suffix") {
            // the line is broken already after a comment
            let mut probe = out.clone();
            w.gap(&mut probe, gap, g.hint[t], next, begins, "")?;
            if probe.ends_with('\n') {
                live.push(t);
            }
        }
        let indent = w.unit.repeat(inside(&live));
        let mut broken = g.nl[t];
        if g.empty_table[t] {
            let mut probe = String::new();
            w.gap(&mut probe, gap, g.hint[t], next, begins, &indent)?;
            broken = probe.contains('\n');
        }
        if broken {
            w.gap_nl(&mut out, gap, next, begins, &indent)?;
        } else {
            w.gap(&mut out, gap, g.hint[t], next, begins, &indent)?;
            if g.then_nl[t] || live.contains(&t) {
                broken = true;
                W::break_line(&mut out, &indent);
            }
        }
        if t < n && g.before_table[t] {
            // inside the operations that begin with the table
            let ops = kept.iter().filter(|s| s.0 == t && matches!(s.4, Span::Op(_))).count();
            broken = true;
            W::break_line(&mut out, &(indent + &w.unit.repeat(ops)));
        }
        let what = if commented {
            Piece::Comment
        } else if broken {
            Piece::Break
        } else {
            Piece::Blank
        };
        pieces.push((out.len(), what));
        if t == n {
            break;
        }
        at = p.toks[t].e;
        // the token itself
        let sep = c.str("field_separator");
        let trail = match c.get("write_trailing_field_separator") {
            Some(V::B(b)) => Some(*b),
            _ => None,
        };
        match p.roles[t] {
            Role::FieldSep => out += sep.unwrap_or(next),
            Role::TrailSep => {
                if trail != Some(false) {
                    out += sep.unwrap_or(next);
                }
            }
            _ if p.toks[t].k == K::Str && next.starts_with('\'') && c.is("convert_charstring_to_normalstring") => {
                requote(next, &mut out);
            }
            _ => out += next,
        }
        pieces.push((out.len(), Piece::Code));
        // a separator is added after the last field
        if trail == Some(true) {
            for tb in &p.tables {
                if let Some(f) = tb.fields.last() {
                    if f.1 == t && p.roles[t + 1] != Role::TrailSep {
                        out += sep.unwrap_or("");
                        pieces.push((out.len(), Piece::Code));
                    }
                }
            }
        }
    }
    Some(Model { text: out, pieces })
}
