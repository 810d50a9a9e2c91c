//! C10 blocks and indentation, C11 one line or several.

use super::*;
use crate::cfgs::V;

/// The shipped options with nothing collapsed onto one line.
pub fn open_cfg(indent: &str) -> Cfg {
    let mut c = cfgs::shipped();
    c.set.retain(|(n, _)| !n.starts_with("force_single_line") && *n != "max_width");
    c.set.retain(|(n, _)| *n != "indentation_string");
    c.set.push(("indentation_string", V::S(indent.into())));
    c.name = format!("open {:?}", indent);
    c
}

/// What makes lines that continue a construct.
const CONTINUED: &[&str] = &[
    "newline_format_binary_op",
    "newline_format_var_suffix",
    "newline_format_exp_list",
    "newline_format_exp_list_first",
    "indent_var_suffix",
    "indent_exp_list",
];

/// The same without continuation lines (lists, operators and suffixes stay on their line).
pub fn plain_cfg(indent: &str) -> Cfg {
    let mut c = open_cfg(indent);
    c.set.retain(|(n, _)| !CONTINUED.contains(n));
    c.name = format!("plain {:?}", indent);
    c
}

/// Where a token stands in the output.
struct Place<'a> {
    out: &'a str,
    p: &'a Parsed,
    unit: &'a str,
}

impl Place<'_> {
    /// text between the start of the line and the token
    fn before(&self, t: usize) -> &str {
        let at = self.p.toks[t].s;
        let ls = self.out[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
        &self.out[ls..at]
    }
    fn first(&self, t: usize) -> bool {
        self.before(t).bytes().all(|b| b == b' ' || b == b'\t')
    }
    /// indentation of the line that holds the token, in units (None: not a whole number of units)
    fn level(&self, t: usize) -> Option<usize> {
        let at = self.p.toks[t].s;
        let ls = self.out[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
        let line = &self.out[ls..];
        // a comment before the first statement of the file, on its line
        if ls == 0 && line.trim_start_matches([' ', '\t']).starts_with("--") {
            return Some(0);
        }
        let mut n = 0;
        let mut k = 0;
        while line[n..].starts_with(self.unit) {
            n += self.unit.len();
            k += 1;
        }
        if line[n..].starts_with(' ') || line[n..].starts_with('\t') {
            None
        } else {
            Some(k)
        }
    }
    /// the first token of the line that holds the token
    fn line_start(&self, t: usize) -> usize {
        let at = self.p.toks[t].s;
        let ls = self.out[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
        (0..=t).find(|i| self.p.toks[*i].s >= ls).unwrap_or(t)
    }
    fn text(&self, t: usize) -> &str {
        self.p.toks[t].text(self.out)
    }
    /// the token the end of an anonymous function is compared with: a line that continues a chain of suffixes
    /// (`.a`, `:b`) has the indentation of the chain, so the beginning of the statement counts
    fn home_of(&self, owner: usize) -> usize {
        let start = self.line_start(owner);
        if ![".", ":"].contains(&self.text(start)) {
            return owner;
        }
        self.p.stats.iter().filter(|s| s.first <= owner && owner <= s.last).map(|s| s.first).max().unwrap_or(owner)
    }
}

fn judge_blocks(out: &str, p: &Parsed, unit: &str, plain: bool) -> Result<bool, String> {
    let w = Place { out, p, unit };
    let mut seen = false;
    let line = |t: usize| out[..p.toks[t].s].matches('\n').count() + 1;
    for s in &p.stats {
        if s.kind == ";" || s.first == 0 {
            continue;
        }
        if !w.first(s.first) {
            return Err(format!("line {}: the statement at {:?} does not start its line", line(s.first), w.text(s.first)));
        }
        let home = p.blocks.iter().filter(|b| b.first <= s.first && s.last < b.close).max_by_key(|b| b.first);
        let l = w.level(s.first).ok_or(format!("line {}: the indentation is no multiple of the indentation string", line(s.first)))?;
        let want = match home {
            None => 0,
            Some(b) => match w.level(b.close) {
                Some(n) => n + 1,
                None => return Err(format!("line {}: odd indentation of {:?}", line(b.close), w.text(b.close))),
            },
        };
        if l != want {
            return Err(format!("line {}: the statement is indented by {} levels, not by {}", line(s.first), l, want));
        }
        seen = true;
    }
    for b in &p.blocks {
        if b.first == b.close {
            continue;
        }
        if !w.first(b.close) {
            return Err(format!("line {}: {:?} does not start its line", line(b.close), w.text(b.close)));
        }
        if !b.anon {
            if w.level(b.close) != w.level(b.owner) {
                return Err(format!("line {}: {:?} is not aligned with line {}, which begins its statement", line(b.close), w.text(b.close), line(b.owner)));
            }
        } else if w.level(b.close) < w.level(w.home_of(b.owner)) {
            return Err(format!("line {}: {:?} is indented less than line {}, which begins its function", line(b.close), w.text(b.close), line(b.owner)));
        }
        seen = true;
    }
    for t in &p.tables {
        let fields_first: Vec<usize> = t.fields.iter().map(|f| f.0).filter(|f| w.first(*f)).collect();
        if fields_first.is_empty() || !w.first(t.close) {
            continue;
        }
        // the line that opens the table may be a continuation line, which is indented itself
        let l = w.level(t.close);
        let start = w.line_start(t.open);
        let straight = plain
            && (p.stats.iter().any(|s| s.first == start) || p.tables.iter().any(|t| t.fields.iter().any(|f| f.0 == start)))
            && !p.ops.iter().any(|o| o.0 >= start && o.0 <= t.open && t.open <= o.2);
        if l.is_none() || straight && l != w.level(t.open) {
            return Err(format!("line {}: the closing brace is not aligned with line {}, which opens the table", line(t.close), line(t.open)));
        }
        for f in fields_first {
            if w.level(f) != l.map(|n| n + 1) {
                return Err(format!("line {}: the table field is not indented one level deeper than the closing brace of line {}", line(f), line(t.close)));
            }
        }
        seen = true;
    }
    Ok(seen)
}

/// Statements and blocks get lines of their own, nothing is collapsed.
fn blocks_open(c: &Cfg) -> bool {
    ["statement", "do_end", "for", "function", "if", "repeat_until", "while"].iter().all(|n| c.num(&format!("newline_format_{}", n)) == Some(1))
        && c.str("indentation_string").map_or(false, |s| !s.is_empty())
        && (!c.is("remove_spaces_between_tokens") || c.is("replace_zero_spaces_with_hint"))
        && !c.set.iter().any(|(n, v)| n.starts_with("force_single_line") && *v == V::B(true))
}

pub static C10: Prop = Prop {
    id: "C10",
    level: "exploration",
    rule: "sources as in C01 plus every nesting of every block construct in every other, under the shipped options without the one-line options, with three \
           indentation strings; every option and every two options set to anything (or left out) around several base sets, over six programs of intricate statements (where the options leave blocks open). Non-trivial: at least one statement after the first, block or multi-line table was located in the output.",
    assumptions: &["structure of the output by the independent parser", "the first statement of the file and lone semicolons are left out"],
    explore: |e, p| {
        let th = e.thorough();
        let cs: Vec<Arc<Cfg>> = vec![Arc::new(plain_cfg("    ")), Arc::new(open_cfg("\t")), Arc::new(plain_cfg("  "))];
        sweep_texts(e, p, &odd_texts(), &cs);
        sweep_texts(e, p, &crate::lexical::long_texts(if th { 1100 } else { 300 }), &cs[..2]);
        sweep(e, p, &standard(0), &cs);
        sweep(e, p, &items(mixed_nests(2), Vary::GapShort), &cs);
        sweep(e, p, &items(mixed_nests(3), Vary::Two), &cs);
        sweep(e, p, &standard(if th { 2 } else { 1 }), &cs);
        sweep(e, p, &progs(2, Vary::GapShort), &cs);
        sweep(e, p, &items(mixed_nests(4), Vary::Two), &cs[..if th { 3 } else { 1 }]);
        sweep_texts(e, p, &rich(), &two_options(&[open_cfg("    ")], &blocks_open));
        if th {
            sweep(e, p, &items(mixed_nests(3), Vary::GapShort), &cs);
        }
    },
    judge: |c| {
        let o = match c.run() {
            Out::Ok(o) => o,
            Out::Refused(_) => return Verdict::Trivial,
            x => return Verdict::Fail(format!("{:?}", x)),
        };
        let p = match lua::parse(&o, true) {
            Ok(p) => p,
            Err(m) => return Verdict::Fail(format!("output is not Lua: {}", m)),
        };
        match judge_blocks(&o, &p, c.cfg.str("indentation_string").unwrap_or("    "), !CONTINUED.iter().any(|n| c.cfg.has(n))) {
            Ok(true) => Verdict::Pass,
            Ok(false) => Verdict::Trivial,
            Err(m) => Verdict::Fail(format!("{}\noutput: {:?}", m, o)),
        }
    },
};

pub const KINDS: &[(&str, &[&str])] = &[
    ("if", &["newline_format_if", "force_single_line_if"]),
    ("function", &["newline_format_function", "force_single_line_top_level_function", "force_single_line_scoped_function"]),
    ("top", &["newline_format_function", "force_single_line_top_level_function"]),
    ("scoped", &["newline_format_function", "force_single_line_scoped_function"]),
    ("table", &["newline_format_table_constructor", "newline_format_table_field", "force_single_line_table"]),
    ("op", &["newline_format_binary_op", "force_single_line_binary_op"]),
    ("op2", &["newline_format_binary_op", "force_single_line_binary_op"]),
    ("list", &["newline_format_exp_list", "indent_exp_list", "force_single_line_exp_list"]),
    ("list1", &["newline_format_exp_list", "newline_format_exp_list_first", "indent_exp_list", "force_single_line_exp_list"]),
    ("suffix", &["newline_format_var_suffix", "indent_var_suffix", "force_single_line_var_suffix"]),
];

/// Options that collapse one kind of construct (or the shipped ones) under a maximum width.
pub fn width_cfg(kind: &str, w: usize) -> Arc<Cfg> {
    let mut c = match kind {
        "shipped" => cfgs::shipped(),
        _ => {
            let mut c = cfgs::empty();
            for n in ["replace_zero_spaces_with_hint", "remove_single_newlines", "remove_spaces_between_tokens"] {
                c.set.push((n, V::B(true)));
            }
            c.set.push(("hint_before_comment", V::S(" ".into())));
            c.set.push(("field_separator", V::S(",".into())));
            c.set.push(("indentation_string", V::S("   ".into())));
            for n in KINDS.iter().find(|k| k.0 == kind).unwrap().1 {
                let v = match n.starts_with("newline") {
                    true => V::U(if kind == "op2" { 2 } else { 1 }),
                    false => V::B(true),
                };
                c.set.push((n, v));
            }
            c
        }
    };
    c.set.retain(|(n, _)| *n != "max_width");
    c.set.push(("max_width", V::U(w)));
    c.name = format!("one-line {} {}", kind, w);
    Arc::new(c)
}

const WIDE: usize = 1_000_000;

struct Text<'a> {
    s: &'a str,
    p: Parsed,
}

impl Text<'_> {
    fn of(&self, a: usize, b: usize) -> &str {
        &self.s[self.p.toks[a].s..self.p.toks[b].e]
    }
    fn between(&self, a: usize, b: usize) -> &str {
        &self.s[self.p.toks[a].e..self.p.toks[b].s]
    }
    /// characters of the line in front of a byte position
    fn col(&self, at: usize) -> usize {
        let ls = self.s[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
        self.s[ls..at].chars().count()
    }
    fn col_start(&self, t: usize) -> usize {
        self.col(self.p.toks[t].s)
    }
    fn col_end(&self, t: usize) -> usize {
        self.col(self.p.toks[t].e)
    }
}

fn first_line(s: &str) -> usize {
    s.split('\n').next().unwrap_or("").chars().count()
}

fn len(s: &str) -> usize {
    s.chars().count()
}

/// Nothing in the source text of the construct asks for a line break.
fn free_of_breaks(src: &Text, a: usize, b: usize) -> bool {
    (a..=b).all(|t| !src.of(t, t).contains('\n'))
        && (a..b).all(|t| {
            let g = src.between(t, t + 1);
            !g.contains("--") && g.matches('\n').count() < 2
        })
}

/// An operation with its right operand; a chain of the operators that group to the right is measured one operand at a time.
fn operand(t: &Text, i: usize) -> (usize, usize, usize) {
    let o = t.p.ops[i];
    // signs before the operand do not end the chain: a ^ -b ^ c has the operands a, -b, c
    let sign = |k: usize| ["-", "not", "#", "~"].contains(&t.of(k, k));
    let next = t
        .p
        .ops
        .iter()
        .filter(|n| n.0 > o.1 && (o.1 + 1..n.0).all(sign) && n.2 == o.2 && t.of(n.1, n.1) == t.of(o.1, o.1))
        .map(|n| n.1)
        .min();
    match next {
        Some(n) => (o.0, o.1, n - 1),
        None => o,
    }
}

fn judge_width(kind: &str, w: usize, cfg: &Cfg, src: &Text, out: &Text, wide: &Text) -> Result<bool, String> {
    let mut seen = false;
    let all = kind == "shipped";
    let mut whole = |name: &str, s: (usize, usize), o: (usize, usize), x: (usize, usize), strict: bool| -> Result<(), String> {
        let flat = out.of(o.0, o.1);
        if !flat.contains('\n') {
            seen = true;
            if out.col_end(o.1) >= w {
                return Err(format!("{} {:?} stays on one line that is {} characters long at its end (maximum width {})", name, flat, out.col_end(o.1), w));
            }
            return Ok(());
        }
        let flat = wide.of(x.0, x.1);
        if flat.contains('\n') {
            if strict && free_of_breaks(src, s.0, s.1) {
                return Err(format!("{} {:?} is broken over lines whatever the width", name, flat));
            }
            return Ok(());
        }
        // sources spelled with more than twice the maximum width are not tried
        if src.of(s.0, s.1).len() >= 2 * w {
            return Ok(());
        }
        seen = true;
        if out.col_start(o.0) + len(flat) < w {
            return Err(format!(
                "{} {:?} is broken over lines although it would end at column {} (maximum width {})",
                name,
                flat,
                out.col_start(o.0) + len(flat),
                w
            ));
        }
        Ok(())
    };
    if src.p.ifs.len() != out.p.ifs.len() || src.p.tables.len() != out.p.tables.len() || src.p.ops.len() != out.p.ops.len() {
        return Err("the structure of the output differs".into());
    }
    if kind == "if" || all {
        for i in 0..src.p.ifs.len() {
            whole("if", src.p.ifs[i], out.p.ifs[i], wide.p.ifs[i], !all)?;
        }
    }
    if kind == "table" || all {
        for i in 0..src.p.tables.len() {
            let t = |x: &Text| (x.p.tables[i].open, x.p.tables[i].close);
            if !src.p.tables[i].fields.is_empty() {
                whole("table", t(src), t(out), t(wide), !all)?;
            }
        }
    }
    if ["function", "top", "scoped"].contains(&kind) || all {
        let top = cfg.is("force_single_line_top_level_function");
        let scoped = cfg.is("force_single_line_scoped_function");
        for i in 0..src.p.fbodies.len() {
            let f = src.p.fbodies[i];
            let inside = |o: &(usize, usize)| o.0 < f.0 && f.1 < o.1;
            let nested = src.p.fbodies.iter().any(inside) || src.p.tables.iter().any(|t| inside(&(t.open, t.close)));
            if if nested { scoped } else { top } {
                whole("function", f, out.p.fbodies[i], wide.p.fbodies[i], !all && top && scoped)?;
            } else {
                let o = out.p.fbodies[i];
                let covered = !all && out.p.fbodies.iter().any(|x| x.0 < o.0 && o.1 < x.1 && !out.of(x.0, x.1).contains('\n'));
                if !covered && !out.of(o.0, o.1).contains('\n') {
                    return Err(format!("function {:?} is on one line without its option", out.of(o.0, o.1)));
                }
            }
        }
    }
    let mut part = |name: &str, o: (usize, usize, usize), x: (usize, usize, usize), gap: bool| -> Result<(), String> {
        // (token before, first, last); `gap`: what lies between counts
        let between = out.between(o.0, o.1);
        if between.contains("--") {
            return Ok(());
        }
        let left = out.col_end(o.0);
        if !between.contains('\n') {
            seen = true;
            let end = left + if gap { len(between) } else { 0 } + first_line(out.of(o.1, o.2));
            if end >= w {
                return Err(format!("{} {:?} stays on a line that is {} characters long at its end (maximum width {})", name, out.of(o.1, o.2), end, w));
            }
            return Ok(());
        }
        let flat = wide.of(x.1, x.2);
        let before = wide.between(x.0, x.1);
        if flat.contains('\n') || before.contains('\n') {
            return Ok(());
        }
        seen = true;
        let end = left + if gap { len(before) } else { 0 } + len(flat);
        if end < w {
            return Err(format!("{} {:?} starts a new line although it would end at column {} (maximum width {})", name, flat, end, w));
        }
        Ok(())
    };
    if kind == "op" || kind == "op2" {
        for i in 0..src.p.ops.len() {
            let (o, x) = (operand(out, i), operand(wide, i));
            let (og, xg) = ((out.between(o.1 - 1, o.1), out.between(o.1, o.1 + 1)), (wide.between(x.1 - 1, x.1), wide.between(x.1, x.1 + 1)));
            // comments and blank lines around the operator break the line anyway
            if og.0.contains("--") || og.1.contains("--") || xg.0.contains('\n') || xg.1.contains('\n') {
                continue;
            }
            if kind == "op" {
                if og.1.contains('\n') {
                    return Err(format!("the line is broken after the operator of {:?}", out.of(o.0, o.2)));
                }
                part("operator", (o.1 - 1, o.1, o.2), (x.1 - 1, x.1, x.2), true)?;
            } else {
                if og.0.contains('\n') {
                    return Err(format!("the line is broken before the operator of {:?}", out.of(o.0, o.2)));
                }
                // the operator itself stays on the line anyway
                part("operand", (o.1, o.1 + 1, o.2), (x.1, x.1 + 1, x.2), true)?;
            }
        }
    }
    if kind == "list" || kind == "list1" {
        for (lo, lx) in out.p.lists.iter().zip(&wide.p.lists) {
            if lo.kind != "exp" {
                continue;
            }
            for i in if kind == "list" { 1 } else { 0 }..lo.items.len() {
                let (o, x) = (lo.items[i], lx.items[i]);
                if o.0 > 0 {
                    part("list item", (o.0 - 1, o.0, o.1), (x.0 - 1, x.0, x.1), i == 0)?;
                }
            }
        }
    }
    if kind == "suffix" {
        for (co, cx) in out.p.chains.iter().zip(&wide.p.chains) {
            for i in 0..co.2.len() {
                let b = co.2[i];
                let mut e = if i + 1 < co.2.len() { co.2[i + 1] - 1 } else { co.1 };
                match out.of(b, b) {
                    "." => {}
                    ":" => {
                        let a = b + 2;
                        // brackets that hold nothing and tables are not counted
                        if out.of(a, a) == "{" || out.of(a, a) == "(" && out.of(a + 1, a + 1) == ")" {
                            e = b + 1;
                        }
                    }
                    _ => continue,
                }
                let d = cx.2[i];
                part("suffix", (b - 1, b, e), (d - 1, d, d + (e - b)), false)?;
            }
        }
    }
    Ok(seen)
}

/// Sources whose constructs have contents of several lengths, with characters of several bytes.
pub fn width_texts() -> Vec<String> {
    let mut v = vec![];
    let forms = [
        "if @ then f(@) end",
        "if @ then f(@) elseif @ then @() else b = @ end",
        "if @ then else @() end",
        "do if @ then return @ end end",
        "while @ do if a then if @ then @() end end end",
        "function f(@) return @ end",
        "local function g() @() end",
        "function @.f() end",
        "x = { function(@) return @ end, @ }",
        "return function() return function(@) @() end end",
        "for i = 1, 2 do t = { @, { @ }, @ = { @ = @ } } end",
        "f({ @ }, { [@] = @ })",
        "f{ @; g{ @ }, h = @ }",
        "x = @ .. @ .. (@ + @ * @) .. @",
        "x = not @ and -@ or @ == @",
        "return @ .. f(@ .. @)",
        "f(@, g(@, @), @)",
        "local a, b, c = @, @, { @, @ }",
        "do return @, f(@), @ end",
        "for k, v in @, @ do f(@) end",
        "a.@.b.@(c).d = @.e:f(@):g():h{ @ }",
        "do @:a():b(@.c.@):d'@' end",
        "if @.a.b:c(@, @) .. @ then t = { @, f = function() return @ .. @ end } end",
    ];
    for f in forms {
        for n in [1, 2, 5, 9] {
            for (k, fill) in ["a", "w"].iter().enumerate() {
                let name = fill.repeat(n);
                let mut i = 0;
                let mut t = String::new();
                for ch in f.chars() {
                    if ch == '@' {
                        i += 1;
                        // the second family: every other hole takes a longer name
                        t += &if k == 1 && i % 2 == 0 { format!("{}{}", name, "k".repeat(n)) } else { name.clone() };
                    } else {
                        t.push(ch);
                    }
                }
                v.push(t);
            }
        }
        // strings of multi-byte characters where an expression can stand
        for q in ["\u{e9}\u{e9}\u{e9}", "\u{65e5}\u{672c}"] {
            let t = f.replace("(@)", "\u{1}").replace('@', "v").replace('\u{1}', &format!("(\"{}\")", q));
            v.push(t);
        }
    }
    v.retain(|t| lua::parse(t, false).is_ok());
    v
}

/// Every width at which something can change for a source.
pub fn each_width(e: &Arc<Engine>, p: &'static Prop, src: &str, kinds: &[&str], l: &mut Local) {
    let sp = match parsed(src).as_ref() {
        Ok(_) => parsed(src),
        Err(_) => return,
    };
    let sp = sp.as_ref().as_ref().unwrap();
    for k in kinds {
        let there = match *k {
            "if" => !sp.ifs.is_empty(),
            "function" | "top" | "scoped" => !sp.fbodies.is_empty(),
            "table" => !sp.tables.is_empty(),
            "op" | "op2" => !sp.ops.is_empty(),
            "list" | "list1" => sp.lists.iter().any(|x| x.items.len() > if *k == "list" { 1 } else { 0 }),
            "suffix" => !sp.chains.is_empty(),
            _ => true,
        };
        if !there {
            continue;
        }
        let x = match stable::reference_run(src, &width_cfg(k, WIDE)) {
            Out::Ok(o) => o,
            _ => {
                e.check(p, &Case::new(src, &width_cfg(k, WIDE)), l);
                continue;
            }
        };
        let longest = x.lines().map(len).max().unwrap_or(0);
        l.add("pairs_of_source_and_options", 1);
        for w in (0..=longest + 2).chain([WIDE]) {
            e.check(p, &Case::new(src, &width_cfg(k, w)), l);
        }
    }
}

pub static C11: Prop = Prop {
    id: "C11",
    level: "exploration",
    rule: "sources with every collapsible construct, names of growing length, multi-byte strings, every list, nesting and program of the enumerated space; \
           for each, options that collapse one kind of construct (if, function, top-level or scoped function, table, binary operator broken before or after, \
           expression list with or without its first item, suffix) or the shipped options; for each, every maximum width from 0 to two more than the longest \
           line of the output under an unlimited width. The one-line form of a construct is taken from that output. Non-trivial: the output has such a \
           construct, on one line or broken.",
    assumptions: &[
        "a list item after the first is measured from the separator before it, without the blank in between",
        "a construct spelled in the source with at least twice the maximum width in bytes may stay broken",
    ],
    explore: |e, p| {
        let th = e.thorough();
        let kinds: Vec<&str> = KINDS.iter().map(|k| k.0).chain(["shipped"]).collect();
        let texts = width_texts();
        e.par(texts.len(), |i, l| {
            l.add("sources", 1);
            each_width(e, p, &texts[i], &kinds, l)
        });
        let kinks: Vec<String> = layout::KINKS.iter().map(|s| s.to_string()).collect();
        e.par(kinks.len(), |i, l| {
            l.add("sources", 1);
            each_width(e, p, &kinks[i], &kinds, l)
        });
        let long = crate::lexical::long_texts(if th { 1100 } else { 200 });
        e.par(long.len(), |i, l| {
            l.add("sources", 1);
            for k in &kinds {
                for w in [40, 110, 1000] {
                    e.check(p, &Case::new(&long[i], &width_cfg(k, w)), l);
                }
            }
        });
        for (kind, cs) in layout::families() {
            layout::sweep_texts_widths(e, p, &layout::having(kind, kinks.clone()), &cs);
            if th {
                layout::sweep_texts_widths(e, p, &layout::having(kind, texts.clone()), &cs);
            }
        }
        let mut its = vec![];
        its.extend(items(showcase(), Vary::Two));
        its.extend(items(all_lists(1..=if th { 8 } else { 4 }), Vary::Two));
        its.extend(items(all_nests(1..=if th { 5 } else { 3 }), Vary::Two));
        its.extend(items(mixed_nests(2), Vary::Two));
        its.extend(progs(1, Vary::Layouts));
        its.extend(items(all_lists(2..=2), Vary::GapShort));
        its.extend(items(all_nests(2..=2), Vary::GapShort));
        its.extend(progs(1, Vary::GapShort));
        if th {
            its.extend(progs(2, Vary::Two));
            its.extend(progs(1, Vary::Gap));
            its.extend(items(mixed_nests(3), Vary::Two));
        }
        e.par(its.len(), |i, l| {
            its[i].each(&mut |src| {
                l.add("sources", 1);
                each_width(e, p, src, &kinds, l)
            });
        });
    },
    judge: |c| {
        let kind = match c.cfg.name.split(' ').nth(1) {
            Some(k) => k.to_string(),
            None => return Verdict::Trivial,
        };
        if !c.cfg.name.starts_with("one-line") {
            return layout::broken_as_modelled(c);
        }
        let w = c.cfg.num("max_width").unwrap_or(0);
        let src = match parsed(&c.src).as_ref() {
            Ok(p) => Text { s: &c.src, p: p.clone() },
            Err(_) => return Verdict::Trivial,
        };
        let (o, x) = match (c.run(), stable::reference_run(&c.src, &width_cfg(&kind, WIDE))) {
            (Out::Ok(o), Out::Ok(x)) => (o, x),
            (Out::Refused(_), _) => return Verdict::Trivial,
            x => return Verdict::Fail(format!("{:?}", x)),
        };
        let (po, px) = match (lua::parse(&o, true), lua::parse(&x, true)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(m), _) | (_, Err(m)) => return Verdict::Fail(format!("output is not Lua: {}\noutput: {:?}", m, o)),
        };
        let (out, wide) = (Text { s: &o, p: po }, Text { s: &x, p: px });
        match judge_width(&kind, w, &c.cfg, &src, &out, &wide) {
            Ok(seen) => match layout::broken_as_modelled(c) {
                Verdict::Fail(m) => Verdict::Fail(m),
                _ if seen => Verdict::Pass,
                _ => Verdict::Trivial,
            },
            Err(m) => Verdict::Fail(format!("{}\noutput: {:?}\nwith unlimited width: {:?}", m, o, x)),
        }
    },
};
