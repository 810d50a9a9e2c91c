//! The documented options, their domains and the configurations explored.

use luafmt::config::{Config, FormatOpts};

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum V {
    B(bool),
    U(usize),
    S(String),
}

impl V {
    pub fn text(&self) -> String {
        match self {
            V::B(b) => b.to_string(),
            V::U(u) => u.to_string(),
            V::S(s) => s.clone(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Bool,
    Num,
    Str,
}

macro_rules! options {
    ($($kind:ident $name:ident;)*) => {
        pub const OPTIONS: &[(&str, Kind)] = &[$((stringify!($name), options!(@k $kind)),)*];
        pub fn apply(f: &mut FormatOpts, name: &str, v: &V) {
            match (name, v) {
                $((stringify!($name), v) => options!(@set $kind f $name v),)*
                _ => panic!("unknown option {} {:?}", name, v),
            }
        }
        #[allow(dead_code)]
        pub fn get(f: &FormatOpts, name: &str) -> Option<V> {
            match name {
                $(stringify!($name) => options!(@get $kind f $name),)*
                _ => panic!("unknown option {}", name),
            }
        }
    };
    (@k B) => { Kind::Bool };
    (@k U) => { Kind::Num };
    (@k S) => { Kind::Str };
    (@set B $f:ident $n:ident $v:ident) => { if let V::B(b) = $v { $f.$n = Some(*b) } else { panic!("type") } };
    (@set U $f:ident $n:ident $v:ident) => { if let V::U(b) = $v { $f.$n = Some(*b) } else { panic!("type") } };
    (@set S $f:ident $n:ident $v:ident) => { if let V::S(b) = $v { $f.$n = Some(b.clone()) } else { panic!("type") } };
    (@get B $f:ident $n:ident) => { $f.$n.map(V::B) };
    (@get U $f:ident $n:ident) => { $f.$n.map(V::U) };
    (@get S $f:ident $n:ident) => { $f.$n.clone().map(V::S) };
}

options! {
    B replace_zero_spaces_with_hint;
    S hint_after_multiline_comment;
    S hint_after_multiline_comment_text;
    S hint_before_comment;
    S hint_before_multiline_comment_text;
    S hint_before_oneline_comment_text;
    S hint_table_constructor;
    B remove_comments;
    B remove_single_newlines;
    B remove_all_newlines;
    B remove_spaces_between_tokens;
    B write_newline_at_eof;
    B write_newline_at_multiline_table;
    B write_newline_at_explist_multiline_table;
    S indentation_string;
    B indent_var_suffix;
    B indent_one_line_var_suffix;
    B indent_exp_list;
    B indent_one_line_exp_list;
    U newline_format_first_oneline_comment;
    U newline_format_first_multiline_comment;
    U newline_format_oneline_comment;
    U newline_format_multiline_comment;
    U newline_format_statement;
    U newline_format_do_end;
    U newline_format_for;
    U newline_format_function;
    U newline_format_if;
    U newline_format_repeat_until;
    U newline_format_table_constructor;
    U newline_format_table_field;
    U newline_format_while;
    U newline_format_binary_op;
    U newline_format_var_suffix;
    U newline_format_exp_list;
    U newline_format_exp_list_first;
    S field_separator;
    B write_trailing_field_separator;
    B convert_charstring_to_normalstring;
    U max_width;
    B force_single_line_binary_op;
    B force_single_line_table;
    B force_single_line_iv_table_field;
    B force_single_line_kv_table_field;
    B force_single_line_if;
    B force_single_line_top_level_function;
    B force_single_line_scoped_function;
    B force_single_line_var_suffix;
    B force_single_line_exp_list;
}

pub type Set = Vec<(&'static str, V)>;

#[derive(Debug)]
pub struct Cfg {
    /// description relative to a base: "shipped", "shipped +remove_comments=true", ...
    pub name: String,
    pub set: Set,
    built: std::sync::OnceLock<Config>,
}

impl Clone for Cfg {
    fn clone(&self) -> Cfg {
        Cfg::of(self.name.clone(), self.set.clone())
    }
}

impl Cfg {
    pub fn of(name: String, set: Set) -> Cfg {
        Cfg { name, set, built: std::sync::OnceLock::new() }
    }
    pub fn config(&self, range: Option<(usize, usize)>) -> Config {
        let mut c = self
            .built
            .get_or_init(|| {
                let mut c = Config::default();
                for (n, v) in &self.set {
                    apply(&mut c.fmt, n, v);
                }
                c
            })
            .clone();
        c.line_range = range;
        c
    }
    pub fn get(&self, n: &str) -> Option<&V> {
        self.set.iter().rev().find(|x| x.0 == n).map(|x| &x.1)
    }
    pub fn is(&self, n: &str) -> bool {
        self.get(n) == Some(&V::B(true))
    }
    pub fn has(&self, n: &str) -> bool {
        self.get(n).is_some()
    }
    pub fn num(&self, n: &str) -> Option<usize> {
        match self.get(n) {
            Some(V::U(u)) => Some(*u),
            _ => None,
        }
    }
    #[allow(dead_code)]
    pub fn str(&self, n: &str) -> Option<&str> {
        match self.get(n) {
            Some(V::S(u)) => Some(u),
            _ => None,
        }
    }
    pub fn with(&self, n: &'static str, v: Option<V>) -> Cfg {
        let mut set = self.set.clone();
        set.retain(|x| x.0 != n);
        let d = match &v {
            Some(v) => format!("{}={:?}", n, v.text()),
            None => format!("-{}", n),
        };
        if let Some(v) = v {
            set.push((n, v));
        }
        Cfg::of(format!("{} {}", self.name, d), set)
    }
}

fn s(x: &str) -> V {
    V::S(x.to_string())
}

pub fn empty() -> Cfg {
    Cfg::of("empty".into(), vec![])
}

/// The options of the configuration file shipped with the repository.
pub fn shipped() -> Cfg {
    let b = V::B;
    let u = V::U;
    Cfg::of("shipped".into(), vec![
            ("replace_zero_spaces_with_hint", b(true)),
            ("hint_after_multiline_comment", s(" ")),
            ("hint_after_multiline_comment_text", s(" ")),
            ("hint_before_comment", s(" ")),
            ("hint_before_multiline_comment_text", s(" ")),
            ("hint_before_oneline_comment_text", s(" ")),
            ("hint_table_constructor", s(" ")),
            ("remove_single_newlines", b(true)),
            ("remove_spaces_between_tokens", b(true)),
            ("write_newline_at_eof", b(true)),
            ("write_newline_at_multiline_table", b(false)),
            ("write_newline_at_explist_multiline_table", b(true)),
            ("indentation_string", s("    ")),
            ("indent_var_suffix", b(true)),
            ("indent_exp_list", b(true)),
            ("newline_format_oneline_comment", u(1)),
            ("newline_format_statement", u(1)),
            ("newline_format_do_end", u(1)),
            ("newline_format_for", u(1)),
            ("newline_format_function", u(1)),
            ("newline_format_if", u(1)),
            ("newline_format_repeat_until", u(1)),
            ("newline_format_table_constructor", u(1)),
            ("newline_format_table_field", u(1)),
            ("newline_format_while", u(1)),
            ("newline_format_binary_op", u(1)),
            ("newline_format_var_suffix", u(1)),
            ("newline_format_exp_list", u(1)),
            ("field_separator", s(",")),
            ("write_trailing_field_separator", b(true)),
            ("convert_charstring_to_normalstring", b(false)),
            ("max_width", u(110)),
            ("force_single_line_table", b(true)),
            ("force_single_line_iv_table_field", b(false)),
            ("force_single_line_kv_table_field", b(false)),
            ("force_single_line_binary_op", b(true)),
            ("force_single_line_if", b(true)),
            ("force_single_line_scoped_function", b(true)),
            ("force_single_line_var_suffix", b(true)),
            ("force_single_line_exp_list", b(true)),
        ])
}

/// Everything removed, nothing added: the densest output.
pub fn dense() -> Cfg {
    Cfg::of("dense".into(), vec![
            ("replace_zero_spaces_with_hint", V::B(true)),
            ("remove_comments", V::B(true)),
            ("remove_all_newlines", V::B(true)),
            ("remove_spaces_between_tokens", V::B(true)),
            ("field_separator", s(",")),
            ("write_trailing_field_separator", V::B(false)),
            ("convert_charstring_to_normalstring", V::B(true)),
        ])
}

/// Every layout option on, nothing collapsed: the most spread output.
pub fn spread() -> Cfg {
    let mut c = Cfg::of("spread".into(), vec![]);
    for (n, k) in OPTIONS {
        let v = match (*n, *k) {
            ("remove_comments", _) | ("remove_all_newlines", _) | ("convert_charstring_to_normalstring", _) => continue,
            ("max_width", _) => continue,
            (n, _) if n.starts_with("force_single") => continue,
            ("field_separator", _) => s(";"),
            ("indentation_string", _) => s("\t"),
            (_, Kind::Bool) => V::B(true),
            (_, Kind::Num) => V::U(1),
            (_, Kind::Str) => s(" "),
        };
        c.set.push((n, v));
    }
    c
}

/// Like `spread`, with every collapsing option on under the given width.
pub fn collapse(width: usize) -> Cfg {
    let mut c = spread();
    for (n, _) in OPTIONS {
        if n.starts_with("force_single") {
            c.set.push((n, V::B(true)));
        }
    }
    c.set.push(("max_width", V::U(width)));
    c.name = format!("collapse{}", width);
    c
}

/// The values explored for an option (None: unset).
pub fn domain(name: &str, kind: Kind) -> Vec<Option<V>> {
    let mut out = vec![None];
    match kind {
        Kind::Bool => out.extend([Some(V::B(true)), Some(V::B(false))]),
        Kind::Num => {
            if name == "max_width" {
                out.extend([Some(V::U(0)), Some(V::U(1)), Some(V::U(10)), Some(V::U(20)), Some(V::U(40)), Some(V::U(110)), Some(V::U(1_000_000))])
            } else if name == "newline_format_binary_op" {
                out.extend([Some(V::U(0)), Some(V::U(1)), Some(V::U(2))])
            } else {
                out.extend([Some(V::U(0)), Some(V::U(1))])
            }
        }
        Kind::Str => {
            if name == "field_separator" {
                out.extend([Some(s(",")), Some(s(";"))])
            } else if name == "indentation_string" {
                out.extend([Some(s("")), Some(s("\t")), Some(s("  "))])
            } else {
                out.extend([Some(s("")), Some(s(" ")), Some(s("  "))])
            }
        }
    }
    out
}

pub fn bases() -> Vec<Cfg> {
    vec![empty(), shipped(), dense(), spread(), collapse(40)]
}

/// All configurations that differ from `base` in exactly one option.
pub fn singles(base: &Cfg) -> Vec<Cfg> {
    let mut out = vec![];
    for (n, k) in OPTIONS {
        for v in domain(n, *k) {
            if base.get(n) != v.as_ref() {
                out.push(base.with(n, v));
            }
        }
    }
    out
}

/// All configurations that differ from `base` in exactly two options.
pub fn pairs(base: &Cfg) -> Vec<Cfg> {
    let mut out = vec![];
    for i in 0..OPTIONS.len() {
        for v in domain(OPTIONS[i].0, OPTIONS[i].1) {
            if base.get(OPTIONS[i].0) == v.as_ref() {
                continue;
            }
            let c = base.with(OPTIONS[i].0, v);
            for j in i + 1..OPTIONS.len() {
                for w in domain(OPTIONS[j].0, OPTIONS[j].1) {
                    if base.get(OPTIONS[j].0) == w.as_ref() {
                        continue;
                    }
                    out.push(c.with(OPTIONS[j].0, w));
                }
            }
        }
    }
    out
}

pub fn dedup(v: Vec<Cfg>) -> Vec<Cfg> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter()
        .filter(|c| {
            let mut k: Vec<_> = c.set.clone();
            k.sort();
            seen.insert(k)
        })
        .collect()
}
