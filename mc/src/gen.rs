//! Bounded exhaustive program generator: every derivation of a weighted Lua grammar whose total weight
//! (number of departures from the minimal program) is at most a bound.

use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum T {
    /// fixed spelling
    F(&'static str),
    /// fresh name / number / strings
    N,
    I,
    Sq,
    Dq,
    Lg,
    /// fresh label
    L,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Sym {
    T(T),
    Nt(&'static str),
}

struct Grammar {
    prods: HashMap<&'static str, Vec<(usize, Vec<Sym>)>>,
    memo: HashMap<(&'static str, usize), Rc<Vec<Vec<T>>>>,
}

const NTS: &[&str] = &[
    "Chunk", "More", "Stat", "Last", "PStat", "Body", "BMore", "Exp", "Opd", "OpdTail", "Prim", "ExpL", "ExpLTail", "Args", "Suf",
    "SufTail", "CallSuf", "Par", "ParTail", "FBody", "Else", "Fields", "Field", "FTail", "Sep", "NameL", "FName", "Var", "VarL", "NoPow",
    "Bin", "NoMinus", "PowR",
];

impl Grammar {
    fn new() -> Self {
        let mut g = Grammar { prods: HashMap::new(), memo: HashMap::new() };
        // weight, left side, right side
        let rules: &[(usize, &'static str, &'static str)] = &[
            (0, "Chunk", "Stat More"),
            (0, "Chunk", "Last"),
            (1, "Chunk", "PStat More"),
            (0, "More", ""),
            (1, "More", "Stat More"),
            (1, "More", "Last"),
            (1, "More", "; PStat More"),
            (1, "Body", "Stat BMore"),
            (1, "Body", "Last"),
            (2, "Body", "PStat"),
            (0, "Body", ""),
            (0, "BMore", ""),
            (1, "BMore", "Stat"),
            (2, "BMore", "Last"),
            // statements
            (0, "Stat", "VarL = ExpL"),
            (0, "Stat", "$N CallSuf"),
            (0, "Stat", "local NameL"),
            (0, "Stat", "local NameL = ExpL"),
            (0, "Stat", "do Body end"),
            (0, "Stat", "while Exp do Body end"),
            (0, "Stat", "repeat Body until Exp"),
            (0, "Stat", "if Exp then Body Else end"),
            (0, "Stat", "for $N = Exp , Exp do Body end"),
            (1, "Stat", "for $N = Exp , Exp , Exp do Body end"),
            (0, "Stat", "for NameL in ExpL do Body end"),
            (0, "Stat", "function FName FBody"),
            (0, "Stat", "local function $N FBody"),
            (1, "Stat", ";"),
            (1, "Stat", "break"),
            (1, "Stat", "goto $N"),
            (1, "Stat", ":: $N ::"),
            (0, "Last", "return"),
            (0, "Last", "return ExpL"),
            (1, "Last", "return ;"),
            (1, "Last", "return ExpL ;"),
            (0, "PStat", "( Exp ) CallSuf"),
            (1, "PStat", "( Exp ) . $N = Exp"),
            (0, "Else", ""),
            (1, "Else", "else Body"),
            (1, "Else", "elseif Exp then Body Else"),
            (0, "VarL", "Var"),
            (1, "VarL", "Var , VarL"),
            (0, "Var", "$N"),
            (1, "Var", "$N SufTail . $N"),
            (1, "Var", "$N SufTail [ Exp ]"),
            (0, "NameL", "$N"),
            (1, "NameL", "$N , NameL"),
            (0, "FName", "$N"),
            (1, "FName", "$N . $N"),
            (1, "FName", "$N : $N"),
            (2, "FName", "$N . $N : $N"),
            (0, "FBody", "( Par ) Body end"),
            (0, "Par", ""),
            (1, "Par", "$N ParTail"),
            (1, "Par", "..."),
            (0, "ParTail", ""),
            (1, "ParTail", ", $N ParTail"),
            (1, "ParTail", ", ..."),
            // expressions
            (0, "ExpL", "Exp"),
            (1, "ExpL", "Exp , ExpL"),
            (0, "Exp", "Opd"),
            (1, "Exp", "Opd Bin Exp"),
            (1, "Exp", "NoPow ^ PowR"),
            (1, "Exp", "not Exp"),
            (1, "Exp", "- NoMinus"),
            (2, "Exp", "# Exp"),
            (2, "Exp", "~ Exp"),
            (0, "NoMinus", "NoPow"),
            (1, "NoMinus", "not Exp"),
            (1, "NoMinus", "# NoPow"),
            (0, "PowR", "NoPow"),
            (1, "PowR", "- NoPow"),
            (2, "PowR", "not NoPow"),
            (1, "Bin", "or"),
            (0, "Bin", "and"),
            (1, "Bin", "=="),
            (1, "Bin", "<"),
            (0, "Bin", ".."),
            (0, "Bin", "-"),
            (1, "Bin", "+"),
            (1, "Bin", "*"),
            (1, "Bin", "/"),
            (1, "Bin", "//"),
            (1, "Bin", "%"),
            (1, "Bin", "~="),
            (1, "Bin", "<="),
            (1, "Bin", ">="),
            (1, "Bin", ">"),
            (1, "Bin", "|"),
            (1, "Bin", "~"),
            (1, "Bin", "&"),
            (1, "Bin", "<<"),
            (1, "Bin", ">>"),
            (0, "Opd", "NoPow"),
            (0, "NoPow", "$N"),
            (1, "NoPow", "$I"),
            (1, "NoPow", "$Sq"),
            (1, "NoPow", "$Dq"),
            (1, "NoPow", "$Lg"),
            (1, "NoPow", "nil"),
            (2, "NoPow", "true"),
            (2, "NoPow", "false"),
            (1, "NoPow", "..."),
            (1, "NoPow", "function FBody"),
            (1, "NoPow", "{ Fields }"),
            (1, "NoPow", "$N CallSuf"),
            (1, "NoPow", "$N SufTail . $N"),
            (1, "NoPow", "$N SufTail [ Exp ]"),
            (1, "NoPow", "( Exp )"),
            (2, "NoPow", "( Exp ) CallSuf"),
            // suffixes; CallSuf ends with a call
            (0, "CallSuf", "SufTail Args"),
            (1, "CallSuf", "SufTail : $N Args"),
            (0, "SufTail", ""),
            (1, "SufTail", "Suf SufTail"),
            (0, "Suf", ". $N"),
            (0, "Suf", "[ Exp ]"),
            (0, "Suf", "Args"),
            (0, "Suf", ": $N Args"),
            (0, "Args", "( )"),
            (1, "Args", "( ExpL )"),
            (1, "Args", "$Dq"),
            (1, "Args", "$Sq"),
            (1, "Args", "$Lg"),
            (1, "Args", "{ Fields }"),
            // tables
            (0, "Fields", ""),
            (0, "Fields", "Field FTail"),
            (0, "FTail", ""),
            (1, "FTail", "Sep"),
            (1, "FTail", "Sep Field FTail"),
            (0, "Sep", ","),
            (1, "Sep", ";"),
            (0, "Field", "Exp"),
            (0, "Field", "$N = Exp"),
            (0, "Field", "[ Exp ] = Exp"),
        ];
        for &(w, lhs, rhs) in rules {
            let syms = rhs
                .split_whitespace()
                .map(|s| match s {
                    "$N" => Sym::T(T::N),
                    "$I" => Sym::T(T::I),
                    "$Sq" => Sym::T(T::Sq),
                    "$Dq" => Sym::T(T::Dq),
                    "$Lg" => Sym::T(T::Lg),
                    _ => match NTS.iter().find(|n| **n == s) {
                        Some(n) => Sym::Nt(n),
                        None => Sym::T(T::F(Box::leak(s.to_string().into_boxed_str()))),
                    },
                })
                .collect();
            g.prods.entry(lhs).or_default().push((w, syms));
        }
        g
    }

    fn derive(&mut self, nt: &'static str, cost: usize) -> Rc<Vec<Vec<T>>> {
        if let Some(r) = self.memo.get(&(nt, cost)) {
            return r.clone();
        }
        let prods = self.prods.get(nt).unwrap_or_else(|| panic!("no rule for {}", nt)).clone();
        let mut out = Vec::new();
        let mut seen = HashSet::new();
        for (w, syms) in prods {
            if w <= cost {
                for d in self.seq(&syms, cost - w) {
                    if seen.insert(d.clone()) {
                        out.push(d);
                    }
                }
            }
        }
        let r = Rc::new(out);
        self.memo.insert((nt, cost), r.clone());
        r
    }

    fn seq(&mut self, syms: &[Sym], cost: usize) -> Vec<Vec<T>> {
        match syms.split_first() {
            None => {
                if cost == 0 {
                    vec![vec![]]
                } else {
                    vec![]
                }
            }
            Some((Sym::T(t), rest)) => self
                .seq(rest, cost)
                .into_iter()
                .map(|mut v| {
                    v.insert(0, *t);
                    v
                })
                .collect(),
            Some((Sym::Nt(n), rest)) => {
                let mut out = Vec::new();
                for c in 0..=cost {
                    let tails = self.seq(rest, cost - c);
                    if tails.is_empty() {
                        continue;
                    }
                    let heads = self.derive(n, c);
                    for h in heads.iter() {
                        for t in &tails {
                            let mut v = h.clone();
                            v.extend_from_slice(t);
                            out.push(v);
                        }
                    }
                }
                out
            }
        }
    }
}

/// All programs of weight exactly `cost` starting from `nt`, as token templates.
pub fn templates(nt: &'static str, cost: usize) -> Vec<Vec<T>> {
    let mut g = Grammar::new();
    let v = g.derive(nt, cost);
    v.as_ref().clone()
}

/// All program templates of weight at most `max`, lightest first.
pub fn programs(max: usize) -> Vec<Vec<T>> {
    let mut g = Grammar::new();
    let mut out = Vec::new();
    let mut seen = HashSet::new();
    for c in 0..=max {
        for d in g.derive("Chunk", c).iter() {
            if seen.insert(d.clone()) {
                out.push(d.clone());
            }
        }
    }
    out
}

/// Spell out a template: every name, number and string is different, so that any loss, duplication or swap shows.
pub fn spell(t: &[T]) -> Vec<String> {
    spell_with(t, false)
}

pub fn spell_with(t: &[T], long: bool) -> Vec<String> {
    let mut n = 0usize;
    let mut i = 0;
    let mut s = 0;
    t.iter()
        .map(|x| match x {
            T::F(s) => s.to_string(),
            T::N | T::L => {
                let base = (b'a' + (n % 26) as u8) as char;
                let name = if n < 26 { base.to_string() } else { format!("{}{}", base, n / 26) };
                n += 1;
                if long {
                    format!("{}_long_name", name)
                } else {
                    name
                }
            }
            T::I => {
                i += 1;
                i.to_string()
            }
            T::Sq => {
                s += 1;
                format!("'s{}'", s)
            }
            T::Dq => {
                s += 1;
                format!("\"s{}\"", s)
            }
            T::Lg => {
                s += 1;
                format!("[[s{}]]", s)
            }
        })
        .collect()
}

/// Must something separate these two tokens?
pub fn must_separate(a: &str, b: &str) -> bool {
    let x = a.as_bytes()[a.len() - 1];
    let y = b.as_bytes()[0];
    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let astr = a.starts_with('"') || a.starts_with('\'');
    if astr {
        return false;
    }
    let anum = a.as_bytes()[0].is_ascii_digit() || (a.len() > 1 && x.is_ascii_digit() && a.as_bytes()[0] == b'.');
    if w(x) && w(y) {
        return true;
    }
    if anum && y == b'.' {
        return true;
    }
    match (x, y) {
        (b'-', b'-') => true,
        (b'.', b'.') => true,
        (b'.', c) if c.is_ascii_digit() => true,
        (b'[', b'[') | (b'[', b'=') => true,
        (b'=', b'=') | (b'<', b'=') | (b'>', b'=') | (b'~', b'=') => true,
        (b'<', b'<') | (b'>', b'>') | (b'/', b'/') | (b':', b':') => a.len() == 1 || b.len() == 1 || a == "::" || b == "::",
        _ => false,
    }
}

/// A source text: tokens and the trivia (blanks, line breaks, comments) before each of them and at the end.
#[derive(Clone, Debug)]
pub struct Prog {
    pub toks: Vec<String>,
    /// gaps.len() == toks.len() + 1
    pub gaps: Vec<String>,
}

impl Prog {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (g, t) in self.gaps.iter().zip(self.toks.iter()) {
            s.push_str(g);
            s.push_str(t);
        }
        s.push_str(self.gaps.last().unwrap());
        s
    }
    pub fn with_gap(&self, i: usize, g: &str) -> Prog {
        let mut p = self.clone();
        p.gaps[i] = g.to_string();
        p
    }
    /// May this trivia stand in gap i (does it keep the neighbouring tokens apart, and itself intact)?
    pub fn gap_ok(&self, i: usize, g: &str) -> bool {
        let left = if i > 0 { Some(&self.toks[i - 1]) } else { None };
        let right = self.toks.get(i);
        if let (Some(l), Some(r)) = (left, right) {
            if must_separate(l, r) && g.is_empty() {
                return false;
            }
        }
        if let Some(l) = left {
            // '-' followed by a comment, '[' or '=' problems
            if g.starts_with('-') && l.ends_with('-') {
                return false;
            }
        }
        // a one-line comment must be closed unless it ends the file
        if right.is_some() {
            let items = match crate::lua::lex(g, false) {
                Ok(i) => i,
                Err(_) => return false,
            };
            if let Some(last) = items.last() {
                if last.k == crate::lua::K::LineComment && last.e == g.len() {
                    return false;
                }
            }
        }
        true
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    /// nothing where possible, one blank where needed
    Min,
    /// one blank everywhere
    Spaced,
    /// a line break everywhere
    Lines,
    /// Min, but a line break before every statement and closing keyword
    Natural,
    /// two blanks and a tab everywhere
    Wide,
}

pub fn layout(toks: &[String], l: Layout) -> Prog {
    let n = toks.len();
    let mut gaps = vec![String::new(); n + 1];
    let mut breaks = vec![false; n + 1];
    if l == Layout::Natural {
        let mut p = layout(toks, Layout::Spaced);
        p.gaps[0].clear();
        let src = p.text();
        if let Ok(parsed) = crate::lua::parse(&src, true) {
            for s in &parsed.stats {
                breaks[s.first] = true;
            }
            for c in &parsed.closers {
                breaks[c.0] = true;
            }
        }
        breaks[0] = false;
    }
    for i in 0..=n {
        let inner = i > 0 && i < n;
        let must = inner && must_separate(&toks[i - 1], &toks[i]);
        gaps[i] = match l {
            Layout::Min => (if must { " " } else { "" }).to_string(),
            Layout::Spaced => (if inner { " " } else { "" }).to_string(),
            Layout::Lines => (if inner { "\n" } else { "" }).to_string(),
            Layout::Natural => {
                (if inner && breaks[i] {
                    "\n"
                } else if must {
                    " "
                } else {
                    ""
                })
                .to_string()
            }
            Layout::Wide => (if inner { "  \t" } else { "" }).to_string(),
        };
    }
    Prog { toks: toks.to_vec(), gaps }
}
