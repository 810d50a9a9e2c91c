//! The bounded spaces of source texts that the properties range over.

use crate::gen::*;

pub type Toks = Vec<String>;

/// Trivia between two tokens (or before the first one).
pub const TRIVIA: &[&str] = &[
    "", " ", "  ", "\t", "\r", "\n", "\n\n", " \n ", "\n\n\n", "--c\n", " --c\n", "\n--c\n", "\n\n--c\n\n", "--[[c]]", " --[[c]] ",
    "\n--[[c]]\n", "\n\n--[[c]]\n\n", "--[==[c]==]", "--[[c]]--d\n", "--c\n--d\n", "--[[c\nd]]", "--\n", "--[[]]", "-- c \n", "--[[ c ]]",
    "--c\n\n--d\n", "--[[c]] --[[d]]", "--[[c]]\n--[[d]]", "--[c\n", "--]]\n", "-- [[c\n", "--[[ c] ]]", "--[=[ c]= ]=]", "\x0b", "\x0c",
    "--\u{439}\n", "--[[\u{65e5}]]", "---c\n", "--c\r\n", "--[[c]]\n", "--[=[c]]d]=]", "\n \n\t\n",
];

/// Trivia at the end of the file.
pub const TRIVIA_EOF: &[&str] = &[
    "", " ", "\n", "\n\n", " \n", "\n ", "--c", "\n--c", "\n--c\n", "--c\n", "--[[c]]", "\n--[[c]]", "--[[c]]\n", "--", "--[", "--[=", "--[c",
    "--c\n\n", "--c\n--d", "\n\n--c\n\n", " --[[c]] ", "\t", "--\u{439}", "\n\n\n", "--[[c\nd]]",
];

/// A short list used where two gaps vary at once.
pub const TRIVIA_SHORT: &[&str] = &[" ", "\n", "\n\n", "--c\n", "--[[c]]", "\n--c\n"];

pub fn toks(s: &str) -> Toks {
    s.split_whitespace().map(|t| t.replace('\u{1}', " ")).collect()
}

fn rep(pre: &str, unit: &str, post: &str, n: usize) -> Toks {
    let mut v = toks(pre);
    for _ in 0..n {
        v.extend(toks(unit));
    }
    v.extend(toks(post));
    v
}

/// Long lists: every list-like construct with n items.
pub fn lists(n: usize) -> Vec<Toks> {
    let l: &[(&str, &str, &str)] = &[
        ("a = b", ", c", ""),
        ("a", ", b", "= c"),
        ("local a", ", b", ""),
        ("local a", ", b", "= c , d"),
        ("a ( b", ", c", ")"),
        ("a = { b", ", c", "}"),
        ("a = { b", "; c", "}"),
        ("a = { b = c", ", d = e", ", }"),
        ("a = { [ b ] = c", ", [ d ] = e", "}"),
        ("a = { b", ", { c }", "}"),
        ("a = { { b }", ", { c }", "}"),
        ("return a", ", b", ""),
        ("return a", ", b", ";"),
        ("for a", ", b", "in c do d ( ) end"),
        ("for a in b", ", c", "do d ( ) end"),
        ("function a", ". b", "( ) end"),
        ("function a", ". b", ": c ( ) end"),
        ("function a ( b", ", c", ") end"),
        ("function a ( b", ", c", ", ... ) d ( ) end"),
        ("local function a ( b", ", c", ") d ( ) end"),
        ("a = b", ". c", ""),
        ("a = b", "[ c ]", ""),
        ("a", ". b", "= c"),
        ("a", ": b ( )", ". c = d"),
        ("a", ". b ( c )", ""),
        ("a", ": b ( c )", ""),
        ("a", "( b )", ""),
        ("a = b", "+ c", ""),
        ("a = b", ".. c", ""),
        ("a = b", "or c and d", ""),
        ("a = b", "- c * d", ""),
        ("a = ( b )", ". c ( )", ""),
        ("if a then b ( )", "elseif c then d ( )", "end"),
        ("if a then b ( )", "elseif c then d ( )", "else e ( ) end"),
        ("if a then", "elseif c then", "else e ( ) end"),
        ("a ( )", "b = c", ""),
        ("", "a ( )", "return"),
        ("", "local a = b", "return c"),
        ("do a ( )", "b = c", "end"),
        ("", "; a ( )", ""),
        ("", "; ( a ) ( )", ""),
        ("", "do end", ""),
        ("", "function a ( ) b ( ) end", ""),
        ("", ":: a ::", "goto a"),
    ];
    l.iter().map(|(a, b, c)| rep(a, b, c, n)).filter(|t| !t.is_empty()).collect()
}

/// Deep nesting: one construct nested n times in itself, in every slot.
pub fn nests(n: usize) -> Vec<Toks> {
    let l: &[(&str, &str, &str)] = &[
        ("do", "a ( )", "end"),
        ("while a do", "b ( )", "end"),
        ("repeat", "a ( )", "until b"),
        ("if a then", "b ( )", "end"),
        ("if a then b ( ) else", "c ( )", "end"),
        ("if a then b ( ) elseif c then", "d ( )", "end"),
        ("if a then", "b ( )", "else c ( ) end"),
        ("for a = b , c do", "d ( )", "end"),
        ("for a = b , c , d do", "e ( )", "end"),
        ("for a in b do", "c ( )", "end"),
        ("function a ( )", "b ( )", "end"),
        ("function a ( b )", "c ( )", "end"),
        ("local function a ( )", "b ( )", "end"),
        ("a ( function ( )", "b ( )", "end )"),
        ("a = function ( b )", "c ( )", "end"),
        ("return function ( )", "return a", "end"),
        ("do a ( )", "b ( )", "end c ( )"),
    ];
    let e: &[(&str, &str, &str)] = &[
        ("{", "a", "}"),
        ("{ a = ", "b", "}"),
        ("{ a ,", "b", "}"),
        ("{ [ a ] = ", "b", ", }"),
        ("(", "a", ")"),
        ("a (", "b", ")"),
        ("a ( b ,", "c", ")"),
        ("a {", "b", "}"),
        ("a [", "b", "]"),
        ("a : b (", "c", ")"),
        ("not", "a", ""),
        ("a +", "b", ""),
        ("a ^", "b", ""),
        ("a ..", "b", ""),
        ("a .. (", "b", ")"),
        ("function ( ) return", "a", "end"),
        ("{ function ( ) return", "a", "end }"),
        ("a ( {", "b", "} )"),
    ];
    let mut out = vec![];
    let wrap = |a: &str, m: &str, b: &str, pre: &str| {
        let mut v = toks(pre);
        for _ in 0..n {
            v.extend(toks(a));
        }
        v.extend(toks(m));
        for _ in 0..n {
            v.extend(toks(b));
        }
        v
    };
    for (a, m, b) in l {
        out.push(wrap(a, m, b, ""));
    }
    for (a, m, b) in e {
        out.push(wrap(a, m, b, "x ="));
        out.push(wrap(a, m, b, "return"));
        out.push(wrap(a, m, b, "local x ="));
    }
    out
}

/// Every statement construct nested in every other one, to depth `d` (block slots only).
pub fn mixed_nests(d: usize) -> Vec<Toks> {
    let l: &[(&str, &str)] = &[
        ("do", "end"),
        ("while a do", "end"),
        ("repeat", "until b"),
        ("if a then", "end"),
        ("if a then b ( ) else", "end"),
        ("if a then b ( ) elseif c then", "end"),
        ("for a = b , c do", "end"),
        ("for a = b , c , d do", "end"),
        ("for a in b do", "end"),
        ("function a ( )", "end"),
        ("local function a ( b )", "end"),
        ("a ( function ( )", "end )"),
        ("a = { function ( )", "end }"),
        ("a = function ( ... )", "end"),
        ("return function ( )", "end"),
    ];
    let mut level: Vec<Toks> = vec![toks("z ( )")];
    let mut out = vec![];
    for _ in 0..d {
        let mut next = vec![];
        for inner in &level {
            for (a, b) in l {
                let mut v = toks(a);
                v.extend(inner.iter().cloned());
                v.extend(toks(b));
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

/// Statements (or nothing, or several) that may fill a block.
pub const BLOCKS: &[&str] = &[
    "", "x = 1", "( f ) ( )", "a . b : c { }", "x { y } : z ( )", "do end", "do x = 1 end", "if a then end", "if a then b ( ) else c ( ) end", ";", "; ( f ) ( )", "return", "return x",
    "return { x }", "return ;", "return x , y ;", ":: l ::", "goto l", "break", "local x", "local x = function ( ) end", "local function f ( ) y ( ) end", "function f ( ) end",
    "function f . g : h ( y ) z ( ) end", "repeat until x", "repeat x = 1 until y", "while x do y ( ) end", "for i = 1 , 2 do end", "for i = 1 , 2 , 3 do x ( ) end",
    "for k , v in x , y do z ( ) end", "x = 1 y = 2", "x = 1 ; ( y ) ( )", "f 'x'", "x , y = # z , { }", "x ( ) return y",
];

/// Expressions of every kind.
pub const EXPS: &[&str] = &[
    "x", "1", "'s'", "\"s\"", "[[s]]", "{ }", "{ x }", "{ x , y = z ; }", "( x )", "( x ) . y", "- x", "not x", "# x", "~ x", "- ( x )", "not not x", "x ( )", "x { }", "x 's'", "x . y", "x [ y ]",
    "x : y ( z )", "x [ [[s]] ]", "function ( ) end", "function ( x , ... ) return x end", "...", "nil", "x + y", "x .. y", "x and y or z", "x ^ y", "( x .. y ) : z ( )", "x ( function ( ) y ( ) end )",
];

/// Every construct, with a place for a block (B) or an expression (E) wherever it takes one.
pub const CONSTRUCTS: &[&str] = &[
    "do B end", "while E do B end", "repeat B until E", "if E then B end", "if E then B else B end", "if E then B elseif E then B end", "if E then B elseif E then B else B end",
    "if E then B elseif E then B elseif E then B end", "for i = E , E do B end", "for i = E , E , E do B end", "for k in E do B end", "for k , v in E , E do B end", "function f ( ) B end",
    "function f . g ( a ) B end", "function f . g : h ( a , b ) B end", "function f : g ( ... ) B end", "local function f ( ) B end", "local function f ( a , ... ) B end", "x = function ( ) B end",
    "x = function ( a , b ) B end", "x ( function ( ) B end )", "x = { function ( ) B end , y = function ( a ) B end }", "x = E", "x , y = E , E", "local x = E", "local x , y = E , E", "x [ E ] = E",
    "x . y [ E ] . z = E", "x ( E )", "x ( E , E )", "x : y ( E ) : z ( E )", "x . y ( E ) { E } . z ( )", "x { E }", "x { E , E }", "x = { E ; E , }", "x = { [ E ] = E }", "x = { y = E , [ E ] = E }",
    "x = { { E } , { y = E } }", "x = ( E )", "x = ( E ) . y", "( E ) ( )", "( E ) : y ( E )", "( E ) [ E ] = E", "return E", "return E , E", "return E ;", "x = E + E", "x = E .. E", "x = E and E or E",
    "x = ( E + E ) * E", "x = E == not E", "x = - E", "x = # E", "x = x . y ( E ) [ E ]", "B", "x ( ) B", "B return", "local x B", "x = y B", "local x = y ; B",
];

fn fill(parts: &[&str], with: &[(usize, &str)]) -> Toks {
    let mut k = 0;
    let mut out = vec![];
    for p in parts {
        if *p == "B" || *p == "E" {
            let default = if *p == "B" { "z ( )" } else { "w" };
            out.extend(toks(with.iter().find(|x| x.0 == k).map_or(default, |x| x.1)));
            k += 1;
        } else {
            out.push(p.to_string());
        }
    }
    out
}

/// Every construct with every filling in one place (n = 1) or in every two places (n = 2; thinned by `step` in the second).
pub fn fillings(n: usize, step: usize) -> Vec<Toks> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for c in CONSTRUCTS {
        let parts: Vec<&str> = c.split(' ').collect();
        let holes: Vec<&[&str]> = parts.iter().filter_map(|p| match *p { "B" => Some(BLOCKS), "E" => Some(EXPS), _ => None }).collect();
        for i in 0..holes.len() {
            for a in holes[i] {
                if n == 1 {
                    out.push(fill(&parts, &[(i, a)]));
                    continue;
                }
                for j in i + 1..holes.len() {
                    for b in holes[j].iter().step_by(step) {
                        out.push(fill(&parts, &[(i, a), (j, b)]));
                    }
                }
            }
        }
    }
    // what no program can be (`break` before other statements is one in Lua 5.3, `return` is not)
    out.retain(|t| seen.insert(t.clone()) && crate::lua::parse(&t.join(" "), false).is_ok());
    out
}

/// Numeral spellings of Lua 5.3.
pub const NUMERALS: &[&str] = &[
    "0", "1", "12", "007", "3.", ".5", "3.5", "0.0", "1e5", "1E5", "1e+5", "1e-5", "1.e5", ".5e1", "3.5E-12", "0x0", "0xfF", "0XA", "0x12AbC",
    "9223372036854775807", "1e10000",
];

/// Hexadecimal floats: valid Lua that the formatter's own tests pin as refused (listed findings).
pub const HEX_FLOATS: &[&str] = &["0x1.8", "0x.8", "0x1p4", "0x1.8p+1", "0XA.p-2"];

/// String literals.
pub const STRINGS: &[&str] = &[
    "''", "\"\"", "'a'", "\"a\"", "'\"'", "\"'\"", "'\\''", "\"\\\"\"", "'\\\\'", "\"\\\\\"", "'\\n'", "'\\\"'", "'\\\\\"'", "'a\\\nb'", "\"a\\\nb\"",
    "'\\x41'", "'\\65'", "'\\z  a'", "'\\u{48}'", "'--'", "\"--[[\"", "'[['", "\"]]\"", "'\u{439}'", "\"\u{65e5}\u{672c}\"", "'\u{1f600}\"'", "[[]]",
    "[[a]]", "[=[a]=]", "[==[a]==]", "[[a\nb]]", "[[\na]]", "[=[]]]=]", "[==[]=]]==]", "[[\\]]", "[['\"]]", "[[\u{439}]]", "[=[[[a]]]=]", "[[ a ]]",
    "[[--]]", "[===[]==]]===]", "'\\\r'", "'end'", "\"  \"", "[[  \n  ]]", "'\t'",
];

/// Every literal in every kind of position.
pub fn literals() -> Vec<Toks> {
    let mut out = vec![];
    let pos: &[&str] = &["x = @", "x ( @ )", "return @", "x = { @ }", "x = { [ @ ] = y }", "x = { y = @ , @ }", "x = y .. @", "x = @ .. y", "x = @ == @",
        "x [ @ ] = y", "local x = @ , y", "if @ then y ( ) end", "for x = @ , @ , @ do end", "x = ( @ )", "x = - @", "x = not @", "x = # @", "repeat until @"];
    for lit in NUMERALS.iter().chain(STRINGS) {
        for p in pos {
            out.push(p.split(' ').map(|t| if t == "@" { lit.to_string() } else { t.to_string() }).collect());
        }
        if !lit.as_bytes()[0].is_ascii_digit() && lit.as_bytes()[0] != b'.' {
            for p in ["x @", "x : y @", "x . y @ ( )", "x = y @ . z", "x = ( @ ) : y ( )", "x @ @ @"] {
                out.push(p.split(' ').map(|t| if t == "@" { lit.to_string() } else { t.to_string() }).collect());
            }
        }
    }
    out
}

/// A program that holds every construct once, used for environment-style enumerations.
pub fn showcase() -> Vec<Toks> {
    [
        "local a , b = 1 , 'x' ; a . b [ c ] = { 1 , x = 2 , [ y ] = 3 ; }",
        "function a . b : c ( d , ... ) local e = not d ; if e then return d else f ( ) end end",
        "for i = 1 , 10 , 2 do print ( i ) end for k , v in pairs ( t ) do t [ k ] = nil end",
        "while a do break end repeat local x = - 1 until x == # y goto l :: l :: return a : b ( ) , { }",
        "local function f ( a ) return function ( ) return a ^ 2 .. \"s\" end end",
        "if a then b ( ) elseif c then d \"e\" elseif f then g { h } else i [[j]] end",
    ]
    .iter()
    .map(|s| toks(s))
    .chain(crate::props::rich_tokens())
    .collect()
}

/// A token sequence of the explored space, and how its layout varies.
pub enum Src {
    T(Vec<T>),
    S(Toks),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vary {
    /// the four uniform layouts
    Layouts,
    /// minimal and natural layout
    Two,
    /// one gap of the minimal layout takes every trivia
    Gap,
    /// one gap takes every trivia of the short list
    GapShort,
    /// one gap of the natural layout takes every trivia
    GapNatural,
    GapNaturalShort,
    /// two gaps take every pair of the short list
    Gaps2,
    /// every gap takes the same trivia
    All,
}

pub struct Item {
    pub src: Src,
    pub vary: Vary,
}

impl Item {
    pub fn toks(&self) -> Toks {
        match &self.src {
            Src::T(t) => spell(t),
            Src::S(t) => t.clone(),
        }
    }
    pub fn each(&self, f: &mut dyn FnMut(&str)) {
        let t = self.toks();
        match self.vary {
            Vary::Layouts => {
                for l in [Layout::Min, Layout::Spaced, Layout::Lines, Layout::Natural] {
                    f(&layout(&t, l).text());
                }
            }
            Vary::Two => {
                for l in [Layout::Min, Layout::Natural] {
                    f(&layout(&t, l).text());
                }
            }
            Vary::Gap => one_gap(&t, Layout::Min, TRIVIA, TRIVIA_EOF, f),
            Vary::GapShort => one_gap(&t, Layout::Min, TRIVIA_SHORT, TRIVIA_SHORT, f),
            Vary::GapNatural => one_gap(&t, Layout::Natural, TRIVIA, TRIVIA_EOF, f),
            Vary::GapNaturalShort => one_gap(&t, Layout::Natural, TRIVIA_SHORT, TRIVIA_SHORT, f),
            Vary::Gaps2 => two_gaps(&t, TRIVIA_SHORT, f),
            Vary::All => all_gaps(&t, TRIVIA, f),
        }
    }
}

/// Call `f` on every source with one gap of `base` replaced by each trivia.
pub fn one_gap(t: &Toks, base: Layout, inner: &[&str], eof: &[&str], f: &mut dyn FnMut(&str)) {
    let p = layout(t, base);
    for g in 0..p.gaps.len() {
        for tr in if g == t.len() { eof } else { inner } {
            if p.gap_ok(g, tr) {
                f(&p.with_gap(g, tr).text());
            }
        }
    }
}

/// Call `f` on every source with two gaps replaced.
pub fn two_gaps(t: &Toks, trivia: &[&str], f: &mut dyn FnMut(&str)) {
    let p = layout(t, Layout::Min);
    for g in 0..p.gaps.len() {
        for tr in trivia {
            if !p.gap_ok(g, tr) {
                continue;
            }
            let q = p.with_gap(g, tr);
            for h in g + 1..q.gaps.len() {
                for ur in trivia {
                    if q.gap_ok(h, ur) {
                        f(&q.with_gap(h, ur).text());
                    }
                }
            }
        }
    }
}

/// The same trivia in every gap.
pub fn all_gaps(t: &Toks, trivia: &[&str], f: &mut dyn FnMut(&str)) {
    for tr in trivia {
        let mut p = layout(t, Layout::Min);
        for g in 0..p.gaps.len() {
            if p.gap_ok(g, tr) {
                p = p.with_gap(g, tr);
            }
        }
        f(&p.text());
    }
}

pub fn progs(max: usize, vary: Vary) -> Vec<Item> {
    programs(max).into_iter().map(|t| Item { src: Src::T(t), vary }).collect()
}

pub fn items(v: Vec<Toks>, vary: Vary) -> Vec<Item> {
    v.into_iter().map(|t| Item { src: Src::S(t), vary }).collect()
}

pub fn all_lists(ns: std::ops::RangeInclusive<usize>) -> Vec<Toks> {
    ns.flat_map(lists).collect()
}

pub fn all_nests(ns: std::ops::RangeInclusive<usize>) -> Vec<Toks> {
    ns.flat_map(nests).collect()
}

/// Hand-made texts that no template covers: shebangs, empty files, comments only, non-ASCII text everywhere.
pub fn odd_texts() -> Vec<String> {
    let mut out: Vec<String> = [
        "", "\n", " ", "\n\n", "\t\n", "--c", "--c\n", "--[[c]]", "--[[c]]\n", "--[", "--", "--[=", "--[==", "-- \n--", "#!a", "#!a\n", "#!a\nb()",
        "#!a\n\nb()", "#!a\n--c\nb()", "#!a b\n\n\n--c\n\nb()\n", "#!a\r\nb()", "#!\nb()", "#!", "#!a\n ", "#!a\n--c", "--[[c]]b()", "--[[c]]--[[d]]b()--e",
        "\n\nb()\n\n", "b()--c", "b() --c\n\n\n", "b();", "b();;c()", ";", ";;", "b()\r\nc()\r\n", "b()\r\n\r\nc()", "\u{feff}b()",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for a in ["\u{439}", "\u{65e5}\u{672c}\u{8a9e}", "\u{1f600}"] {
        for t in [
            "a='@'--@\nb=\"@\"", "--@\n--[[@]]a=[[@]]--[=[@]=]b()", "a{'@','@',--@\n'@'}", "if a then--@\nb'@'else--[[@]]c'@'end", "#!@\na'@'",
            "a='@'..b--@", "function a()--@\nb'@'end--@", "a={b='@',c=function()d'@'end}", "return'@'--@",
        ] {
            out.push(t.replace('@', a));
        }
    }
    out
}

/// The standard space, by depth.  0: small (for sweeps over many configurations), 1: quick, 2: thorough.
pub fn standard(depth: usize) -> Vec<Item> {
    use Vary::*;
    let mut v = vec![];
    match depth {
        0 => {
            v.extend(progs(1, Layouts));
            v.extend(items(all_lists(1..=4), Two));
            v.extend(items(all_nests(2..=3), Two));
            v.extend(items(showcase(), Layouts));
        }
        1 => {
            v.extend(progs(1, Gap));
            v.extend(progs(1, GapNatural));
            v.extend(progs(0, Gaps2));
            v.extend(progs(1, All));
            v.extend(items(literals(), Two));
            v.extend(items(all_lists(1..=9), Layouts));
            v.extend(items(all_nests(2..=6), Layouts));
            v.extend(items(showcase(), Gap));
            v.extend(items(mixed_nests(2), Two));
            v.extend(items(fillings(1, 1), Two));
            v.extend(items(all_lists(2..=3), GapShort));
            v.extend(items(all_nests(2..=2), GapShort));
            v.extend(progs(2, Two));
        }
        2 => {
            v.extend(standard(1));
            v.extend(items(all_lists(2..=4), Gap));
            v.extend(items(all_nests(2..=3), Gap));
            v.extend(items(mixed_nests(3), Two));
            v.extend(items(mixed_nests(2), GapShort));
            v.extend(items(fillings(1, 1), GapShort));
            v.extend(items(fillings(2, 4), Two));
            v.extend(items(literals(), GapShort));
            v.extend(progs(2, GapShort));
            v.extend(progs(1, Gaps2));
            v.extend(progs(2, Gap));
            v.extend(progs(2, GapNaturalShort));
            v.extend(progs(3, Two));
        }
        _ => unreachable!(),
    }
    v
}
