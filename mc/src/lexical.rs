//! Every spelling, up to a length, of the lexical elements with a body: numerals, names, strings, comments.

use crate::lua::{self, K};

/// All strings of at most `n` units.
pub fn bodies(units: &[&str], n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut from = 0;
    for _ in 0..n {
        let to = v.len();
        for i in from..to {
            for u in units {
                v.push(format!("{}{}", v[i], u));
            }
        }
        from = to;
    }
    v
}

/// The text is one single element of this kind.
fn one(s: &str, k: K) -> bool {
    match lua::lex(s, false) {
        Ok(v) => v.len() == 1 && v[0].k == k && v[0].s == 0 && v[0].e == s.len(),
        Err(_) => false,
    }
}

fn hex_float(s: &str) -> bool {
    (s.starts_with("0x") || s.starts_with("0X")) && s.contains(['.', 'p', 'P'])
}

/// Numerals (hexadecimal floats, a listed finding of C04, are refused).
pub fn numerals(n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for s in bodies(&["0", "1", "x", "X", "e", "E", ".", "+", "-", "a"], n) {
        if one(&s, K::Num) && !hex_float(&s) {
            v.push(s);
        }
    }
    for s in ["123456789", "3.14159265358979", "9007199254740993", "0xdeadBEEF", "1e308", "12.50e-10", "00012", "0.10", "100.", "0XfF", "5.E+1"] {
        v.push(s.into());
    }
    v
}

/// Names, among them every name that begins or ends with a keyword.
pub fn names(n: usize) -> Vec<String> {
    let mut v: Vec<String> = bodies(&["e", "n", "d", "_", "A", "1", "o", "r"], n);
    for k in [
        "and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat", "return", "then", "true",
        "until", "while",
    ] {
        for x in ["_", "1", "a", "A", "s"] {
            v.push(format!("{}{}", k, x));
            v.push(format!("{}{}", x, k));
            v.push(format!("_{}{}", k, x));
        }
        v.push(k.to_uppercase());
        v.push(format!("{}{}", k, k));
    }
    v.extend([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129].iter().map(|n| "n".repeat(*n)));
    v.retain(|s| one(s, K::Name));
    v
}

/// Long-bracket strings of levels 0 to 2.
pub fn long_strings(n: usize) -> Vec<String> {
    let mut v = vec![];
    for (units, n) in [(&["\n", "]", "[", "=", "a", " ", "\\", "\"", "-"][..], n), (&["\r", "\t", "\u{e9}", "\n", "'", "\u{b}", ";", "]"][..], n.min(3))] {
        for b in bodies(units, n) {
            for l in ["", "=", "=="] {
                v.push(format!("[{}[{}]{}]", l, b, l));
            }
        }
    }
    v.retain(|s| one(s, K::Long));
    v
}

/// Quoted strings.
pub fn quoted(n: usize) -> Vec<String> {
    let mut v = vec![];
    for (units, n) in [
        (&["\\", "'", "\"", "a", "\n", "z", "0", " ", "-", "["][..], n),
        (&["\t", "\u{e9}", "\u{1f600}", "\\\\", "\\\r", "\u{b}", "#!", "]]", ";"][..], n.min(3)),
        (&["\\x4a", "\\u{e9}", "\\z \n\t", "\\065", "\\n", "\\\n", "'", "\""][..], n.min(3)),
    ] {
        for b in bodies(units, n) {
            v.push(format!("\"{}\"", b));
            v.push(format!("'{}'", b));
        }
    }
    v.retain(|s| one(s, K::Str));
    v
}

/// One-line comments, without the line break.
pub fn line_comments(n: usize) -> Vec<String> {
    let mut v = vec![];
    for (units, n) in [(&["-", "[", "]", "=", " ", "a", "\t"][..], n), (&["\r", "\"", "'", "\\", "#!", "\u{e9}", "\u{1f600}", "\u{b}", "{", "x=1"][..], n.min(3))] {
        v.extend(bodies(units, n).into_iter().map(|b| format!("--{}", b)));
    }
    v.retain(|s| one(s, K::LineComment));
    v
}

/// Comments in long brackets of levels 0 to 2.
pub fn long_comments(n: usize) -> Vec<String> {
    let mut v = vec![];
    for (units, n) in [(&["\n", "]", "[", "=", "a", " ", "-"][..], n), (&["\t", "\r", "\"", "\\", "\u{e9}", "\n", "\u{b}", "x=1"][..], n.min(3))] {
        for b in bodies(units, n) {
            for l in ["", "=", "=="] {
                v.push(format!("--[{}[{}]{}]", l, b, l));
            }
        }
    }
    v.retain(|s| one(s, K::LongComment));
    v
}

/// Numerals, names and strings where they can stand; the two gaps of each place are blanks or nothing.
pub fn literal_texts(n: usize) -> Vec<String> {
    let mut v = vec![];
    for s in numerals(n + 1) {
        for f in ["x=@", "x = { @ , @ }", "f(@ .. @)", "x=-@ return @", "x[@]=@ +@- @", "for i = @ , @ do end", "x={[@]=@}", "if @ == @ then end"] {
            v.push(f.replace('@', &s));
        }
    }
    for s in names(n.min(4)) {
        for f in ["@=@", "local @ , @ = @", "@ . @ : @ ( @ )", "function @.@:@(@) end", "for @ , @ in @ do @() end", "goto @ ::@::", "x = {@ = @ , [@] = @}", "return @ and not @ or - @"] {
            v.push(f.replace('@', &s));
        }
    }
    for s in long_strings(n).into_iter().chain(quoted(n)) {
        for f in ["x=@", "f @ .. @", "x = { @ , [ @ ] = @ }"] {
            v.push(f.replace('@', &s));
        }
    }
    v
}

/// Comments in every kind of place.
pub fn comment_texts(n: usize) -> Vec<String> {
    let mut v = vec![];
    for s in line_comments(n) {
        for f in ["@\nx = 1", "x = 1 @\ny = 2", "f(a, @\nb)", "do@\nend", "x=1@", "x = { --c\n@\n}"] {
            v.push(f.replace('@', &s));
        }
    }
    for s in long_comments(n) {
        for f in ["@\nx = 1", "x = 1 @\ny = 2", "f(a, @b)", "do@end", "x=1@", "x = @{ @ }"] {
            v.push(f.replace('@', &s));
        }
    }
    v
}

/// Blocks, lists and gaps of many sizes.
pub fn sized_texts() -> Vec<String> {
    let mut v = vec![];
    for n in [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20] {
        for (open, unit, close) in [
            ("f()", "\n", "g()"),
            ("f() --c", "\n", "g()"),
            ("f()\n", "--c\n", "g()"),
            ("f()", "--[[c]]", "g()"),
            ("f()\n", "--[[c]]\n", "g()"),
            ("f()\n\n", "--c\n\n", "g()"),
            ("f( ", " ", "a)"),
            ("do", "\t", "f() end"),
            ("do\n", "--c\n", "end"),
            ("f()\n", "\r\n", "g()"),
            ("x = {", "\n", "1}"),
            ("x = {", "--c\n", "}"),
            ("x =", "--c\n", "y"),
            ("f()", ";", "g()"),
            ("f()", "\n;", "g()"),
            ("return", "\n", "a"),
            ("", "\n", "a()"),
            ("", "--c\n", "a()"),
            ("a()", "\n", ""),
            ("a()\n", "--c\n", ""),
        ] {
            v.push(format!("{}{}{}", open, unit.repeat(n), close));
        }
        for d in [("do\n", "end "), ("if a then\n", "end "), ("x = function()\n", "end "), ("repeat\n", "until a "), ("for i in a do\n", "end "), ("while a do\n", "end ")] {
            if n <= 12 {
                v.push(format!("{}f()--c\n\n\ng()\n{}", d.0.repeat(n), d.1.repeat(n)));
            }
        }
        let mut s = String::from("if a then b()");
        for i in 0..n {
            s += &format!(" elseif a{} then --c{}\nb{}()", i, i, i);
        }
        v.push(format!("{} end", s));
        v.push((0..n).map(|i| format!("function f{}(a) --c{}\n\n  g(a)\nend\n", i, i)).collect());
        v.push((0..n).map(|i| format!("local x{} = {{ {}, --c\n y = '{}' }}\n\n", i, i, i)).collect());
        v.push(format!("x = {}", (0..n).map(|i| format!("a{} --[[{}]]", i, i)).collect::<Vec<_>>().join(" .. ")));
        v.push(format!("x = {{{}}}", (0..n).map(|i| format!("[{}] = 'v' --c{}\n", i, i)).collect::<Vec<_>>().join(", ")));
        v.push(format!("f({})", (0..n).map(|i| format!("a{}\n--c{}\n", i, i)).collect::<Vec<_>>().join(", ")));
        v.push(format!("x = a{}", (0..n).map(|i| format!("\n.b{}(--c\n)", i)).collect::<String>()));
    }
    v
}

/// Sizes on both sides of what a program might take for large.
const SIZES: &[usize] = &[
    13, 14, 18, 19, 21, 24, 25, 29, 30, 31, 32, 33, 39, 40, 41, 48, 50, 51, 59, 60, 61, 63, 64, 65, 72, 79, 80, 81, 99, 100, 101, 109, 110, 111, 119, 120, 121, 127, 128, 129, 149, 150, 199, 200, 201,
    219, 220, 221, 254, 255, 256, 257, 299, 300, 399, 400, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
];

/// Names, literals, comments and runs of blanks of many lengths in many places; every list construct with many items.
pub fn long_texts(max: usize) -> Vec<String> {
    let mut v = vec![];
    let forms: &[(&str, &str, &str)] = &[
        ("", "n", " = 1"),
        ("x.", "n", " = y"),
        ("local ", "n", " = { }"),
        ("f(", "n", ", a)"),
        ("x = { ", "n", " = 1, a }"),
        ("x:", "n", "()"),
        ("function ", "n", "() end"),
        ("function f(", "n", ") end"),
        ("goto ", "n", " f()"),
        ("if ", "n", " then f() end"),
        ("if a then f() elseif ", "n", " then g() else h() end"),
        ("for ", "n", " in a do f() end"),
        ("return ", "n", ""),
        ("x = a .. ", "n", " .. b"),
        ("x = 1", "2", " y = 3"),
        ("x = 0x", "f", ""),
        ("x = 0.", "1", "e10"),
        ("x = '", "s", "' y = 1"),
        ("x = \"", "s", "\" f()"),
        ("f'", "\\\\", "'"),
        ("f('", "\\'", "', a)"),
        ("f{ '", "\"", "' }"),
        ("f('", "\\x41", "')"),
        ("f('", "\\\n", "')"),
        ("x = [[", "s", "]] f()"),
        ("x = [[", "\n", "]] f()"),
        ("x = [[", "]", "a]] f()"),
        ("f[==[", "]=", "a]==]"),
        ("f('", "\u{439}", "')"),
        ("f() --", "c", "\ng()"),
        ("f() --", " ", "c\ng()"),
        ("f() --c", " ", "\ng()"),
        ("f() --", "-", "\ng()"),
        ("f() --", "\u{439}", "\ng()"),
        ("--", "c", ""),
        ("f() --[[", "c", "]] g()"),
        ("f(--[[", "c", "]]a)"),
        ("f() --[[", "\n", "]] g()"),
        ("f() --[[", " ", "c]] g()"),
        ("f() --[[c", " ", "]] g()"),
        ("x = { a, --", "c", "\n b }"),
        ("#!", "c", "\nf()"),
        ("f()", "\n", "g()"),
        ("f() --c", "\n", "g()"),
        ("f()", " ", "g()"),
        ("f()\n", "\t", "g()"),
        ("f()", " \n", "g()"),
        ("f()\n", "--c\n", "g()"),
        ("f()", "--[[c]]", "g()"),
        ("x = {", " ", "}"),
        ("x = {", "\n", "1}"),
        ("x = {", "--c\n", "1}"),
        ("x = a", " ", "+ b"),
        ("x = a +", "\n", "b"),
        ("f()", ";", "g()"),
        ("f()", "\n;", "g()"),
        ("do", " ", "end"),
        ("do f()", "\n", "end"),
        ("", "\n", "f()"),
        ("", " ", "f()"),
        ("", "--c\n", "f()"),
        ("f()", "\n", ""),
        ("f()", " ", ""),
        ("return", " ", "a"),
        ("x = ", "a.b .. ", "c"),
        ("x = a", "[1]", ""),
        ("a", ".b:c()", ""),
    ];
    for n in SIZES.iter().filter(|n| **n <= max) {
        for (a, unit, b) in forms {
            v.push(format!("{}{}{}", a, unit.repeat(*n), b));
        }
        // long brackets of that level
        let e = "=".repeat(*n);
        v.push(format!("x = [{}[ ]] ]{}]", e, e));
        v.push(format!("f() --[{}[ ]] ]{}] g()", e, e));
        if *n <= 130 {
            for t in crate::space::lists(*n) {
                v.push(t.join(" "));
            }
            let lines: Vec<String> = (0..*n).map(|i| format!("f{}(a) --c{}", i, i)).collect();
            v.push(lines.join("\n"));
            v.push(lines.join("\n\n"));
            v.push(format!("x = {{\n{}\n}}", (0..*n).map(|i| format!("k{} = '{}', --c{}", i, i, i)).collect::<Vec<_>>().join("\n")));
        }
    }
    v
}
