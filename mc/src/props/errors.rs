//! C25: a refused text is reported with the first token that cannot continue the program, and its place.

use super::accept::ALPHABET;
use super::*;
use crate::lua::{Item as Tok, K};

/// What has to be reported.
#[derive(PartialEq, Debug)]
enum Report {
    /// spelling, first character, character after the last one
    Token(String, usize, usize),
    Symbol(char, usize),
    End,
}

fn chars_to(src: &str, byte: usize) -> usize {
    src[..byte].chars().count()
}

/// Not decided: the text is outside of what the oracle and the formatter are known to read the same way (C04's findings).
fn expected(src: &str) -> Option<Report> {
    if src.rfind("#!").map_or(false, |i| i > 0) {
        return None;
    }
    let (all, bad): (Vec<Tok>, Option<(usize, &str)>) = match crate::lua::lex(src, false) {
        Ok(t) => (t, None),
        Err((at, m)) => (crate::lua::lex(&src[..at], false).ok()?, Some((at, m))),
    };
    let toks: Vec<Tok> = all.into_iter().filter(|i| !i.is_comment() && i.k != K::Shebang).collect();
    let text = |i: usize| toks[i].text(src);
    for i in 0..toks.len() {
        let t = text(i);
        if toks[i].k == K::Num {
            let glued = src[toks[i].e..].starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.');
            if glued || t.starts_with("0x") || t.starts_with("0X") {
                return None;
            }
        }
        if i > 0 && t == "-" && text(i - 1) == "-" {
            return None;
        }
        if i > 0 && t == "(" {
            let p = text(i - 1);
            if matches!(toks[i - 1].k, K::Num | K::Str | K::Long) || ["nil", "true", "false", "...", "end", "}"].contains(&p) {
                return None;
            }
        }
    }
    let strict = crate::lua::first_bad(src, &toks, false);
    if strict != crate::lua::first_bad(src, &toks, true) {
        return None;
    }
    match (strict, bad) {
        (Some(k), _) => {
            let t = text(k);
            let name = match toks[k].k {
                K::Name | K::Num => format!("\"{}\"", t),
                _ => t.to_string(),
            };
            Some(Report::Token(name, chars_to(src, toks[k].s), chars_to(src, toks[k].e)))
        }
        (None, Some((at, "unknown character"))) => src[at..].chars().next().map(|c| Report::Symbol(c, chars_to(src, at))),
        (None, Some((at, "invalid long string delimiter"))) => {
            let b = at + 1 + src[at + 1..].bytes().take_while(|c| *c == b'=').count();
            Some(src[b..].chars().next().map_or(Report::End, |c| Report::Symbol(c, chars_to(src, b))))
        }
        (None, Some((_, m))) if m.starts_with("unfinished") => Some(Report::End),
        (None, Some(_)) => None,
        (None, None) => {
            let n = src.chars().count();
            Some(Report::Token("<EOF>".into(), n, n))
        }
    }
}

fn reported(m: &str) -> Option<Report> {
    if m.contains("lexical error: unexpected end of file") {
        return Some(Report::End);
    }
    if let Some(i) = m.find("unrecognized symbol '") {
        let rest = &m[i + "unrecognized symbol '".len()..];
        let c = rest.chars().next()?;
        let at = rest[c.len_utf8()..].strip_prefix("' at ")?;
        return Some(Report::Symbol(c, at.trim().parse().ok()?));
    }
    let i = m.find("Unrecognized token `")? + "Unrecognized token `".len();
    let j = m.rfind("` found at ")?;
    let place = m[j + "` found at ".len()..].lines().next()?;
    let (a, b) = place.split_once(':')?;
    Some(Report::Token(m.get(i..j)?.to_string(), a.parse().ok()?, b.trim().parse().ok()?))
}

/// Every token sequence all of whose proper prefixes begin a program, one that does not, with every separator.
fn dead_ends(e: &Arc<Engine>, p: &'static Prop, n: usize, seps: &[&str], cfg: &Arc<Cfg>) {
    fn rec(e: &Arc<Engine>, p: &'static Prop, v: &mut Vec<&'static str>, left: usize, seps: &[&str], cfg: &Arc<Cfg>, l: &mut Local) {
        for a in ALPHABET {
            v.push(a);
            let st = lua::status(&v.join(" "));
            if st != lua::Status::Valid {
                l.add("refused_sequences", 1);
                for s in seps {
                    e.check(p, &Case::new(&format!("{}{}", if *s == " " { "" } else { *s }, v.join(s)), cfg), l);
                }
                if v.len() > 1 {
                    // more text after the place of the error
                    e.check(p, &Case::new(&format!("{} end x = 'é", v.join(" ")), cfg), l);
                }
            }
            if st != lua::Status::Bad && left > 1 {
                rec(e, p, v, left - 1, seps, cfg, l);
            }
            v.pop();
        }
    }
    e.par(ALPHABET.len(), |i, l| {
        let mut v = vec![ALPHABET[i]];
        if lua::status(ALPHABET[i]) == lua::Status::Bad {
            for s in seps {
                e.check(p, &Case::new(&format!("{}{}{}", s, v[0], s), cfg), l);
            }
        } else {
            rec(e, p, &mut v, n - 1, seps, cfg, l);
        }
    });
}

/// Every one-token edit of the programs, with every separator, and every one of their beginnings.
fn edits(e: &Arc<Engine>, p: &'static Prop, items: &[Item], seps: &[&str], cfg: &Arc<Cfg>) {
    e.par(items.len(), |i, l| {
        let t = items[i].toks();
        let mut try_it = |v: &[String]| {
            l.add("edits", 1);
            for s in seps {
                e.check(p, &Case::new(&v.join(s), cfg), l);
            }
        };
        for k in 0..t.len() {
            try_it(&t[..k]);
            let mut v = t.clone();
            v.remove(k);
            try_it(&v);
            for a in ALPHABET.iter().copied().chain(["$", "é", "[=", "[[", "'", "--[["]) {
                let mut v = t.clone();
                v[k] = a.to_string();
                try_it(&v);
                let mut v = t.clone();
                v.insert(k, a.to_string());
                try_it(&v);
            }
        }
    });
}

pub static C25: Prop = Prop {
    id: "C25",
    level: "exploration",
    rule: "Every token sequence to a length bound all of whose proper prefixes begin a program while it is none itself, and every one-token edit, deletion and truncation of the programs of the \
           generator, with seven separators (blanks, line breaks, comments, multi-byte text); every text of bounded length over three lexical alphabets. The reported token and its character \
           position against the first token no continuation of which is a program, found by an independent parser. Non-trivial: the text is refused and the oracle's answer is the same under its \
           strict and lenient rules.",
    assumptions: &["the independent Lua 5.3 lexer and parser in mc/src/lua.rs", "texts in the neighbourhood of C04's known findings (hexadecimal numerals, two minus signs, a bracket after a literal) are left undecided"],
    explore: |e, p| {
        let th = e.thorough();
        let cfg = Arc::new(cfgs::empty());
        let seps = [" ", "\n", "\t\n \n", "--é\n", "--[[é]]", "--[==[\n é\n]]]==] ", " --\u{1F600}\n\n"];
        dead_ends(e, p, if th { 6 } else { 5 }, &seps[..if th { 7 } else { 3 }], &cfg);
        dead_ends(e, p, 4, &seps, &cfg);
        edits(e, p, &items(showcase(), Vary::Two), &seps, &cfg);
        edits(e, p, &progs(1, Vary::Two), &seps[..if th { 7 } else { 4 }], &cfg);
        if th {
            edits(e, p, &progs(2, Vary::Two), &seps[..4], &cfg);
        }
        // far from the beginning
        let long = crate::lexical::long_texts(if th { 5000 } else { 1100 });
        e.par(long.len(), |i, l| {
            for end in [" )", "\n$", " end", " '", " = é", "\n\n --é\n x y"] {
                e.check(p, &Case::new(&format!("{}{}", long[i], end), &cfg), l);
            }
        });
        let n = if th { 6 } else { 5 };
        for head in ["", "a=", "#!é\na="] {
            super::accept::lexical(e, p, &cfg, head, &["'", "\"", "\\", "a", "\n", "é", "]", "1", "="], n);
            super::accept::lexical(e, p, &cfg, head, &["[", "]", "=", "a", "\n", "é", "-", "("], n);
            super::accept::lexical(e, p, &cfg, head, &["$", "é", "a", "=", "1", ".", "(", ")", "~", ":", " ", "'", "\u{1F600}", "{"], n - 1);
        }
    },
    judge: |c| {
        let m = match c.run() {
            Out::Refused(m) => m,
            _ => return Verdict::Trivial,
        };
        let want = match expected(&c.src) {
            Some(w) => w,
            None => return Verdict::Trivial,
        };
        match reported(&m) {
            Some(r) if r == want => Verdict::Pass,
            Some(r) => Verdict::Fail(format!("{:?} reported, {:?} is the place of the error: {}", r, want, m)),
            None => Verdict::Fail(format!("no place reported, {:?} is the place of the error: {}", want, m)),
        }
    },
};
