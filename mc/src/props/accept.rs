//! C04: valid programs are accepted, broken ones refused.

use super::basic::chars;
use super::*;
use crate::lua::{Status, K};

/// Constructs that are valid Lua but refused, each listed with a representative as a known finding:
/// a minus sign directly after a unary minus, and a statement that starts with a parenthesis after a statement that
/// ends with an expression that cannot be called.
fn known_class(src: &str, p: &Parsed) -> bool {
    let t = |i: usize| p.toks[i].text(src);
    for i in 1..p.toks.len() {
        if t(i) == "-" && t(i - 1) == "-" && !p.binops.contains(&(i - 1)) {
            return true;
        }
    }
    for s in &p.stats {
        if s.first > 0 && t(s.first) == "(" {
            for q in &p.stats {
                if q.last + 1 == s.first
                    && (q.kind == "assign" || q.kind == "repeat" || q.kind == "local" && (q.first..=q.last).any(|i| t(i) == "="))
                {
                    return true;
                }
            }
        }
    }
    p.toks.iter().any(|i| {
        let s = i.text(src);
        i.k == K::Num && (s.starts_with("0x") || s.starts_with("0X")) && s.contains(|c| c == '.' || c == 'p' || c == 'P')
    })
}

fn check(e: &Arc<Engine>, p: &'static Prop, src: &str, cfg: &Arc<Cfg>, l: &mut Local) {
    if let Ok(q) = &*parsed(src) {
        if known_class(src, q) {
            l.add("excluded_known_constructs", 1);
            return;
        }
    }
    e.check(p, &Case::new(src, cfg), l);
}

/// One spelling per class of terminals.
pub const ALPHABET: &[&str] = &[
    "a", "1", "\"s\"", "nil", "...", "=", ",", ";", "(", ")", "{", "}", "[", "]", ".", ":", "::", "-", "+", "^", "..", "==", "#", "not", "and", "or",
    "local", "function", "end", "if", "then", "else", "elseif", "do", "while", "for", "in", "repeat", "until", "return", "break", "goto",
];

/// Every token sequence all of whose proper prefixes are beginnings of a program, up to a length: each must be accepted
/// exactly when it is a program.
fn prefixes(e: &Arc<Engine>, p: &'static Prop, n: usize, cfg: &Arc<Cfg>) {
    fn rec(e: &Arc<Engine>, p: &'static Prop, s: &mut String, left: usize, cfg: &Arc<Cfg>, l: &mut Local) {
        for a in ALPHABET {
            let n = s.len();
            s.push_str(a);
            s.push(' ');
            let st = lua::status(s);
            l.add("token_sequences", 1);
            match st {
                Status::Valid => l.add("programs", 1),
                Status::Prefix => l.add("program_prefixes", 1),
                Status::Bad => l.add("dead_ends", 1),
            }
            check(e, p, s, cfg, l);
            if st != Status::Bad && left > 1 {
                rec(e, p, s, left - 1, cfg, l);
            }
            s.truncate(n);
        }
    }
    let mut starts = vec![];
    for a in ALPHABET {
        for b in ALPHABET {
            starts.push(format!("{} {} ", a, b));
        }
    }
    e.par(starts.len(), |i, l| {
        let mut s = starts[i].clone();
        check(e, p, &s, cfg, l);
        // the one-token sequences are covered through their extensions' prefixes
        if i % ALPHABET.len() == 0 {
            check(e, p, ALPHABET[i / ALPHABET.len()], cfg, l);
        }
        if lua::status(ALPHABET[i / ALPHABET.len()]) != Status::Bad && lua::status(&s) != Status::Bad {
            rec(e, p, &mut s, n - 2, cfg, l);
        }
    });
}

/// Every single-token deletion, duplication, swap and replacement of the given programs.
fn mutations(e: &Arc<Engine>, p: &'static Prop, items: &[Item], cfg: &Arc<Cfg>) {
    e.par(items.len(), |i, l| {
        let t = items[i].toks();
        let mut try_it = |v: &[String]| {
            l.add("mutants", 1);
            check(e, p, &v.join(" "), cfg, l);
        };
        for k in 0..t.len() {
            let mut v = t.clone();
            v.remove(k);
            try_it(&v);
            v.insert(k, t[k].clone());
            v.insert(k, t[k].clone());
            try_it(&v);
            let mut v = t.clone();
            if k + 1 < t.len() {
                v.swap(k, k + 1);
                try_it(&v);
                v.swap(k, k + 1);
            }
            for a in ALPHABET {
                v[k] = a.to_string();
                try_it(&v);
            }
            let mut v = t.clone();
            for a in ALPHABET {
                v.insert(k, a.to_string());
                try_it(&v);
                v.remove(k);
            }
        }
    });
}

pub static C04: Prop = Prop {
    id: "C04",
    level: "exploration",
    rule: "every program of the generator, every token sequence (one spelling per terminal class) all of whose proper prefixes begin some program, every \
           one-token edit of the weight-1 programs, every text of bounded length over three lexical alphabets, every literal form; the formatter's verdict \
           against the independent parser's. Non-trivial: the oracle's verdict is definite (valid Lua 5.3, or refused even by the lenient rules).",
    assumptions: &[
        "the independent Lua 5.3 lexer and parser in mc/src/lua.rs (strict rules for 'must be accepted', lenient rules for 'must be refused')",
        "constructs listed as known findings are left out of the enumeration and probed one by one",
    ],
    explore: |e, p| {
        let cfg = Arc::new(cfgs::empty());
        let all = |e: &Arc<Engine>, v: &[Item]| {
            e.par(v.len(), |i, l| v[i].each(&mut |s| check(e, p, s, &cfg, l)));
        };
        let th = e.thorough();
        e.par(odd_texts().len(), |i, l| check(e, p, &odd_texts()[i], &cfg, l));
        let long = crate::lexical::long_texts(5000);
        e.par(long.len(), |i, l| check(e, p, &long[i], &cfg, l));
        all(e, &items(all_nests(7..=9), Vary::Two));
        all(e, &standard(1));
        prefixes(e, p, if th { 8 } else { 6 }, &cfg);
        mutations(e, p, &progs(1, Vary::Two), &cfg);
        mutations(e, p, &items(showcase(), Vary::Two), &cfg);
        all(e, &progs(3, Vary::Two).into_iter().step_by(1).collect::<Vec<_>>()[..if th { usize::MAX.min(progs(3, Vary::Two).len()) } else { 0 }]);
        // numerals, quoted strings, long brackets and comments, spelled character by character
        let c = [cfg.clone()];
        let _ = &c;
        let n = if th { 7 } else { 5 };
        lexical(e, p, &cfg, "a=", &["0", "1", "x", "X", "e", "E", ".", "+", "-", "f", " "], n + 1);
        lexical(e, p, &cfg, "a=", &["'", "\"", "\\", "a", "\n", "n", "x", "]"], n + 1);
        lexical(e, p, &cfg, "a=", &["[", "]", "=", "a", "\n", "\\", "-"], n + 1);
        lexical(e, p, &cfg, "", &["-", "[", "]", "=", "\n", "a"], n + 2);
        lexical(e, p, &cfg, "a", &["=", "<", ">", "~", "/", ":", ".", "1", "a", "-", "&", "|", "%"], n);
        lexical(e, p, &cfg, "", &["$", "@", "`", "?", "!", "#", "a", "\u{439}", "\u{0}", "\u{1}", "\u{a0}", "\u{7f}", "=", "1"], n - 1);
        if th {
            mutations(e, p, &progs(2, Vary::Two), &cfg);
            chars(e, p, &c, 6, super::basic::SHORT_ALPHABET);
        }
    },
    judge: |c| {
        let strict = parsed(&c.src);
        // how the rest of a malformed numeral is read is left open
        let lenient_ok = strict.is_ok() || matches!(&*strict, Err(m) if m.contains("malformed number")) || lua::parse(&c.src, true).is_ok();
        match c.run() {
            Out::Ok(_) if strict.is_ok() => Verdict::Pass,
            Out::Refused(_) if !lenient_ok => Verdict::Pass,
            Out::Ok(_) if lenient_ok => Verdict::Trivial,
            Out::Refused(_) if strict.is_err() => Verdict::Trivial,
            Out::Ok(o) => Verdict::Fail(format!("not a Lua program, but formatted to {:?}: {}", o, lua::parse(&c.src, true).err().unwrap_or_default())),
            Out::Refused(m) => Verdict::Fail(format!("valid Lua 5.3, but refused: {}", m)),
            x => Verdict::Fail(format!("{:?}", x)),
        }
    },
};

/// Every text `head` + at most n characters of the alphabet.
pub fn lexical(e: &Arc<Engine>, p: &'static Prop, cfg: &Arc<Cfg>, head: &str, al: &[&str], n: usize) {
    fn rec(e: &Arc<Engine>, p: &'static Prop, s: &mut String, left: usize, al: &[&str], cfg: &Arc<Cfg>, l: &mut Local) {
        l.add("lexical_texts", 1);
        check(e, p, s, cfg, l);
        if left > 0 {
            for a in al {
                let n = s.len();
                s.push_str(a);
                rec(e, p, s, left - 1, al, cfg, l);
                s.truncate(n);
            }
        }
    }
    let k = al.len();
    e.par(k * k, |i, l| {
        let mut s = format!("{}{}{}", head, al[i / k], al[i % k]);
        rec(e, p, &mut s, n - 2, al, cfg, l);
        if i % k == 0 {
            check(e, p, &format!("{}{}", head, al[i / k]), cfg, l);
        }
    });
}
