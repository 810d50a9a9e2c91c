//! Token- and comment-level comparison of a source and its formatted text, using the independent lexer/parser.

use crate::cfgs::Cfg;
use crate::lua::{self, Item, Parsed, Role, K};

/// What the options allow to differ.
#[derive(Clone, Copy, Debug)]
pub struct Allow {
    pub any_sep: bool,
    pub trailing: bool,
    pub quotes: bool,
}

pub fn allow(c: &Cfg) -> Allow {
    Allow {
        any_sep: c.has("field_separator"),
        trailing: c.has("write_trailing_field_separator") || c.is("force_single_line_table"),
        quotes: c.is("convert_charstring_to_normalstring"),
    }
}

/// One comparable element of a program: a code token, or a comment.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum El {
    Tok(String),
    Str(Vec<u8>),
    Sep,
    Comment(Option<usize>, String),
    Shebang(String),
}

fn tok_el(src: &str, it: &Item, role: Role, a: Allow) -> Option<El> {
    let t = it.text(src);
    match role {
        Role::TrailSep if a.trailing => return None,
        Role::TrailSep | Role::FieldSep if a.any_sep => return Some(El::Sep),
        _ => {}
    }
    if it.k == K::Str && a.quotes {
        return Some(match lua::decode_string(t) {
            Some(v) => El::Str(v),
            // not a valid escape sequence: compare the text between the quotes with quotes unescaped
            None => El::Str(t[1..t.len() - 1].replace("\\\"", "\"").replace("\\'", "'").into_bytes()),
        });
    }
    Some(El::Tok(t.to_string()))
}

/// The code tokens only.
pub fn code(src: &str, p: &Parsed, a: Allow) -> Vec<El> {
    p.toks.iter().zip(p.roles.iter()).filter_map(|(t, r)| tok_el(src, t, *r, a)).collect()
}

/// Code tokens, comments and shebang in order.
/// `trim`: (one-line comment text, multi-line left, multi-line right) edges may differ in blanks.
pub fn full(src: &str, p: &Parsed, a: Allow, trim: (bool, bool, bool), comments: bool) -> Vec<El> {
    let mut out = vec![];
    let mut ti = 0;
    for it in &p.items {
        match it.k {
            K::Shebang => out.push(El::Shebang(it.text(src).to_string())),
            K::LineComment => {
                if comments {
                    let t = &it.text(src)[2..];
                    out.push(El::Comment(None, (if trim.0 { t.trim_start() } else { t }).to_string()));
                }
            }
            K::LongComment => {
                if comments {
                    let (level, mut t) = lua::long_parts(it.text(src));
                    if trim.1 {
                        t = t.trim_start();
                    }
                    if trim.2 {
                        t = t.trim_end();
                    }
                    out.push(El::Comment(Some(level), t.to_string()));
                }
            }
            _ => {
                let role = p.roles[ti];
                ti += 1;
                if let Some(e) = tok_el(src, it, role, a) {
                    out.push(e);
                }
            }
        }
    }
    out
}

pub fn trims(c: &Cfg) -> (bool, bool, bool) {
    (
        c.has("hint_before_oneline_comment_text"),
        c.has("hint_before_multiline_comment_text"),
        c.has("hint_after_multiline_comment_text"),
    )
}

pub fn diff(a: &[El], b: &[El]) -> Option<String> {
    if a == b {
        return None;
    }
    let n = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    Some(format!("element {}: source has {:?}, output has {:?}", n, a.get(n), b.get(n)))
}

/// C01: same code tokens.
pub fn same_program(src: &str, sp: &Parsed, out: &str, c: &Cfg) -> Result<Parsed, String> {
    let op = lua::parse(out, true).map_err(|e| format!("output is not Lua: {}", e))?;
    let a = allow(c);
    match diff(&code(src, sp, a), &code(out, &op, a)) {
        None => {}
        Some(d) => return Err(format!("code tokens differ: {}", d)),
    }
    if a.quotes {
        // double-quoted strings keep their spelling; no single-quoted string is left (whole-file runs)
    }
    let sb = |p: &Parsed, s: &str| p.items.iter().find(|i| i.k == K::Shebang).map(|i| i.text(s).to_string());
    if sb(sp, src) != sb(&op, out) {
        return Err("shebang line differs".into());
    }
    Ok(op)
}
