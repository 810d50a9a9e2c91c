//! Minimal JSON: enough for replay files, known findings and evidence.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn s(x: &str) -> J {
        J::S(x.to_string())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => &[],
        }
    }
    pub fn num(&self) -> f64 {
        match self {
            J::N(n) => *n,
            _ => 0.0,
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                if n.fract() == 0.0 {
                    o.push_str(&format!("{}", *n as i64))
                } else {
                    o.push_str(&format!("{}", n))
                }
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    J::S(k.clone()).w(o);
                    o.push_str(": ");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

pub fn parse(src: &str) -> Result<J, String> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let v = val(&c, &mut i)?;
    ws(&c, &mut i);
    if i != c.len() {
        return Err(format!("trailing text at {}", i));
    }
    Ok(v)
}

fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i].is_whitespace() {
        *i += 1;
    }
}

fn val(c: &[char], i: &mut usize) -> Result<J, String> {
    ws(c, i);
    if *i >= c.len() {
        return Err("unexpected end".into());
    }
    match c[*i] {
        '{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(c, i);
                if *i < c.len() && c[*i] == '}' {
                    *i += 1;
                    return Ok(J::O(v));
                }
                let k = match val(c, i)? {
                    J::S(s) => s,
                    _ => return Err("key".into()),
                };
                ws(c, i);
                if *i >= c.len() || c[*i] != ':' {
                    return Err(format!("':' expected at {}", i));
                }
                *i += 1;
                v.push((k, val(c, i)?));
                ws(c, i);
                if *i < c.len() && c[*i] == ',' {
                    *i += 1;
                }
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(c, i);
                if *i < c.len() && c[*i] == ']' {
                    *i += 1;
                    return Ok(J::A(v));
                }
                v.push(val(c, i)?);
                ws(c, i);
                if *i < c.len() && c[*i] == ',' {
                    *i += 1;
                }
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            while *i < c.len() && c[*i] != '"' {
                if c[*i] == '\\' {
                    *i += 1;
                    match c.get(*i) {
                        Some('n') => s.push('\n'),
                        Some('r') => s.push('\r'),
                        Some('t') => s.push('\t'),
                        Some('b') => s.push('\u{8}'),
                        Some('f') => s.push('\u{c}'),
                        Some('u') => {
                            let h: String = c[*i + 1..(*i + 5).min(c.len())].iter().collect();
                            let mut n = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                            *i += 4;
                            if (0xd800..0xdc00).contains(&n) && *i + 6 < c.len() {
                                let h: String = c[*i + 3..*i + 7].iter().collect();
                                let m = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                n = 0x10000 + ((n - 0xd800) << 10) + (m - 0xdc00);
                                *i += 6;
                            }
                            s.push(char::from_u32(n).unwrap_or('?'));
                        }
                        Some(x) => s.push(*x),
                        None => return Err("escape".into()),
                    }
                } else {
                    s.push(c[*i]);
                }
                *i += 1;
            }
            *i += 1;
            Ok(J::S(s))
        }
        't' => {
            *i += 4;
            Ok(J::B(true))
        }
        'f' => {
            *i += 5;
            Ok(J::B(false))
        }
        'n' => {
            *i += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *i;
            while *i < c.len() && (c[*i].is_ascii_digit() || "+-.eE".contains(c[*i])) {
                *i += 1;
            }
            let t: String = c[st..*i].iter().collect();
            t.parse::<f64>().map(J::N).map_err(|e| format!("{} at {}", e, st))
        }
    }
}
