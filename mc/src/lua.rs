//! Independent Lua 5.3 lexer and parser: the oracle.  Written from the Lua 5.3 reference manual; shares no code
//! with the formatter.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Name,
    Kw,
    Num,
    /// quoted string
    Str,
    /// long bracket string
    Long,
    Op,
    /// one-line comment; span excludes the line break
    LineComment,
    /// long comment
    LongComment,
    /// first line starting with '#'; span excludes the line break
    Shebang,
}

#[derive(Clone, Copy, Debug)]
pub struct Item {
    pub k: K,
    pub s: usize,
    pub e: usize,
}

impl Item {
    pub fn is_comment(&self) -> bool {
        matches!(self.k, K::LineComment | K::LongComment)
    }
    pub fn text<'a>(&self, src: &'a str) -> &'a str {
        &src[self.s..self.e]
    }
}

pub fn is_keyword(s: &str) -> bool {
    matches!(
        s,
        "and" | "break" | "do" | "else" | "elseif" | "end" | "false" | "for" | "function" | "goto" | "if" | "in"
            | "local" | "nil" | "not" | "or" | "repeat" | "return" | "then" | "true" | "until" | "while"
    )
}

fn long_open(b: &[u8], i: usize) -> Option<usize> {
    // at '[': returns the level if this opens a long bracket
    let mut j = i + 1;
    while j < b.len() && b[j] == b'=' {
        j += 1;
    }
    if j < b.len() && b[j] == b'[' {
        Some(j - i - 1)
    } else {
        None
    }
}

fn long_close(b: &[u8], mut i: usize, level: usize) -> Option<usize> {
    // i: first content byte; returns the index after the closing bracket
    while i < b.len() {
        if b[i] == b']' {
            let mut j = i + 1;
            while j < b.len() && b[j] == b'=' {
                j += 1;
            }
            if j - i - 1 == level && j < b.len() && b[j] == b']' {
                return Some(j + 1);
            }
            // the next candidate may start at j (if it is ']')
            i = if j > i + 1 { j } else { i + 1 };
        } else {
            i += 1;
        }
    }
    None
}

/// Tokens and comments in source order, or an error with the byte offset.
/// `strict`: numerals follow the Lua rule (a numeral directly followed by letters is malformed).
pub fn lex(src: &str, strict: bool) -> Result<Vec<Item>, (usize, &'static str)> {
    let b = src.as_bytes();
    let mut out = Vec::with_capacity(b.len() / 2 + 4);
    let mut i = 0;
    if !b.is_empty() && b[0] == b'#' && (b.len() > 1 && b[1] == b'!') {
        let mut j = 0;
        while j < b.len() && b[j] != b'\n' {
            j += 1;
        }
        out.push(Item { k: K::Shebang, s: 0, e: j });
        i = j;
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' | 0x0b | 0x0c => i += 1,
            b'-' if i + 1 < b.len() && b[i + 1] == b'-' => {
                if i + 2 < b.len() && b[i + 2] == b'[' {
                    if let Some(level) = long_open(b, i + 2) {
                        match long_close(b, i + 2 + level + 2, level) {
                            Some(e) => {
                                out.push(Item { k: K::LongComment, s: i, e });
                                i = e;
                                continue;
                            }
                            None => return Err((i, "unfinished long comment")),
                        }
                    }
                }
                let mut j = i;
                while j < b.len() && b[j] != b'\n' {
                    j += 1;
                }
                out.push(Item { k: K::LineComment, s: i, e: j });
                i = j;
            }
            b'[' => {
                if let Some(level) = long_open(b, i) {
                    match long_close(b, i + level + 2, level) {
                        Some(e) => {
                            out.push(Item { k: K::Long, s: i, e });
                            i = e;
                        }
                        None => return Err((i, "unfinished long string")),
                    }
                } else if i + 1 < b.len() && b[i + 1] == b'=' {
                    return Err((i, "invalid long string delimiter"));
                } else {
                    out.push(Item { k: K::Op, s: i, e: i + 1 });
                    i += 1;
                }
            }
            b'"' | b'\'' => {
                let mut j = i + 1;
                loop {
                    if j >= b.len() {
                        return Err((i, "unfinished string"));
                    }
                    if b[j] == b'\\' {
                        j += 2;
                        continue;
                    }
                    if b[j] == c {
                        break;
                    }
                    if b[j] == b'\n' && strict {
                        return Err((i, "unfinished string"));
                    }
                    j += 1;
                }
                out.push(Item { k: K::Str, s: i, e: j + 1 });
                i = j + 1;
            }
            b'0'..=b'9' => {
                let e = numeral(b, i, strict)?;
                out.push(Item { k: K::Num, s: i, e });
                i = e;
            }
            b'.' => {
                if i + 1 < b.len() && b[i + 1].is_ascii_digit() {
                    let e = numeral(b, i, strict)?;
                    out.push(Item { k: K::Num, s: i, e });
                    i = e;
                } else {
                    let mut n = 1;
                    while n < 3 && i + n < b.len() && b[i + n] == b'.' {
                        n += 1;
                    }
                    out.push(Item { k: K::Op, s: i, e: i + n });
                    i += n;
                }
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                let k = if is_keyword(&src[i..j]) { K::Kw } else { K::Name };
                out.push(Item { k, s: i, e: j });
                i = j;
            }
            _ => {
                let two = if i + 1 < b.len() { &b[i..i + 2] } else { &b[i..i + 1] };
                let n = match two {
                    b"==" | b"~=" | b"<=" | b">=" | b"//" | b"::" | b"<<" | b">>" => 2,
                    _ => match c {
                        b'+' | b'-' | b'*' | b'/' | b'%' | b'^' | b'#' | b'&' | b'~' | b'|' | b'<' | b'>' | b'='
                        | b'(' | b')' | b'{' | b'}' | b']' | b';' | b':' | b',' => 1,
                        _ => return Err((i, "unknown character")),
                    },
                };
                out.push(Item { k: K::Op, s: i, e: i + n });
                i += n;
            }
        }
    }
    Ok(out)
}

fn numeral(b: &[u8], start: usize, strict: bool) -> Result<usize, (usize, &'static str)> {
    // maximal well-formed numeral
    let mut i = start;
    let hex = b[i] == b'0' && i + 1 < b.len() && (b[i + 1] == b'x' || b[i + 1] == b'X');
    let mut digits = 0;
    let isd = |c: u8| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() };
    if hex {
        i += 2;
    }
    while i < b.len() && isd(b[i]) {
        i += 1;
        digits += 1;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && isd(b[i]) {
            i += 1;
            digits += 1;
        }
    }
    if digits == 0 {
        return Err((start, "malformed number"));
    }
    let (e1, e2) = if hex { (b'p', b'P') } else { (b'e', b'E') };
    if i < b.len() && (b[i] == e1 || b[i] == e2) {
        let mut j = i + 1;
        if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
            j += 1;
        }
        if j < b.len() && b[j].is_ascii_digit() {
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            i = j;
        } else {
            return Err((start, "malformed number"));
        }
    }
    if strict && i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.') {
        return Err((start, "malformed number"));
    }
    Ok(i)
}

// ---------------------------------------------------------------------------------------------------------------

/// What the parser learned about a token (index into the code tokens, comments excluded).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Plain,
    /// separator between two table fields
    FieldSep,
    /// separator after the last table field
    TrailSep,
}

#[derive(Clone, Debug)]
pub struct Stat {
    pub first: usize,
    pub last: usize,
    /// number of enclosing blocks that are bodies (top level: 0)
    pub depth: usize,
    /// enclosing open brackets/tables/calls between the block and ... (function bodies inside expressions)
    pub kind: &'static str,
}

#[derive(Clone, Debug)]
pub struct Table {
    pub open: usize,
    pub close: usize,
    pub fields: Vec<(usize, usize)>,
}

/// A block of statements inside a statement or function expression.
#[derive(Clone, Debug)]
pub struct Block {
    /// first token of the block; equal to `close` if the block is empty
    pub first: usize,
    /// the closing (or middle) keyword
    pub close: usize,
    /// first token of the statement that owns the block, or the `function` of a function expression
    pub owner: usize,
    pub anon: bool,
    /// do, while, repeat, then, else, for, for2 (numeric without step), function
    pub kind: &'static str,
}

/// A list of expressions, names or arguments: spans of its items.
#[derive(Clone, Debug)]
pub struct List {
    pub kind: &'static str,
    pub items: Vec<(usize, usize)>,
}

#[derive(Clone, Debug, Default)]
pub struct Parsed {
    /// code tokens (comments and shebang excluded)
    pub toks: Vec<Item>,
    pub roles: Vec<Role>,
    pub stats: Vec<Stat>,
    /// closing / middle keywords of blocks: (token index, depth of the construct that owns it)
    pub closers: Vec<(usize, usize)>,
    pub tables: Vec<Table>,
    /// spans (first token, last token) of collapsible constructs
    pub ifs: Vec<(usize, usize)>,
    /// function bodies: from '(' to 'end'
    pub fbodies: Vec<(usize, usize)>,
    /// (operator token index) of binary operators
    pub binops: Vec<usize>,
    /// binary operations: (first token of the left operand, operator, last token of the right operand)
    pub ops: Vec<(usize, usize, usize)>,
    pub blocks: Vec<Block>,
    pub lists: Vec<List>,
    /// suffix chains: (first token, last token, first tokens of the suffixes)
    pub chains: Vec<(usize, usize, Vec<usize>)>,
    pub items: Vec<Item>,
}

impl Default for Role {
    fn default() -> Self {
        Role::Plain
    }
}

struct P<'a> {
    src: &'a str,
    t: Vec<Item>,
    i: usize,
    o: Parsed,
    lenient: bool,
    depth: usize,
    rec: usize,
}

type R<T> = Result<T, String>;

pub fn parse(src: &str, lenient: bool) -> R<Parsed> {
    let items = lex(src, !lenient).map_err(|(o, m)| format!("lexical error at byte {}: {}", o, m))?;
    parse_items(src, items, lenient)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    /// a complete program
    Valid,
    /// not a program, but some continuation is
    Prefix,
    /// no continuation is a program
    Bad,
}

/// Is a token sequence a program, the beginning of one, or neither?
pub fn status(src: &str) -> Status {
    let items = match lex(src, true) {
        Ok(i) => i,
        Err(_) => return Status::Bad,
    };
    let n = items.len();
    let mut p = P { src, t: items, i: 0, o: Parsed::default(), lenient: false, depth: 0, rec: 0 };
    p.o.roles = vec![Role::Plain; n];
    match p.block() {
        Ok(()) if p.i == n => Status::Valid,
        Err(_) if p.i >= n => Status::Prefix,
        _ => Status::Bad,
    }
}

/// The first token that cannot continue the tokens before it to a program.
pub fn first_bad(src: &str, toks: &[Item], lenient: bool) -> Option<usize> {
    (0..toks.len()).find(|k| {
        let n = k + 1;
        let mut p = P { src, t: toks[..n].to_vec(), i: 0, o: Parsed::default(), lenient, depth: 0, rec: 0 };
        p.o.roles = vec![Role::Plain; n];
        match p.block() {
            Ok(()) => p.i < n,
            Err(_) => p.i < n,
        }
    })
}

pub fn parse_items(src: &str, items: Vec<Item>, lenient: bool) -> R<Parsed> {
    let t: Vec<Item> = items.iter().filter(|i| !i.is_comment() && i.k != K::Shebang).cloned().collect();
    let n = t.len();
    let mut p = P { src, t, i: 0, o: Parsed::default(), lenient, depth: 0, rec: 0 };
    p.o.roles = vec![Role::Plain; n];
    p.o.items = items;
    p.block()?;
    if p.i != p.t.len() {
        return Err(format!("unexpected '{}' (token {})", p.cur(), p.i));
    }
    p.o.toks = p.t;
    Ok(p.o)
}

impl<'a> P<'a> {
    fn cur(&self) -> &'a str {
        if self.i < self.t.len() {
            let it = self.t[self.i];
            match it.k {
                K::Kw | K::Op => &self.src[it.s..it.e],
                K::Name => "<name>",
                K::Num => "<num>",
                K::Str | K::Long => "<str>",
                _ => "<other>",
            }
        } else {
            "<eof>"
        }
    }
    fn peek(&self, s: &str) -> bool {
        self.cur() == s
    }
    fn accept(&mut self, s: &str) -> bool {
        if self.cur() == s {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, s: &str) -> R<()> {
        if self.accept(s) {
            Ok(())
        } else {
            Err(format!("'{}' expected near '{}' (token {})", s, self.cur(), self.i))
        }
    }
    fn name(&mut self) -> R<()> {
        self.expect("<name>")
    }
    fn block_end(&self) -> bool {
        matches!(self.cur(), "<eof>" | "end" | "else" | "elseif" | "until")
    }
    fn block(&mut self) -> R<()> {
        self.rec += 1;
        if self.rec > 400 {
            return Err("nesting too deep for the oracle".into());
        }
        while !self.block_end() {
            if self.peek("return") {
                let first = self.i;
                self.i += 1;
                if !self.block_end() && !self.peek(";") {
                    self.explist()?;
                }
                self.accept(";");
                self.stat_done(first, "return");
                if !self.block_end() {
                    return Err(format!("statement after return (token {})", self.i));
                }
                break;
            }
            self.statement()?;
        }
        self.rec -= 1;
        Ok(())
    }
    fn body(&mut self, owner: usize, anon: bool, kind: &'static str) -> R<()> {
        self.depth += 1;
        let first = self.i;
        self.block()?;
        self.depth -= 1;
        self.o.blocks.push(Block { first, close: self.i, owner, anon, kind });
        Ok(())
    }
    fn stat_done(&mut self, first: usize, kind: &'static str) {
        let depth = self.depth;
        self.o.stats.push(Stat { first, last: self.i - 1, depth, kind });
    }
    fn closer(&mut self) {
        let d = self.depth;
        self.o.closers.push((self.i, d));
    }
    fn statement(&mut self) -> R<()> {
        let first = self.i;
        let kind: &'static str;
        match self.cur() {
            ";" => {
                self.i += 1;
                kind = ";";
            }
            "::" => {
                self.i += 1;
                self.name()?;
                self.expect("::")?;
                kind = "label";
            }
            "break" => {
                self.i += 1;
                kind = "break";
            }
            "goto" => {
                self.i += 1;
                self.name()?;
                kind = "goto";
            }
            "do" => {
                self.i += 1;
                self.body(first, false, "do")?;
                self.closer();
                self.expect("end")?;
                kind = "do";
            }
            "while" => {
                self.i += 1;
                self.exp()?;
                self.expect("do")?;
                self.body(first, false, "while")?;
                self.closer();
                self.expect("end")?;
                kind = "while";
            }
            "repeat" => {
                self.i += 1;
                self.body(first, false, "repeat")?;
                self.closer();
                self.expect("until")?;
                self.exp()?;
                kind = "repeat";
            }
            "if" => {
                self.i += 1;
                self.exp()?;
                self.expect("then")?;
                self.body(first, false, "then")?;
                loop {
                    self.closer();
                    match self.cur() {
                        "elseif" => {
                            self.i += 1;
                            self.exp()?;
                            self.expect("then")?;
                            self.body(first, false, "elseif")?;
                        }
                        "else" => {
                            self.i += 1;
                            self.body(first, false, "else")?;
                            self.closer();
                            self.expect("end")?;
                            break;
                        }
                        _ => {
                            self.expect("end")?;
                            break;
                        }
                    }
                }
                self.o.ifs.push((first, self.i - 1));
                kind = "if";
            }
            "for" => {
                self.i += 1;
                self.name()?;
                let mut b = "for";
                if self.accept("=") {
                    self.exp()?;
                    self.expect(",")?;
                    self.exp()?;
                    if self.accept(",") {
                        self.exp()?;
                    } else {
                        b = "for2";
                    }
                } else {
                    while self.accept(",") {
                        self.name()?;
                    }
                    self.expect("in")?;
                    self.explist()?;
                }
                self.expect("do")?;
                self.body(first, false, b)?;
                self.closer();
                self.expect("end")?;
                kind = "for";
            }
            "function" => {
                self.i += 1;
                self.name()?;
                while self.accept(".") {
                    self.name()?;
                }
                if self.accept(":") {
                    self.name()?;
                }
                self.funcbody(first, false)?;
                kind = "function";
            }
            "local" => {
                self.i += 1;
                if self.accept("function") {
                    self.name()?;
                    self.funcbody(first, false)?;
                    kind = "local function";
                } else {
                    self.name()?;
                    while self.accept(",") {
                        self.name()?;
                    }
                    if self.accept("=") {
                        self.explist()?;
                    }
                    kind = "local";
                }
            }
            "<name>" | "(" => {
                let k = self.suffixed()?;
                if self.peek("=") || self.peek(",") {
                    self.assignable(k)?;
                    while self.accept(",") {
                        let k = self.suffixed()?;
                        self.assignable(k)?;
                    }
                    self.expect("=")?;
                    self.explist()?;
                    kind = "assign";
                } else {
                    let ok = if self.lenient { k != 'n' } else { k == 'c' };
                    if !ok {
                        return Err(format!("syntax error: expression is not a statement (token {})", self.i));
                    }
                    kind = "call";
                }
            }
            other => return Err(format!("unexpected '{}' (token {})", other, self.i)),
        }
        self.stat_done(first, kind);
        Ok(())
    }
    fn assignable(&self, k: char) -> R<()> {
        let ok = match k {
            'n' | 'i' => true,
            'c' => self.lenient,
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("cannot assign (token {})", self.i))
        }
    }
    fn explist(&mut self) -> R<()> {
        let mut items = vec![];
        loop {
            let first = self.i;
            self.exp()?;
            items.push((first, self.i - 1));
            if !self.accept(",") {
                break;
            }
        }
        self.o.lists.push(List { kind: "exp", items });
        Ok(())
    }
    fn funcbody(&mut self, owner: usize, anon: bool) -> R<()> {
        let first = self.i;
        self.expect("(")?;
        if !self.peek(")") {
            loop {
                if self.accept("...") {
                    if !self.lenient {
                        break;
                    }
                } else {
                    self.name()?;
                }
                if !self.accept(",") {
                    break;
                }
            }
        }
        self.expect(")")?;
        self.body(owner, anon, "function")?;
        self.closer();
        self.expect("end")?;
        self.o.fbodies.push((first, self.i - 1));
        Ok(())
    }
    /// returns: 'n' bare name, 'p' parenthesised, 'i' index, 'c' call
    fn suffixed(&mut self) -> R<char> {
        let first = self.i;
        let mut suffixes = vec![];
        let mut k;
        if self.accept("(") {
            self.exp()?;
            self.expect(")")?;
            k = 'p';
        } else {
            self.name()?;
            k = 'n';
        }
        loop {
            suffixes.push(self.i);
            match self.cur() {
                "." => {
                    self.i += 1;
                    self.name()?;
                    k = 'i';
                }
                "[" => {
                    self.i += 1;
                    self.exp()?;
                    self.expect("]")?;
                    k = 'i';
                }
                ":" => {
                    self.i += 1;
                    self.name()?;
                    self.args()?;
                    k = 'c';
                }
                "(" | "<str>" | "{" => {
                    self.args()?;
                    k = 'c';
                }
                _ => {
                    suffixes.pop();
                    if !suffixes.is_empty() {
                        self.o.chains.push((first, self.i - 1, suffixes));
                    }
                    return Ok(k);
                }
            }
        }
    }
    fn args(&mut self) -> R<()> {
        match self.cur() {
            "<str>" => {
                self.i += 1;
                Ok(())
            }
            "{" => self.table(),
            "(" => {
                self.i += 1;
                if !self.accept(")") {
                    self.explist()?;
                    self.expect(")")?;
                }
                Ok(())
            }
            o => Err(format!("function arguments expected near '{}' (token {})", o, self.i)),
        }
    }
    fn table(&mut self) -> R<()> {
        let open = self.i;
        self.expect("{")?;
        let mut fields = Vec::new();
        while !self.peek("}") {
            let first = self.i;
            if self.accept("[") {
                self.exp()?;
                self.expect("]")?;
                self.expect("=")?;
                self.exp()?;
            } else if self.peek("<name>")
                && self.i + 1 < self.t.len()
                && self.t[self.i + 1].k == K::Op
                && self.t[self.i + 1].text(self.src) == "="
            {
                self.i += 2;
                self.exp()?;
            } else {
                self.exp()?;
            }
            fields.push((first, self.i - 1));
            if self.peek(",") || self.peek(";") {
                let si = self.i;
                self.i += 1;
                self.o.roles[si] = if self.peek("}") { Role::TrailSep } else { Role::FieldSep };
            } else {
                break;
            }
        }
        let close = self.i;
        self.expect("}")?;
        self.o.tables.push(Table { open, close, fields });
        Ok(())
    }
    fn exp(&mut self) -> R<()> {
        self.rec += 1;
        if self.rec > 400 {
            return Err("nesting too deep for the oracle".into());
        }
        let r = self.subexp(0);
        self.rec -= 1;
        r
    }
    fn subexp(&mut self, limit: u8) -> R<()> {
        let left = self.i;
        match self.cur() {
            "not" | "#" | "-" | "~" => {
                self.i += 1;
                self.subexp(12)?;
            }
            _ => self.simple()?,
        }
        loop {
            let (l, r) = match self.cur() {
                "or" => (1, 1),
                "and" => (2, 2),
                "<" | ">" | "<=" | ">=" | "~=" | "==" => (3, 3),
                "|" => (4, 4),
                "~" => (5, 5),
                "&" => (6, 6),
                "<<" | ">>" => (7, 7),
                ".." => (9, 8),
                "+" | "-" => (10, 10),
                "*" | "/" | "//" | "%" => (11, 11),
                "^" => (14, 13),
                _ => return Ok(()),
            };
            if l <= limit {
                return Ok(());
            }
            let op = self.i;
            self.o.binops.push(op);
            self.i += 1;
            self.subexp(r)?;
            self.o.ops.push((left, op, self.i - 1));
        }
    }
    fn simple(&mut self) -> R<()> {
        match self.cur() {
            "<num>" | "<str>" | "nil" | "true" | "false" | "..." => {
                self.i += 1;
                Ok(())
            }
            "{" => self.table(),
            "function" => {
                let at = self.i;
                self.i += 1;
                self.funcbody(at, true)
            }
            "<name>" | "(" => self.suffixed().map(|_| ()),
            o => Err(format!("unexpected '{}' in expression (token {})", o, self.i)),
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------

/// Value of a quoted string literal (with its quotes): the bytes it denotes, or None if an escape is invalid.
pub fn decode_string(lit: &str) -> Option<Vec<u8>> {
    let b = lit.as_bytes();
    let mut out = Vec::new();
    let mut i = 1;
    let n = b.len() - 1;
    while i < n {
        let c = b[i];
        if c != b'\\' {
            out.push(c);
            i += 1;
            continue;
        }
        i += 1;
        if i >= n {
            return None;
        }
        match b[i] {
            b'a' => out.push(7),
            b'b' => out.push(8),
            b'f' => out.push(12),
            b'n' => out.push(b'\n'),
            b'r' => out.push(b'\r'),
            b't' => out.push(b'\t'),
            b'v' => out.push(11),
            b'\\' => out.push(b'\\'),
            b'"' => out.push(b'"'),
            b'\'' => out.push(b'\''),
            b'\n' => out.push(b'\n'),
            b'z' => {
                i += 1;
                while i < n && matches!(b[i], b' ' | b'\t' | b'\r' | b'\n' | 11 | 12) {
                    i += 1;
                }
                continue;
            }
            b'x' => {
                if i + 2 >= n + 0 && i + 2 > n - 1 {
                    return None;
                }
                let h = std::str::from_utf8(&b[i + 1..i + 3]).ok()?;
                out.push(u8::from_str_radix(h, 16).ok()?);
                i += 2;
            }
            b'u' => {
                if i + 1 >= n || b[i + 1] != b'{' {
                    return None;
                }
                let mut j = i + 2;
                let mut v: u32 = 0;
                let mut d = 0;
                while j < n && b[j].is_ascii_hexdigit() {
                    v = v.checked_mul(16)?.checked_add((b[j] as char).to_digit(16)?)?;
                    j += 1;
                    d += 1;
                }
                if d == 0 || j >= n || b[j] != b'}' {
                    return None;
                }
                out.extend_from_slice(format!("<u{:x}>", v).as_bytes());
                i = j;
            }
            b'0'..=b'9' => {
                let mut v: u32 = 0;
                let mut d = 0;
                while d < 3 && i + d < n && b[i + d].is_ascii_digit() {
                    v = v * 10 + (b[i + d] - b'0') as u32;
                    d += 1;
                }
                if v > 255 {
                    return None;
                }
                out.push(v as u8);
                i += d - 1;
            }
            _ => return None,
        }
        i += 1;
    }
    Some(out)
}

/// (level, text) of a long comment or long string literal.
pub fn long_parts(lit: &str) -> (usize, &str) {
    let s = lit.strip_prefix("--").unwrap_or(lit);
    let level = s[1..].bytes().take_while(|&c| c == b'=').count();
    (level, &s[level + 2..s.len() - level - 2])
}
