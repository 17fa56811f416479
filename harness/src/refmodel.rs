//! A reference reader of HML: text to events with spans, or an error.
//!
//! Written from the grammar; it has no code in common with the library.

//a Types
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord)]
pub struct Pos {
    pub b: usize,
    pub l: usize,
    pub c: usize,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct QName {
    pub prefix: String,
    pub uri: String,
    pub name: String,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Body {
    StartDoc(usize),
    EndDoc,
    Start { name: QName, attrs: Vec<(QName, String)> },
    End(QName),
    Content { ctype: &'static str, data: String },
    Comment { data: String, lengths: Vec<usize> },
    Pi { name: String, data: Option<String> },
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ev {
    pub body: Body,
    pub span: (Pos, Pos),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Er {
    pub kind: &'static str,
    pub span: Option<(Pos, Pos)>,
    pub detail: String,
}

#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub events: Vec<Ev>,
    pub err: Option<Er>,
    /// For each event, the byte offset of the end of the token that enables it
    pub need: Vec<usize>,
    /// A prefix is declared twice in one tag
    pub dup_decl: bool,
}

impl Trace {
    pub fn bodies(&self) -> Vec<&Body> {
        self.events.iter().map(|e| &e.body).collect()
    }
}

pub const XMLNS_URI: &str = "http://www.w3.org/2000/xmlns/";
pub const XML_URI: &str = "http://www.w3.org/XML/1998/namespace";

//a Names, from the XML 1.0 specification, 5th edition
/// NameStartChar, without the colon
const NAME_START: &[(u32, u32)] = &[
    ('A' as u32, 'Z' as u32),
    ('_' as u32, '_' as u32),
    ('a' as u32, 'z' as u32),
    (0xC0, 0xD6),
    (0xD8, 0xF6),
    (0xF8, 0x2FF),
    (0x370, 0x37D),
    (0x37F, 0x1FFF),
    (0x200C, 0x200D),
    (0x2070, 0x218F),
    (0x2C00, 0x2FEF),
    (0x3001, 0xD7FF),
    (0xF900, 0xFDCF),
    (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF),
];
/// What NameChar has in addition
const NAME_MORE: &[(u32, u32)] = &[
    ('-' as u32, '-' as u32),
    ('.' as u32, '.' as u32),
    ('0' as u32, '9' as u32),
    (0xB7, 0xB7),
    (0x300, 0x36F),
    (0x203F, 0x2040),
];
/// The ends of all the ranges and their neighbours
pub fn name_edges() -> Vec<char> {
    let mut r = Vec::new();
    for (a, b) in NAME_START.iter().chain(NAME_MORE) {
        for x in [a - 1, *a, a + 1, b - 1, *b, b + 1] {
            if let Some(c) = char::from_u32(x) {
                r.push(c);
            }
        }
    }
    r.sort();
    r.dedup();
    r
}
pub fn name_start(c: char) -> bool {
    NAME_START.iter().any(|(a, b)| (*a..=*b).contains(&(c as u32)))
}
pub fn name_char(c: char) -> bool {
    name_start(c) || NAME_MORE.iter().any(|(a, b)| (*a..=*b).contains(&(c as u32)))
}

/// White_Space of the Unicode character database
pub const SPACES: &[char] = &[
    ' ', '\n', '\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}',
    '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}',
    '\u{205f}', '\u{3000}',
];
pub fn space(c: char) -> bool {
    SPACES.contains(&c)
}

//a Text with positions
pub struct Text {
    pub ch: Vec<char>,
    pos: Vec<Pos>,
}

impl Text {
    pub fn new(s: &str) -> Self {
        let mut ch = Vec::new();
        let mut pos = Vec::new();
        let mut p = Pos { b: 0, l: 1, c: 1 };
        for c in s.chars() {
            ch.push(c);
            pos.push(p);
            p.b += c.len_utf8();
            if c == '\n' {
                p.l += 1;
                p.c = 1;
            } else {
                p.c += 1;
            }
        }
        pos.push(p);
        Text { ch, pos }
    }
    fn at(&self, i: usize) -> Option<char> {
        self.ch.get(i).copied()
    }
    fn str(&self, s: usize, e: usize) -> String {
        self.ch[s..e].iter().collect()
    }
    pub fn pos(&self, i: usize) -> Pos {
        self.pos[i]
    }
    fn span(&self, s: usize, e: usize) -> Option<(Pos, Pos)> {
        Some((self.pos[s], self.pos[e]))
    }
    fn run(&self, i: usize, f: impl Fn(char) -> bool) -> usize {
        let mut j = i;
        while self.at(j).is_some_and(&f) {
            j += 1;
        }
        j
    }
    fn error(&self, kind: &'static str, s: usize, e: usize, detail: String) -> Er {
        Er { kind, span: self.span(s, e), detail }
    }
}

//a Tokens
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Space,
    Comment(Vec<String>),
    Quoted { raw: bool, data: String },
    Open { level: usize, prefix: String, name: String, boxed: bool },
    Close { level: usize, prefix: String, name: String },
    Attr { prefix: String, name: String, value: String },
}

#[derive(Clone, Debug)]
pub struct Token {
    pub tok: Tok,
    pub s: usize,
    pub e: usize,
}

/// A quoted string after its opening quote: end of the contents
fn quoted_end(t: &Text, i: usize, quote: char, hashes: usize) -> Option<usize> {
    let mut j = i;
    loop {
        let c = t.at(j)?;
        if c == '\n' && hashes == 0 {
            return None;
        }
        if c == quote && (1..=hashes).all(|k| t.at(j + k) == Some('#')) {
            return Some(j);
        }
        j += 1;
    }
}

/// [prefix:]name
fn qualified(t: &Text, i: usize) -> Option<(usize, String, String)> {
    let one = |i: usize| -> Option<usize> {
        if t.at(i).is_some_and(name_start) {
            Some(t.run(i, name_char))
        } else {
            None
        }
    };
    let a = one(i)?;
    if t.at(a) != Some(':') {
        return Some((a, String::new(), t.str(i, a)));
    }
    let b = one(a + 1)?;
    Some((b, t.str(i, a), t.str(a + 1, b)))
}

/// The token at i; None at the end
pub fn token(t: &Text, i: usize) -> Result<Option<Token>, Er> {
    let Some(c) = t.at(i) else {
        return Ok(None);
    };
    let ok = |tok: Tok, e: usize| Ok(Some(Token { tok, s: i, e }));
    if space(c) {
        return ok(Tok::Space, t.run(i, space));
    }
    if c == ';' {
        let mut lines = Vec::new();
        let mut j = i;
        loop {
            // at a ';'
            let e = t.run(j + 1, |c| c != '\n');
            lines.push(t.str(j + 1, e));
            if e == t.ch.len() {
                return ok(Tok::Comment(lines), e);
            }
            j = e + 1;
            let k = t.run(j, |c| c != '\n' && space(c));
            if t.at(k) != Some(';') {
                return ok(Tok::Comment(lines), j);
            }
            j = k;
        }
    }
    // A quoted string, if it is complete
    {
        let raw = c == 'r';
        let h = i + raw as usize;
        let q = t.run(h, |c| c == '#');
        if let Some(quote @ ('"' | '\'')) = t.at(q) {
            let n = q - h;
            if let Some(e) = quoted_end(t, q + 1, quote, n) {
                return ok(Tok::Quoted { raw, data: t.str(q + 1, e) }, e + 1 + n);
            }
        }
    }
    if c == '#' {
        let h = t.run(i, |c| c == '#');
        let level = h - i;
        let Some((e, prefix, name)) = qualified(t, h) else {
            return Err(t.error("ExpectedTagName", i, h, String::new()));
        };
        let (e, tok) = match t.at(e) {
            Some('{') => (e + 1, Tok::Open { level, prefix, name, boxed: true }),
            Some('}') => (e + 1, Tok::Close { level, prefix, name }),
            _ => (e, Tok::Open { level, prefix, name, boxed: false }),
        };
        if t.at(e).is_some_and(|c| !space(c)) {
            return Err(t.error("ExpectedWhitespaceAfterTag", i, e, String::new()));
        }
        return ok(tok, e);
    }
    let Some((e, prefix, name)) = qualified(t, i) else {
        return Err(t.error("UnexpectedCharacter", i, i, c.to_string()));
    };
    match t.at(e) {
        None => return Err(t.error("UnexpectedEOF", i, e, String::new())),
        Some('=') => {}
        Some(c) => return Err(t.error("ExpectedEquals", i, e, c.to_string())),
    }
    let v = e + 1;
    let bad = || Err(t.error("ExpectedEquals", v, v, "=".to_string()));
    match t.at(v) {
        None => bad(),
        Some(c) if space(c) => bad(),
        Some(q @ ('"' | '\'')) => match quoted_end(t, v + 1, q, 0) {
            Some(e) => ok(Tok::Attr { prefix, name, value: t.str(v + 1, e) }, e + 1),
            None => bad(),
        },
        Some(_) => {
            let e = t.run(v, |c| !space(c));
            ok(Tok::Attr { prefix, name, value: t.str(v, e) }, e)
        }
    }
}

//a Events
struct Open {
    level: usize,
    boxed: bool,
    name: QName,
    /// Declarations of this element
    decls: Vec<(String, String)>,
}

struct Reader<'a> {
    t: &'a Text,
    i: usize,
    xmlns: bool,
    stack: Vec<Open>,
    out: Trace,
}

fn base(xmlns: bool) -> &'static [(&'static str, &'static str)] {
    if xmlns {
        &[("", ""), ("xmlns", XMLNS_URI), ("xml", XML_URI)]
    } else {
        &[("", "")]
    }
}

impl<'a> Reader<'a> {
    /// The next token that is not whitespace; does not move on
    fn peek(&mut self) -> Result<Option<Token>, Er> {
        loop {
            match token(self.t, self.i)? {
                Some(Token { tok: Tok::Space, e, .. }) => self.i = e,
                x => return Ok(x),
            }
        }
    }
    fn lookup(&self, prefix: &str) -> Option<String> {
        for o in self.stack.iter().rev() {
            if let Some((_, u)) = o.decls.iter().rev().find(|(p, _)| p == prefix) {
                return Some(u.clone());
            }
        }
        base(self.xmlns).iter().find(|(p, _)| *p == prefix).map(|(_, u)| u.to_string())
    }
    fn resolve(&self, prefix: &str, name: &str, s: usize, e: usize) -> Result<QName, Er> {
        match self.lookup(prefix) {
            Some(uri) => Ok(QName { prefix: prefix.into(), uri, name: name.into() }),
            None => Err(self.t.error("MarkupError:UnmappedPrefix", s, e, prefix.to_string())),
        }
    }
    fn emit(&mut self, body: Body, s: usize, e: usize, need: usize) {
        let span = (self.t.pos(s), self.t.pos(e));
        self.out.events.push(Ev { body, span });
        self.out.need.push(self.t.pos(need).b);
    }
    fn end_top(&mut self, s: usize, e: usize, need: usize) {
        let o = self.stack.pop().unwrap();
        self.emit(Body::End(o.name), s, e, need);
    }

    fn read(&mut self, version: usize) -> Result<(), Er> {
        self.emit(Body::StartDoc(version), 0, 0, 0);
        let mut rooted = false;
        // end of the last token that is not whitespace
        let mut last = 0;
        loop {
            let Some(k) = self.peek()? else {
                let n = self.t.ch.len();
                if !rooted {
                    return Err(self.t.error("UnexpectedEOF", last, last, String::new()));
                }
                while let Some(o) = self.stack.last() {
                    if o.boxed {
                        return Err(self.t.error("UnexpectedEOF", last, last, String::new()));
                    }
                    self.end_top(last, last, n);
                }
                self.emit(Body::EndDoc, last, last, n);
                return Ok(());
            };
            let (s, e) = (k.s, k.e);
            self.i = e;
            last = e;
            match k.tok {
                Tok::Space => unreachable!(),
                Tok::Comment(lines) => {
                    let lengths = lines.iter().map(|x| x.len()).collect();
                    self.emit(Body::Comment { data: lines.join("\n"), lengths }, s, e, e);
                }
                Tok::Quoted { raw, data } => {
                    if self.stack.is_empty() {
                        return Err(self.t.error("OutsideRootElement", s, s, String::new()));
                    }
                    let ctype = if raw { "Raw" } else { "Interpretable" };
                    self.emit(Body::Content { ctype, data }, s, e, e);
                }
                Tok::Attr { prefix, name, .. } => {
                    return Err(self.t.error("UnexpectedAttribute", s, e, format!("{prefix}:{name}")));
                }
                Tok::Close { level, prefix, name } => {
                    self.resolve(&prefix, &name, s, e)?;
                    while self.stack.last().is_some_and(|o| !o.boxed) {
                        self.end_top(s, s, e);
                    }
                    let matches = self
                        .stack
                        .last()
                        .is_some_and(|o| o.level == level && o.name.prefix == prefix && o.name.name == name);
                    if !matches {
                        return Err(self.t.error("UnexpectedCloseTag", s, e, String::new()));
                    }
                    self.end_top(s, e, e);
                }
                Tok::Open { level, prefix, name, boxed } => {
                    while self.stack.last().is_some_and(|o| !o.boxed && level <= o.level) {
                        self.end_top(s, s, e);
                    }
                    let deepest = match self.stack.last() {
                        Some(o) if !o.boxed => o.level + 1,
                        _ => 1,
                    };
                    if level > deepest {
                        return Err(self.t.error("UnexpectedTagIndent", s, e, deepest.to_string()));
                    }
                    if self.stack.is_empty() && rooted {
                        return Err(self.t.error("OutsideRootElement", s, e, String::new()));
                    }
                    rooted = true;
                    let mut attrs = Vec::new();
                    let mut decls: Vec<(String, String)> = Vec::new();
                    let need = loop {
                        match self.peek()? {
                            Some(Token { tok: Tok::Attr { prefix, name, value }, s, e }) => {
                                if self.xmlns {
                                    let decl = if prefix.is_empty() && name == "xmlns" {
                                        Some("")
                                    } else if prefix == "xmlns" {
                                        Some(name.as_str())
                                    } else {
                                        None
                                    };
                                    if let Some(p) = decl {
                                        if decls.iter().any(|(q, _)| q == p) {
                                            self.out.dup_decl = true;
                                        }
                                        decls.push((p.to_string(), value.clone()));
                                    }
                                }
                                attrs.push((prefix, name, value, s, e));
                                self.i = e;
                                last = e;
                            }
                            Some(k) => break k.e,
                            None => break self.t.ch.len(),
                        }
                    };
                    self.stack.push(Open { level, boxed, name: QName::default(), decls });
                    let mut named = Vec::new();
                    for (prefix, name, value, s, e) in attrs {
                        let q = if self.xmlns && prefix.is_empty() && name == "xmlns" {
                            let q = self.resolve("xmlns", &name, s, e)?;
                            QName { prefix: String::new(), ..q }
                        } else {
                            self.resolve(&prefix, &name, s, e)?
                        };
                        named.push((q, value));
                    }
                    let name = self.resolve(&prefix, &name, s, e)?;
                    self.stack.last_mut().unwrap().name = name.clone();
                    self.emit(Body::Start { name, attrs: named }, s, e, need);
                }
            }
        }
    }
}

/// Reads a text
pub fn read(text: &str, xmlns: bool, version: usize) -> Trace {
    let t = Text::new(text);
    let mut r = Reader { t: &t, i: 0, xmlns, stack: Vec::new(), out: Trace::default() };
    let e = r.read(version);
    r.out.err = e.err();
    r.out
}
