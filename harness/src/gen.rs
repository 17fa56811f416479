//! Generators: element trees, texts of them, and texts that may be wrong.
use crate::engine::Src;
use crate::refmodel::{name_char, name_start, Body, QName, SPACES, XMLNS_URI, XML_URI};

//a Trees
#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub prefix: String,
    pub name: String,
    pub value: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kid {
    El(Node),
    Text { raw: bool, data: String },
    Comment(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub prefix: String,
    pub name: String,
    pub attrs: Vec<Attr>,
    pub kids: Vec<Kid>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub before: Vec<Vec<String>>,
    pub root: Node,
    pub after: Vec<Vec<String>>,
}

/// What documents to make
#[derive(Clone, Copy)]
pub struct Cfg {
    /// Only what XML can represent
    pub xml: bool,
    /// Prefixes, declarations
    pub ns: bool,
    /// Sometimes a prefix that is not declared
    pub bad_prefix: bool,
    pub comments: bool,
    pub max_depth: usize,
    pub max_nodes: usize,
    pub max_attrs: usize,
}

impl Cfg {
    pub fn new(size: usize) -> Self {
        Cfg {
            xml: false,
            ns: false,
            bad_prefix: false,
            comments: true,
            max_depth: 2 + size / 14,
            max_nodes: 2 + size * 6 / 10,
            max_attrs: 4,
        }
    }
    pub fn xml(mut self) -> Self {
        self.xml = true;
        self
    }
    pub fn ns(mut self, ns: bool) -> Self {
        self.ns = ns;
        self
    }
}

//a Characters and strings
/// Some characters of each kind, simplest first
const PLAIN: &[char] = &['a', 'b', 'c', 'x', 'z', 'A', '0', '1', '9', '_', '-', '.', ',', '/', '(', '~', '@'];
const SPECIAL: &[char] = &['#', '"', '\'', ';', '=', '{', '}', ':', 'r', ' ', '\\', '&', '<', '>', '\t', '\u{0}'];
const WIDE: &[char] = &[
    'é', 'ÿ', '\u{7f}', '\u{80}', '\u{ad}', 'Ω', '\u{300}', '\u{36f}', '\u{7ff}', '\u{800}', '€', '中', '\u{2028}', '\u{200d}',
    '\u{3000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '😁', '\u{10ffff}', '\u{85}', '\u{a0}', '\u{1680}', '\u{e000}',
    '\u{d7ff}', '\u{1}', '\u{1b}', '\u{b}', '\u{c}',
];

/// Any character at all, of all lengths
pub fn any_char(s: &mut Src) -> char {
    let x = match s.weighted(&[40, 30, 10, 10, 10]) {
        0 => return *s.pick(PLAIN),
        1 => return *s.pick(SPECIAL),
        2 => return *s.pick(WIDE),
        3 => s.below(0x800) as u32,
        _ => match s.below(3) {
            0 => s.below(0xd800) as u32,
            1 => 0xe000 + s.below(0x2000) as u32,
            _ => 0x10000 + s.below(0x100000) as u32,
        },
    };
    char::from_u32(x).unwrap_or('a')
}

pub fn xml_char(c: char, attr: bool) -> bool {
    match c {
        '\n' => true,
        '\t' => !attr,
        '\u{0}'..='\u{1f}' | '\u{7f}'..='\u{9f}' | '\u{2028}' | '\u{fffe}' | '\u{ffff}' => false,
        _ => true,
    }
}

pub fn any_string(s: &mut Src, max: usize) -> String {
    let n = s.count(max);
    (0..n).map(|_| any_char(s)).collect()
}

/// Contents for a quoted string
pub fn content(s: &mut Src, xml: bool) -> String {
    let max = 1 + s.size / 4;
    let mut r = String::new();
    let n = s.tail(max, 60);
    for _ in 0..n {
        match s.weighted(&[50, 8, 8, 8, 8, 3, 3]) {
            0 => r.push(any_char(s)),
            1 => r.push('\n'),
            2 => {
                // quotes followed by hashes
                r.push(*s.pick(&['"', '\'']));
                let k = s.tail(5, 40);
                r.extend(std::iter::repeat('#').take(k));
            }
            3 => r += s.pick(&["\\n", "\\\"", "\\", "\\u{41}", "\\x41", "&amp;", "&#65;", "]]>", "<!--", "<a>", "\"\"\"", "'''"]),
            4 => r += s.pick(&["#tag", "; comment", "a=b", "#a{", "#a}", "r\"", "r#\"", "'#", "\"##"]),
            5 => r += "\r\n",
            _ => r.push('\r'),
        }
    }
    if xml {
        r.retain(|c| xml_char(c, false));
    }
    r
}

/// An attribute value that can be written in at least one way
pub fn value(s: &mut Src, xml: bool) -> String {
    let max = 1 + s.size / 6;
    let n = s.tail(max, 60);
    let mut r: String = (0..n).map(|_| any_char(s)).collect();
    if xml {
        r.retain(|c| xml_char(c, true));
    }
    match s.weighted(&[30, 30, 40]) {
        // without a quote, to be written in the other
        0 => r.retain(|c| c != '"' && c != '\n'),
        1 => r.retain(|c| c != '\'' && c != '\n'),
        _ => {
            r.retain(|c| !c.is_whitespace());
            if r.is_empty() || r.starts_with(['"', '\'']) {
                r.insert(0, 'v');
            }
        }
    }
    r
}

const NAME_WIDE: &[char] = &[
    'é', 'À', 'Ö', 'Ø', 'ö', 'ø', '˿', 'Ͱ', 'ͽ', 'Ϳ', 'Ω', 'ж', '\u{1fff}', '\u{200c}', '\u{200d}', 'ⁿ', '↏', 'Ⰰ', '〇', '中', '한',
    '豈', 'ﷰ', '\u{fffd}', '\u{10000}', '𝒜', '😁', '\u{effff}',
];
const NAME_LATER: &[char] = &['-', '.', '0', '9', '·', '\u{300}', '\u{36f}', '\u{203f}', '\u{2040}'];

pub fn name(s: &mut Src) -> String {
    if s.chance(6, 10) {
        return s.pick(&["a", "b", "c", "d", "r", "e", "tag", "x", "xml", "xmlns", "R", "n", "A", "Tag", "ta", "tag1", "é", "e\u{301}"]).to_string();
    }
    let mut r = String::new();
    let n = 1 + s.tail(5, 40);
    for i in 0..n {
        let c = match s.weighted(&[50, 30, 20]) {
            0 => *s.pick(&['a', 'b', 'r', 'z', '_', 'A', 'Z']),
            1 => *s.pick(NAME_WIDE),
            _ if i > 0 => *s.pick(NAME_LATER),
            _ => 'q',
        };
        r.push(c);
    }
    r
}

fn comment_line(s: &mut Src, xml: bool) -> String {
    let max = 1 + s.size / 5;
    let mut r = any_string(s, max);
    if s.chance(1, 8) {
        r += s.pick(&["; more", "#a", "\"q\"", "\r", "--", "'", " ", "\u{85}"]);
    }
    r.retain(|c| c != '\n');
    if xml {
        r.retain(|c| xml_char(c, false) && c != '-' && c != '\r');
    }
    r
}

pub fn comment(s: &mut Src, xml: bool) -> Vec<String> {
    let n = 1 + s.tail(3, 40);
    (0..n).map(|_| comment_line(s, xml)).collect()
}

//a Trees
const PREFIXES: &[&str] = &["p", "q", "pré", "r", "s1", "xm", "P", "pr", "pre\u{301}", "p.1"];
const URIS: &[&str] =
    &["u", "http://a/", "http://b/", "urn:x", "é", "p", "U", "http://a", "http://A/", "HTTP://a/", "urn:x ", "e\u{301}", "http://%61/", "http://a/#"];

struct Ctx<'a> {
    cfg: &'a Cfg,
    left: usize,
}

pub fn doc(s: &mut Src, cfg: &Cfg) -> Doc {
    let mut c = Ctx { cfg, left: cfg.max_nodes };
    let outside = |s: &mut Src| -> Vec<Vec<String>> {
        if !cfg.comments {
            return Vec::new();
        }
        let n = s.count(2);
        (0..n).map(|_| comment(s, cfg.xml)).collect()
    };
    let before = outside(s);
    let root = node(s, &mut c, 1, &[]);
    let after = outside(s);
    let mut d = Doc { before, root, after };
    if s.chance(1, 15) {
        // far from the root
        let n = 3 + s.below(25);
        for _ in 0..n {
            let kids = vec![Kid::El(d.root)];
            d.root = Node { prefix: "".into(), name: name(s), attrs: Vec::new(), kids };
        }
    }
    if s.chance(1, 100) {
        enlarge(s, cfg, &mut d);
    }
    d
}

/// Makes one thing about a document large
fn enlarge(s: &mut Src, cfg: &Cfg, d: &mut Doc) {
    let n = match s.weighted(&[20, 60, 15, 5]) {
        0 => 30 + s.below(100),
        1 => 250 + s.below(100),
        2 => 1000 + s.below(100),
        _ => 65_500 + s.below(100),
    };
    let few = n.min(1100);
    let plain = |name: &str, kids| Node { prefix: "".into(), name: name.into(), attrs: Vec::new(), kids };
    let c = loop {
        let c = any_char(s);
        if xml_char(c, true) && !matches!(c, '-' | '\r' | '"' | '\'') && !c.is_whitespace() {
            break c;
        }
    };
    let long: String = std::iter::repeat(c).take(n).collect();
    match s.below(11) {
        0 => {
            // deep
            let deep = few.min(300);
            let mut root = std::mem::replace(&mut d.root, plain("a", Vec::new()));
            for i in 0..deep {
                root = plain(["a", "b", "c"][i % 3], vec![Kid::El(root)]);
            }
            d.root = root;
        }
        1 => {
            // wide
            for _ in 0..few {
                d.root.kids.push(Kid::El(plain("b", Vec::new())));
            }
        }
        2 => {
            // long names, that differ at the end only
            let long: String = std::iter::repeat(*s.pick(&['n', 'é', '中', '\u{10000}'])).take(n).collect();
            let mut attrs = Vec::new();
            for x in ["a", "b", "A", ""] {
                attrs.push(Attr { prefix: "".into(), name: format!("{long}{x}"), value: x.into() });
                if cfg.ns {
                    attrs.push(Attr { prefix: "xmlns".into(), name: format!("p{long}{x}"), value: format!("u{long}{x}") });
                    attrs.push(Attr { prefix: format!("p{long}{x}"), name: "n".into(), value: x.into() });
                }
            }
            let kids = ["b", "", "a"].iter().map(|x| Kid::El(plain(&format!("{long}{x}"), Vec::new()))).collect();
            d.root.kids.push(Kid::El(Node { prefix: "".into(), name: "b".into(), attrs, kids }));
        }
        3 => d.root.kids.push(Kid::Text { raw: s.chance(1, 2), data: long }),
        4 => {
            let attrs = vec![Attr { prefix: "".into(), name: "v".into(), value: long }];
            let kids = Vec::new();
            d.root.kids.push(Kid::El(Node { prefix: "".into(), name: "b".into(), attrs, kids }));
        }
        5 => {
            // many strings
            for _ in 0..few {
                d.root.kids.push(Kid::Text { raw: s.chance(1, 2), data: "t".into() });
            }
        }
        6 if cfg.comments => d.root.kids.push(Kid::Comment(vec!["c".into(), long, "d".into()])),
        7 if cfg.comments => {
            let l = comment_line(s, cfg.xml);
            d.root.kids.push(Kid::Comment(vec![l; few]));
        }
        8 => {
            // many attributes, and prefixes
            let mut attrs = Vec::new();
            for i in 0..few {
                if cfg.ns && i % 2 == 0 {
                    attrs.push(Attr { prefix: "xmlns".into(), name: format!("n{i}"), value: format!("u{i}") });
                } else if cfg.ns && i % 4 == 1 {
                    attrs.push(Attr { prefix: format!("n{}", i - 1), name: format!("n{i}"), value: format!("{i}") });
                } else {
                    attrs.push(Attr { prefix: "".into(), name: format!("n{i}"), value: format!("{i}") });
                }
            }
            let kids = Vec::new();
            d.root.kids.push(Kid::El(Node { prefix: "".into(), name: "b".into(), attrs, kids }));
        }
        9 => {
            // many names
            for i in 0..few {
                d.root.kids.push(Kid::El(plain(&format!("n{i}"), Vec::new())));
            }
        }
        _ => {
            // hashes in a string
            let q = *s.pick(&["\"", "'"]);
            let data = format!("x{}{q}{}", if s.chance(1, 2) { "\"'" } else { "" }, "#".repeat(few));
            d.root.kids.push(Kid::Text { raw: s.chance(1, 2), data });
        }
    }
}

/// Makes an element; `scope` is the prefixes declared around it
fn node(s: &mut Src, c: &mut Ctx, depth: usize, scope: &[String]) -> Node {
    c.left = c.left.saturating_sub(1);
    let mut scope = scope.to_vec();
    let mut attrs: Vec<Attr> = Vec::new();
    if c.cfg.ns {
        let n = if s.chance(1, 3) { 1 + s.tail(2, 12) } else { 0 };
        for _ in 0..n {
            if s.chance(1, 3) {
                let v = if s.chance(1, 4) { "" } else { *s.pick(URIS) };
                push_attr(&mut attrs, "", "xmlns", v);
            } else {
                let mut p = *s.pick(PREFIXES);
                let mut v = *s.pick(URIS);
                if !c.cfg.xml {
                    // not permitted in XML
                    if s.chance(1, 30) {
                        p = *s.pick(&["xml", "xmlns"]);
                    }
                    if s.chance(1, 12) {
                        v = "";
                    }
                }
                push_attr(&mut attrs, "xmlns", p, v);
                if p != "xmlns" && !scope.iter().any(|x| x == p) {
                    scope.push(p.to_string());
                }
            }
        }
    }
    let n = s.tail(c.cfg.max_attrs, 20);
    for _ in 0..n {
        let mut an = name(s);
        let v = value(s, c.cfg.xml);
        let prefix = pick_prefix(s, c.cfg, &scope);
        if (c.cfg.ns || c.cfg.xml) && an == "xmlns" {
            an = "xmlns1".to_string();
        }
        if c.cfg.xml && attrs.iter().any(|a| a.name == an) {
            continue;
        }
        attrs.push(Attr { prefix, name: an, value: v });
    }
    // declarations anywhere among the attributes
    if c.cfg.ns && attrs.len() > 1 {
        for i in (1..attrs.len()).rev() {
            let j = i - s.below(i + 1);
            attrs.swap(i, j);
        }
    }
    let mut prefix = pick_prefix(s, c.cfg, &scope);
    if c.cfg.xml && prefix == "xml" {
        // not for elements in XML
        prefix = String::new();
    }
    let name = name(s);
    let mut kids = Vec::new();
    let n = if depth == 1 { 1 + s.below(6) } else { s.tail(5, 20) };
    for _ in 0..n {
        let kind = s.weighted(&[if c.cfg.comments { 20 } else { 0 }, 30, if depth < c.cfg.max_depth && c.left > 0 { 60 } else { 0 }]);
        kids.push(match kind {
            0 => Kid::Comment(comment(s, c.cfg.xml)),
            1 => Kid::Text { raw: s.chance(1, 2), data: content(s, c.cfg.xml) },
            _ => Kid::El(node(s, c, depth + 1, &scope)),
        });
    }
    Node { prefix, name, attrs, kids }
}

fn push_attr(attrs: &mut Vec<Attr>, p: &str, n: &str, v: &str) {
    // No prefix is declared twice in one tag
    if !attrs.iter().any(|a| a.prefix == p && a.name == n) {
        attrs.push(Attr { prefix: p.into(), name: n.into(), value: v.into() });
    }
}

fn pick_prefix(s: &mut Src, cfg: &Cfg, scope: &[String]) -> String {
    if !cfg.ns {
        return String::new();
    }
    match s.weighted(&[50, 45, if cfg.bad_prefix { 2 } else { 0 }, 3]) {
        1 if !scope.is_empty() => s.pick(scope).clone(),
        2 => s.pick(&["p", "q", "nope"]).to_string(),
        3 => "xml".to_string(),
        _ => String::new(),
    }
}

//a Expected events of a tree
/// The events of a document without their spans; Err of the prefix that is not declared
pub fn walk(doc: &Doc, xmlns: bool, version: usize) -> (Vec<Body>, Option<String>) {
    let mut out = vec![Body::StartDoc(version)];
    let mut scope: Vec<(String, String)> = vec![("".into(), "".into())];
    if xmlns {
        scope.push(("xmlns".into(), XMLNS_URI.into()));
        scope.push(("xml".into(), XML_URI.into()));
    }
    for c in &doc.before {
        out.push(comment_body(c));
    }
    if let Err(p) = walk_node(&doc.root, &scope, xmlns, &mut out) {
        return (out, Some(p));
    }
    for c in &doc.after {
        out.push(comment_body(c));
    }
    out.push(Body::EndDoc);
    (out, None)
}

fn comment_body(lines: &[String]) -> Body {
    Body::Comment { data: lines.join("\n"), lengths: lines.iter().map(|l| l.len()).collect() }
}

fn walk_node(n: &Node, outer: &[(String, String)], xmlns: bool, out: &mut Vec<Body>) -> Result<(), String> {
    let mut scope = outer.to_vec();
    if xmlns {
        for a in &n.attrs {
            if a.prefix.is_empty() && a.name == "xmlns" {
                scope.push((String::new(), a.value.clone()));
            } else if a.prefix == "xmlns" {
                scope.push((a.name.clone(), a.value.clone()));
            }
        }
    }
    let find = |p: &str| -> Result<String, String> {
        scope.iter().rev().find(|x| x.0 == p).map(|x| x.1.clone()).ok_or_else(|| p.to_string())
    };
    let mut attrs = Vec::new();
    for a in &n.attrs {
        let from = if xmlns && a.prefix.is_empty() && a.name == "xmlns" { "xmlns" } else { a.prefix.as_str() };
        attrs.push((QName { prefix: a.prefix.clone(), uri: find(from)?, name: a.name.clone() }, a.value.clone()));
    }
    let q = QName { prefix: n.prefix.clone(), uri: find(&n.prefix)?, name: n.name.clone() };
    out.push(Body::Start { name: q.clone(), attrs });
    for k in &n.kids {
        match k {
            Kid::El(e) => walk_node(e, &scope, xmlns, out)?,
            Kid::Text { raw, data } => {
                let ctype = if *raw { "Raw" } else { "Interpretable" };
                out.push(Body::Content { ctype, data: data.clone() })
            }
            Kid::Comment(l) => out.push(comment_body(l)),
        }
    }
    out.push(Body::End(q));
    Ok(())
}

pub fn node_count(n: &Node) -> usize {
    1 + n.kids.iter().map(|k| if let Kid::El(e) = k { node_count(e) } else { 0 }).sum::<usize>()
}

pub fn node_depth(n: &Node) -> usize {
    1 + n.kids.iter().map(|k| if let Kid::El(e) = k { node_depth(e) } else { 0 }).max().unwrap_or(0)
}

/// The document without comments
pub fn without_comments(d: &Doc) -> Doc {
    fn strip(n: &Node) -> Node {
        let mut n = n.clone();
        n.kids.retain(|k| !matches!(k, Kid::Comment(_)));
        for k in n.kids.iter_mut() {
            if let Kid::El(e) = k {
                *e = strip(e);
            }
        }
        n
    }
    Doc { before: vec![], root: strip(&d.root), after: vec![] }
}

//a Texts of a tree
/// Writes a document, choosing among all the ways to do so
pub struct Writer<'a> {
    s: &'a mut Src,
    out: String,
    /// What has to come before the next token
    gap: Gap,
    /// Of 10 elements that can be either, how many are boxed
    pub boxed: usize,
    /// Use all whitespace characters
    pub odd_spaces: bool,
    /// Nothing but single spaces and newlines
    pub dull: bool,
    pub boxes: usize,
    pub plains: usize,
}

#[derive(PartialEq, Clone, Copy)]
enum Gap {
    /// Nothing needed
    None,
    /// Whitespace needed
    Space,
    /// At the start of a line, after a comment
    Line,
}

impl<'a> Writer<'a> {
    pub fn new(s: &'a mut Src) -> Self {
        let boxed = s.pick(&[3, 0, 5, 10]).to_owned();
        let odd_spaces = s.chance(1, 4);
        let dull = s.chance(1, 4);
        Writer { s, out: String::new(), gap: Gap::None, boxed, odd_spaces, dull, boxes: 0, plains: 0 }
    }
    fn space_char(&mut self) -> char {
        if self.odd_spaces && self.s.chance(1, 2) {
            // U+1680 is a name character too
            match *self.s.pick(SPACES) {
                '\u{1680}' => ' ',
                c => c,
            }
        } else {
            *self.s.pick(&[' ', '\n', '\t', ' ', '\r'])
        }
    }
    fn spaces(&mut self, min: usize) {
        if self.dull {
            if min > 0 {
                self.out.push(' ');
            }
            return;
        }
        let n = min + self.s.count(3);
        for _ in 0..n {
            let c = self.space_char();
            self.out.push(c);
        }
        if self.s.chance(1, 2500) {
            let n = match self.s.weighted(&[30, 50, 15, 5]) {
                0 => 20 + self.s.below(120),
                1 => 240 + self.s.below(40),
                2 => 1000 + self.s.below(100),
                _ => 65_500 + self.s.below(100),
            };
            let c = self.space_char();
            self.out.extend(std::iter::repeat(c).take(n));
        }
    }
    /// Before a token other than a comment
    fn token(&mut self) {
        let min = (self.gap == Gap::Space) as usize;
        self.spaces(min);
        self.gap = Gap::None;
    }
    fn hashes(&mut self, n: usize) {
        self.out.extend(std::iter::repeat('#').take(n));
    }
    fn qualified(&mut self, prefix: &str, name: &str) {
        if !prefix.is_empty() {
            self.out += prefix;
            self.out.push(':');
        }
        self.out += name;
    }
    pub fn comment(&mut self, lines: &[String], last: bool) {
        if self.gap == Gap::Line {
            // an empty line keeps this apart from the comment before it
            self.spaces(0);
            self.out.push('\n');
            self.spaces(0);
        } else {
            self.token();
        }
        for (i, l) in lines.iter().enumerate() {
            if i > 0 && !self.dull {
                let n = self.s.count(3);
                for _ in 0..n {
                    let c = self.space_char();
                    if c != '\n' {
                        self.out.push(c);
                    }
                }
            }
            self.out.push(';');
            self.out += l;
            if i + 1 < lines.len() || !last || self.s.chance(1, 2) {
                self.out.push('\n');
            }
        }
        self.gap = Gap::Line;
    }
    pub fn text(&mut self, raw: bool, data: &str) {
        self.token();
        let quote = *self.s.pick(&['"', '\'']);
        // as many hashes as are needed
        let mut min = data.contains('\n') as usize;
        let c: Vec<char> = data.chars().collect();
        for i in 0..c.len() {
            if c[i] == quote {
                let run = c[i + 1..].iter().take_while(|x| **x == '#').count();
                min = min.max(run + 1);
            }
        }
        let more = match self.s.weighted(&[300, 100, 1]) {
            0 => 0,
            1 => self.s.below(4),
            _ if self.s.chance(1, 10) => *self.s.pick(&[5000, 66_000]),
            _ => *self.s.pick(&[20, 120, 250, 256, 300]),
        };
        let n = min + more;
        if raw {
            self.out.push('r');
        }
        self.hashes(n);
        self.out.push(quote);
        self.out += data;
        self.out.push(quote);
        self.hashes(n);
    }
    pub fn attr(&mut self, a: &Attr) {
        self.token();
        self.qualified(&a.prefix, &a.name);
        self.out.push('=');
        let mut styles: Vec<Option<char>> = Vec::new();
        if !a.value.contains(['"', '\n']) {
            styles.push(Some('"'));
        }
        if !a.value.contains(['\'', '\n']) {
            styles.push(Some('\''));
        }
        if !a.value.is_empty() && !a.value.contains(char::is_whitespace) && !a.value.starts_with(['"', '\'']) {
            styles.push(None);
        }
        match *self.s.pick(&styles) {
            Some(q) => {
                self.out.push(q);
                self.out += &a.value;
                self.out.push(q);
            }
            None => {
                self.out += &a.value;
                self.gap = Gap::Space;
            }
        }
    }
    /// `level` is the number of hashes of this element
    fn node(&mut self, n: &Node, level: usize, must_box: bool) {
        let boxed = must_box || self.s.chance(self.boxed, 10);
        if boxed {
            self.boxes += 1;
        } else {
            self.plains += 1;
        }
        self.token();
        self.hashes(level);
        self.qualified(&n.prefix, &n.name);
        if boxed {
            self.out.push('{');
        }
        self.gap = Gap::Space;
        for a in &n.attrs {
            self.attr(a);
        }
        let inner = if boxed { 1 } else { level + 1 };
        for (i, k) in n.kids.iter().enumerate() {
            match k {
                Kid::El(e) => {
                    // Text after a plain element would be in that element
                    let must = matches!(n.kids.get(i + 1), Some(Kid::Text { .. } | Kid::Comment(_)));
                    self.node(e, inner, must)
                }
                Kid::Text { raw, data } => self.text(*raw, data),
                Kid::Comment(l) => self.comment(l, false),
            }
        }
        if boxed {
            self.token();
            self.hashes(level);
            self.qualified(&n.prefix, &n.name);
            self.out.push('}');
            self.gap = Gap::Space;
        }
    }
    pub fn doc(mut self, d: &Doc) -> (String, usize, usize) {
        for c in &d.before {
            self.comment(c, false);
        }
        self.node(&d.root, 1, !d.after.is_empty());
        for (i, c) in d.after.iter().enumerate() {
            self.comment(c, i + 1 == d.after.len());
        }
        if self.out.ends_with('\n') || d.after.is_empty() {
            if self.s.chance(1, 2) {
                self.spaces(0);
            }
        }
        (self.out, self.boxes, self.plains)
    }
}

pub fn write(s: &mut Src, d: &Doc) -> String {
    Writer::new(s).doc(d).0
}

//a Texts of any kind
pub const SIGNIFICANT: &[char] = &['a', ' ', '#', '{', '}', '"', '\'', ';', '=', '\n', 'r', ':'];

/// Where a sequence of tokens has got to
#[derive(Default)]
struct Soup {
    level: usize,
    /// The hashes and name of each open box
    boxes: Vec<(usize, &'static str)>,
}

fn soup_token(s: &mut Src, at: &mut Soup) -> String {
    let names = ["a", "b", "r", "p:a", "é"];
    let hashes = hashes_of;
    match s.weighted(&[20, 12, 12, 12, 12, 6, 6, 4, 3]) {
        0 => {
            // mostly a depth that fits
            let l = match s.weighted(&[40, 40, 20]) {
                0 => at.level + 1,
                1 => at.level.max(1),
                _ => 1 + s.below(at.level.max(3) + 1),
            };
            at.level = l;
            format!("{}{} ", hashes(l), s.pick(&names))
        }
        1 => {
            let l = if s.chance(7, 10) { at.level + 1 } else { 1 + s.below(at.level.max(3) + 1) };
            let n = *s.pick(&names);
            at.level = 0;
            at.boxes.push((l, n));
            format!("{}{n}{{ ", hashes(l))
        }
        2 => {
            // mostly what the innermost box needs
            let (mut l, mut n) = at.boxes.pop().unwrap_or((1, "a"));
            at.level = l - 1;
            match s.weighted(&[60, 10, 10, 10, 10]) {
                0 => {}
                1 => l += 1,
                2 => l = (l - 1).max(1),
                3 => l = 1 + s.below(3),
                _ => n = *s.pick(&names),
            }
            format!("{}{n}}} ", hashes(l))
        }
        3 => {
            let n = *s.pick(&["x=1", "y='v'", "z=\"w\"", "xmlns='u'", "xmlns:p='v'", "p:q=1", "r='x'"]);
            format!("{n}{}", if s.chance(3, 4) { " " } else { "" })
        }
        4 => {
            let q = *s.pick(&["\"", "'"]);
            let n = s.count(2);
            let r = if s.chance(1, 3) { "r" } else { "" };
            let body = *s.pick(&["t", "", "é\u{300}", "\\n", "a b", "'", "\""]);
            let nl = if n > 0 && s.chance(1, 3) { "\n" } else { "" };
            format!("{r}{}{q}{body}{nl}{q}{}", hashes(n), hashes(n))
        }
        5 => format!(";{}\n", s.pick(&["", "c", " a;b", "#", "é"])),
        6 => SPACES[s.below(SPACES.len())].to_string(),
        7 => s.pick(SIGNIFICANT).to_string(),
        _ => any_char(s).to_string(),
    }
}

fn hashes_of(n: usize) -> String {
    "#".repeat(n)
}

fn mutate(s: &mut Src, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let edits = 1 + s.below(3);
    for _ in 0..edits {
        let i = s.below(c.len() + 1);
        match s.weighted(&[30, 30, 20, 10, 10, 5, 15, 10]) {
            0 => {
                if i < c.len() {
                    c.remove(i);
                }
            }
            1 => {
                let x = if s.chance(4, 5) { *s.pick(SIGNIFICANT) } else { any_char(s) };
                c.insert(i, x);
            }
            2 => {
                if i < c.len() {
                    c[i] = if s.chance(4, 5) { *s.pick(SIGNIFICANT) } else { any_char(s) };
                }
            }
            3 => c.truncate(i),
            4 => {
                // take a piece out, or repeat it
                let j = (i + s.below(8)).min(c.len());
                if s.chance(1, 2) {
                    c.drain(i..j);
                } else {
                    let p: Vec<char> = c[i..j].to_vec();
                    for (k, x) in p.into_iter().enumerate() {
                        c.insert(j + k, x);
                    }
                }
            }
            6 => {
                // one hash more or less in a run of them
                let l: Vec<usize> = (0..c.len()).filter(|k| c[*k] == '#' && (*k == 0 || c[*k - 1] != '#')).collect();
                if !l.is_empty() {
                    let k = *s.pick(&l);
                    if s.chance(1, 2) {
                        c.insert(k, '#');
                    } else {
                        c.remove(k);
                    }
                }
            }
            7 => {
                // a character more or less before a brace
                let l: Vec<usize> = (0..c.len()).filter(|k| matches!(c[*k], '{' | '}')).collect();
                if !l.is_empty() {
                    let k = *s.pick(&l);
                    if s.chance(1, 2) || k == 0 {
                        c.insert(k, *s.pick(&['a', 'b', '-', ':']));
                    } else {
                        c.remove(k - 1);
                    }
                }
            }
            _ => {
                let mut l = Soup { level: 1, boxes: Vec::new() };
                let t = soup_token(s, &mut l);
                for (k, x) in t.chars().enumerate() {
                    c.insert(i + k, x);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// A text, and what kind it is
pub fn text(s: &mut Src) -> (String, &'static str) {
    match s.weighted(&[20, 30, 30, 10, 10]) {
        0 => {
            let ns = s.chance(1, 2);
            let mut cfg = Cfg::new(s.size * 2 / 3).ns(ns);
            cfg.bad_prefix = true;
            let d = doc(s, &cfg);
            (write(s, &d), "document")
        }
        1 => {
            let ns = s.chance(1, 2);
            let mut cfg = Cfg::new(s.size / 2).ns(ns);
            cfg.bad_prefix = true;
            let d = doc(s, &cfg);
            let t = write(s, &d);
            (mutate(s, &t), "mutated document")
        }
        2 => {
            let n = 1 + s.count(4 + s.size / 4);
            let mut at = Soup::default();
            let mut r = String::new();
            if s.chance(1, 10) {
                // far from the root
                at.level = 2 + s.below(20);
                for l in 1..=at.level {
                    r += &hashes_of(l);
                    r += "a ";
                }
            }
            for _ in 0..n {
                let t = soup_token(s, &mut at);
                r += &t;
            }
            (r, "tokens")
        }
        3 => {
            let n = s.count(3 + s.size / 3);
            let mut r = if s.chance(1, 2) { "#a ".to_string() } else { String::new() };
            for _ in 0..n {
                r.push(*s.pick(SIGNIFICANT));
            }
            (r, "significant characters")
        }
        _ => (any_string(s, 4 + s.size / 2), "characters"),
    }
}

/// Of all strings of `len` significant characters, the one with this number
pub fn significant(mut k: u64, len: usize) -> String {
    let mut r = String::new();
    for _ in 0..len {
        r.push(SIGNIFICANT[(k % 12) as usize]);
        k /= 12;
    }
    r
}

/// All strings of significant characters up to a length, alone and in an element
pub fn enumerate_significant(max: usize, shard: usize, nshards: usize, prefixes: &[&str], f: &mut dyn FnMut(String) -> bool) {
    for len in 0..=max {
        let n = 12u64.pow(len as u32);
        for k in 0..n {
            if k % nshards as u64 != shard as u64 {
                continue;
            }
            let t = significant(k, len);
            for p in prefixes {
                if !f(format!("{p}{t}")) {
                    return;
                }
            }
        }
    }
}

/// A name that is not one of those given
pub fn is_name(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(name_start) && c.all(name_char)
}
