//! Running the library on a text.
use crate::refmodel::{Body, Er, Ev, Pos, QName};
use hml_rs::markup::{ContentType, Event};
use hml_rs::names::{Name, NamespaceStack};
use hml_rs::{HmlError, MarkupError, Posn};
use lexer_rs::{
    BoxDynLexerParseFn, CharStream, Lexer, LexerError, LexerParseResult, LineColumn, ParserIterator, PosnInCharStream,
    StreamCharPos, StreamCharSpan, UserPosn,
};
use std::cell::Cell;
use std::marker::PhantomData;

//a Positions
pub type Lc = StreamCharPos<LineColumn>;

/// What can be seen of a position
pub trait View: Posn + 'static {
    const LINES: bool;
    fn view(&self) -> Pos;
}
impl View for usize {
    const LINES: bool = false;
    fn view(&self) -> Pos {
        Pos { b: *self, l: 0, c: 0 }
    }
}
impl View for Lc {
    const LINES: bool = true;
    fn view(&self) -> Pos {
        Pos { b: self.byte_ofs(), l: self.line(), c: self.column() }
    }
}

/// A position type of a caller: it does not start at zero, and counts characters
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct OwnPos {
    bytes: u32,
    newlines: u32,
    in_line: u32,
}
impl Default for OwnPos {
    fn default() -> Self {
        OwnPos { bytes: 1000, newlines: 7, in_line: 3 }
    }
}
impl UserPosn for OwnPos {
    fn line(&self) -> usize {
        self.newlines as usize
    }
    fn column(&self) -> usize {
        self.in_line as usize
    }
    fn advance_cols(mut self, num_bytes: usize, num_chars: usize) -> Self {
        self.bytes += num_bytes as u32;
        self.in_line = self.in_line.wrapping_add(num_chars as u32);
        self
    }
    fn advance_line(mut self, num_bytes: usize) -> Self {
        self.bytes += num_bytes as u32;
        self.newlines += 1;
        self.in_line = 3;
        self
    }
}
impl PosnInCharStream for OwnPos {
    fn byte_ofs(&self) -> usize {
        self.bytes as usize - 1000
    }
}
impl View for OwnPos {
    const LINES: bool = true;
    fn view(&self) -> Pos {
        Pos { b: self.byte_ofs(), l: self.newlines as usize - 6, c: self.in_line as usize - 2 }
    }
}

//a A lexer that checks what it is asked
/// A lexer over a string which fails on positions outside it, and counts
#[derive(Debug)]
pub struct CheckedLexer<'a, P, T, E> {
    text: &'a str,
    limit: usize,
    pub steps: &'a Cell<usize>,
    /// End of the characters looked at
    pub reach: &'a Cell<usize>,
    phantom: PhantomData<(P, T, E)>,
}

impl<'a, P: Posn, T, E> CheckedLexer<'a, P, T, E> {
    pub fn new(text: &'a str, limit: usize, steps: &'a Cell<usize>, reach: &'a Cell<usize>) -> Self {
        CheckedLexer { text, limit, steps, reach, phantom: PhantomData }
    }
    fn check(&self, p: &P) -> usize {
        self.step(1);
        let ofs = p.byte_ofs();
        if ofs > self.text.len() {
            panic!("position {ofs} is outside the text of length {}", self.text.len());
        }
        if !self.text.is_char_boundary(ofs) {
            panic!("position {ofs} is not a character boundary");
        }
        ofs
    }
    fn step(&self, n: usize) {
        let s = self.steps.get() + n;
        self.steps.set(s);
        if s > self.limit {
            panic!("more than {} characters inspected for a text of {} bytes", self.limit, self.text.len());
        }
    }
    fn reached(&self, e: usize) {
        if e > self.reach.get() {
            self.reach.set(e);
        }
    }
}

impl<'a, P, T, E> Lexer for CheckedLexer<'a, P, T, E>
where
    P: Posn,
    T: std::fmt::Debug + Clone,
    E: LexerError<P>,
{
    type Token = T;
    type Error = E;
    type State = P;
    fn parse<'i>(&'i self, state: P, parsers: &[BoxDynLexerParseFn<'i, Self>]) -> LexerParseResult<P, T, E> {
        let Some(ch) = self.peek_at(&state) else {
            return Ok(None);
        };
        for p in parsers {
            if let Some((next, token)) = p(self, state, ch)? {
                self.check(&next);
                return Ok(Some((next, token)));
            }
        }
        Err(E::failed_to_parse(state, ch))
    }
    fn iter<'i>(&'i self, parsers: &'i [BoxDynLexerParseFn<'i, Self>]) -> Box<dyn Iterator<Item = Result<T, E>> + 'i> {
        Box::new(ParserIterator::new(self, P::default(), parsers))
    }
}

impl<'a, P: Posn, T, E> CharStream<P> for CheckedLexer<'a, P, T, E> {
    fn range_as_bytes(&self, ofs: usize, n: usize) -> &[u8] {
        self.step(n + 1);
        self.reached(ofs + n);
        &self.text.as_bytes()[ofs..ofs + n]
    }
    fn matches_bytes(&self, state: &P, s: &[u8]) -> bool {
        let ofs = self.check(state);
        self.step(s.len());
        self.reached((ofs + s.len()).min(self.text.len()));
        self.text.as_bytes()[ofs..].starts_with(s)
    }
    fn get_text_span(&self, span: &StreamCharSpan<P>) -> &str {
        self.get_text(*span.start(), *span.end())
    }
    fn get_text(&self, start: P, end: P) -> &str {
        let (s, e) = (self.check(&start), self.check(&end));
        if s > e {
            panic!("text from {s} to {e} asked for");
        }
        self.reached(e);
        &self.text[s..e]
    }
    fn matches_str(&self, pos: &P, pat: &str) -> bool {
        self.matches_bytes(pos, pat.as_bytes())
    }
    fn peek_at(&self, state: &P) -> Option<char> {
        let ofs = self.check(state);
        let c = self.text[ofs..].chars().next();
        self.reached(ofs + c.map_or(0, |c| c.len_utf8()));
        c
    }
    fn consumed(&self, mut state: P, num_chars: usize) -> P {
        for _ in 0..num_chars {
            let Some(c) = self.peek_at(&state) else {
                break;
            };
            state = self.consumed_char(state, c);
        }
        state
    }
}

//a Conversions
pub fn qname(n: &Name, ns: &NamespaceStack) -> QName {
    QName {
        prefix: ns.prefix_str(n.prefix).to_string(),
        uri: ns.uri_str(n.uri).to_string(),
        name: ns.name_str(n.name).to_string(),
    }
}

pub fn ctype_str(c: ContentType) -> &'static str {
    match c {
        ContentType::Raw => "Raw",
        ContentType::Interpretable => "Interpretable",
        ContentType::Whitespace => "Whitespace",
    }
}

pub fn body<P: Posn>(e: &Event<P>, ns: &NamespaceStack) -> Body {
    match e {
        Event::StartDocument { version, .. } => Body::StartDoc(*version),
        Event::EndDocument { .. } => Body::EndDoc,
        Event::StartElement { tag, .. } => Body::Start {
            name: qname(&tag.name, ns),
            attrs: tag.attributes.attributes().iter().map(|a| (qname(&a.name, ns), a.value.clone())).collect(),
        },
        Event::EndElement { name, .. } => Body::End(qname(name, ns)),
        Event::Content { ctype, data, .. } => Body::Content { ctype: ctype_str(*ctype), data: data.clone() },
        Event::Comment { data, lengths, .. } => Body::Comment { data: data.clone(), lengths: lengths.clone() },
        Event::ProcessingInstruction { name, data, .. } => {
            Body::Pi { name: ns.name_str(*name).to_string(), data: data.clone() }
        }
    }
}

pub fn span<P: View>(s: &StreamCharSpan<P>) -> (Pos, Pos) {
    (s.start().view(), s.end().view())
}

pub fn event_span<P: Posn>(e: &Event<P>) -> &StreamCharSpan<P> {
    match e {
        Event::StartDocument { span, .. } => span,
        Event::EndDocument { span, .. } => span,
        Event::StartElement { span, .. } => span,
        Event::EndElement { span, .. } => span,
        Event::Content { span, .. } => span,
        Event::ProcessingInstruction { span, .. } => span,
        Event::Comment { span, .. } => span,
    }
}

pub fn event<P: View>(e: &Event<P>, ns: &NamespaceStack) -> Ev {
    Ev { body: body(e, ns), span: span(event_span(e)) }
}

pub fn error_parts<P: Posn>(e: &HmlError<P>) -> (&'static str, Option<&StreamCharSpan<P>>, String) {
    use HmlError::*;
    let none = String::new;
    match e {
        IoError { span, source } => ("IoError", Some(span), source.to_string()),
        MarkupError { span, source } => {
            let (k, d) = markup_error(source);
            (k, Some(span), d)
        }
        ExpectedTagName { span } => ("ExpectedTagName", Some(span), none()),
        ExpectedWhitespaceAfterTag { span } => ("ExpectedWhitespaceAfterTag", Some(span), none()),
        UnexpectedCharacter { span, ch } => ("UnexpectedCharacter", Some(span), ch.to_string()),
        UnexpectedTagIndent { span, depth } => ("UnexpectedTagIndent", Some(span), depth.to_string()),
        UnexpectedCloseTag { span } => ("UnexpectedCloseTag", Some(span), none()),
        OutsideRootElement { span } => ("OutsideRootElement", Some(span), none()),
        BeyondEndOfTokens => ("BeyondEndOfTokens", None, none()),
        UnexpectedAttribute { span, attr } => ("UnexpectedAttribute", Some(span), attr.clone()),
        UnexpectedNewlineInQuotedString { span } => ("UnexpectedNewlineInQuotedString", Some(span), none()),
        ExpectedEquals { span, ch } => ("ExpectedEquals", Some(span), ch.to_string()),
        UnexpectedEOF { span } => ("UnexpectedEOF", Some(span), none()),
    }
}

pub fn markup_error(e: &MarkupError) -> (&'static str, String) {
    match e {
        MarkupError::EmptyName {} => ("MarkupError:EmptyName", String::new()),
        MarkupError::UnmappedPrefix { prefix } => ("MarkupError:UnmappedPrefix", prefix.clone()),
        MarkupError::BadName { name } => ("MarkupError:BadName", name.clone()),
    }
}

pub fn error<P: View>(e: &HmlError<P>) -> Er {
    let (kind, s, detail) = error_parts(e);
    Er { kind, span: s.map(span), detail }
}

/// The mappings of a namespace stack that can be seen
pub fn mappings(ns: &NamespaceStack) -> Vec<(String, String)> {
    let mut r: Vec<(String, String)> = ns
        .into_iter()
        .map(|m| {
            let (p, u) = ns.borrow_mapping(m);
            (p.to_string(), u.to_string())
        })
        .collect();
    r.sort();
    r
}

//a Runs
#[derive(Clone, Copy)]
pub struct Opts {
    pub xmlns: bool,
    /// None: not set
    pub version: Option<usize>,
    /// Requests made after the first error or the end
    pub more: usize,
}
impl Opts {
    pub fn new(xmlns: bool) -> Self {
        Opts { xmlns, version: None, more: 0 }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub events: Vec<Ev>,
    pub err: Option<Er>,
    /// Results of requests after the first error or the end
    pub after: Vec<Result<Ev, Er>>,
    /// For each event, the end of the tokens taken by then
    pub consumed: Vec<usize>,
    /// For each event, the end of what the lexer looked at by then
    pub reach: Vec<usize>,
    pub steps: usize,
    pub maps_before: Vec<(String, String)>,
    pub maps_after: Vec<(String, String)>,
}

impl Run {
    pub fn bodies(&self) -> Vec<&Body> {
        self.events.iter().map(|e| &e.body).collect()
    }
}

pub fn step_limit(text: &str) -> usize {
    64 * text.len() + 4096
}

/// Reads a text with a lexer, as a user does
///
/// This has to be a macro, as the type of the tokens is private
#[macro_export]
macro_rules! read_with {
    ($P:ty, $lexer:expr, $text:expr, $opts:expr, $ns:expr, $reach:expr) => {{
        use lexer_rs::{Lexer as _, PosnInCharStream as _};
        let text: &str = $text;
        let opts: $crate::drive::Opts = $opts;
        let ns_stack: &mut hml_rs::names::NamespaceStack = $ns;
        let lexer = $lexer;
        let fns = hml_rs::hml_reader::parse_fns();
        let state = std::cell::Cell::new(<$P>::default());
        let calls = std::cell::Cell::new(0usize);
        let call_limit = 2 * text.len() + 64 + 4 * opts.more;
        let mut next = || {
            calls.set(calls.get() + 1);
            if calls.get() > call_limit {
                panic!("more than {call_limit} tokens asked for of a text of {} bytes", text.len());
            }
            match lexer.parse(state.get(), &fns) {
                Err(e) => Some(Err(e)),
                Ok(Some((s, token))) => {
                    state.set(s);
                    Some(Ok(token))
                }
                Ok(None) => None,
            }
        };
        let mut parser: hml_rs::hml_reader::Parser<$P> = hml_rs::hml_reader::Parser::default();
        if let Some(v) = opts.version {
            parser = parser.set_version(v);
        }
        let mut run = $crate::drive::Run::default();
        run.maps_before = $crate::drive::mappings(ns_stack);
        let event_limit = 2 * text.len() + 64;
        loop {
            match parser.next_event(ns_stack, &mut next) {
                Ok(e) => {
                    let end = matches!(e, hml_rs::markup::Event::EndDocument { .. });
                    run.events.push($crate::drive::event(&e, ns_stack));
                    run.consumed.push(state.get().byte_ofs());
                    run.reach.push($reach);
                    if end {
                        break;
                    }
                    if run.events.len() > event_limit {
                        panic!("more than {event_limit} events from a text of {} bytes", text.len());
                    }
                }
                Err(e) => {
                    run.err = Some($crate::drive::error(&e));
                    break;
                }
            }
        }
        for _ in 0..opts.more {
            run.after.push(match parser.next_event(ns_stack, &mut next) {
                Ok(e) => Ok($crate::drive::event(&e, ns_stack)),
                Err(e) => Err($crate::drive::error(&e)),
            });
        }
        run.maps_after = $crate::drive::mappings(ns_stack);
        run
    }};
}

/// Reads a text through the checked lexer
pub fn read_checked<P: View>(text: &str, opts: Opts, ns: &mut NamespaceStack) -> Run {
    let steps = Cell::new(0);
    let reach = Cell::new(0);
    let limit = step_limit(text) + opts.more * (8 * text.len() + 64);
    let lexer = CheckedLexer::new(text, limit, &steps, &reach);
    let mut run = read_with!(P, &lexer, text, opts, ns, reach.get());
    run.steps = steps.get();
    run
}

/// Reads a text through the lexer of a string of lexer_rs
pub fn read_string<P: View>(text: &str, opts: Opts, ns: &mut NamespaceStack) -> Run {
    let lexer_string = lexer_rs::LexerOfString::default().set_text(text);
    let lexer = lexer_string.lexer();
    read_with!(P, &lexer, text, opts, ns, 0)
}

/// Reads a text through the lexer of a borrowed string of lexer_rs
pub fn read_str<P: View>(text: &str, opts: Opts, ns: &mut NamespaceStack) -> Run {
    let lexer = lexer_rs::LexerOfStr::new(text);
    read_with!(P, &lexer, text, opts, ns, 0)
}

/// Reads a text with fresh namespaces: checked first, then as a user does
pub fn read(text: &str, opts: Opts) -> Run {
    checked(text, opts);
    let mut ns = hml_rs::names::Namespace::new(opts.xmlns);
    let mut ns_stack = NamespaceStack::new(&mut ns);
    read_string::<Lc>(text, opts, &mut ns_stack)
}

pub fn checked(text: &str, opts: Opts) -> Run {
    let mut ns = hml_rs::names::Namespace::new(opts.xmlns);
    let mut ns_stack = NamespaceStack::new(&mut ns);
    read_checked::<Lc>(text, opts, &mut ns_stack)
}

/// The tokens of a text, where they start and end and how they are printed but for that, and the error that ends them
pub fn tokens(text: &str) -> Result<(Vec<(Pos, Pos, String)>, Option<Er>), String> {
    use lexer_rs::Lexer as _;
    let lexer = lexer_rs::LexerOfStr::new(text);
    let fns = hml_rs::hml_reader::parse_fns();
    let mut r = Vec::new();
    let mut state = Lc::default();
    loop {
        match lexer.parse(state, &fns) {
            Ok(None) => return Ok((r, None)),
            Err(e) => return Ok((r, Some(error(&e)))),
            Ok(Some((end, token))) => {
                let place = format!("{:?}", StreamCharSpan::new(state, end));
                let shown = token.to_string();
                if !shown.contains(&place) {
                    return Err(format!("a token at {place} is printed without its place: {shown:?}"));
                }
                r.push((state.view(), end.view(), shown.replacen(&place, "", 1)));
                if r.len() > text.len() {
                    return Err(format!("more than {} tokens of a text of {} bytes", text.len(), text.len()));
                }
                state = end;
            }
        }
    }
}

/// Calls a function for each event of a text; gives the error, if there is one
pub fn each_event(
    text: &str,
    ns: &mut NamespaceStack,
    version: Option<usize>,
    f: &mut dyn FnMut(Event<Lc>, &mut NamespaceStack) -> Result<(), String>,
) -> Result<Option<HmlError<Lc>>, String> {
    let lexer_string = lexer_rs::LexerOfString::default().set_text(text);
    let lexer = lexer_string.lexer();
    let fns = hml_rs::hml_reader::parse_fns();
    let mut iter = lexer.iter(&fns);
    let mut parser: hml_rs::hml_reader::Parser<Lc> = hml_rs::hml_reader::Parser::default();
    if let Some(v) = version {
        parser = parser.set_version(v);
    }
    let limit = 2 * text.len() + 64;
    for _ in 0..limit {
        match parser.next_event(ns, || iter.next()) {
            Ok(e) => {
                let end = matches!(e, Event::EndDocument { .. });
                f(e, ns)?;
                if end {
                    return Ok(None);
                }
            }
            Err(e) => return Ok(Some(e)),
        }
    }
    Err(format!("more than {limit} events from a text of {} bytes", text.len()))
}
