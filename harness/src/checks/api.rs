//! Properties of events and errors, silence, and build configurations.
use super::xmlout::{made_body, made_case, make_event};
use super::{diff, flag};
use crate::drive::{self, Lc, View};
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::refmodel::{self, Body};
use hml_rs::markup::{Event, EventType};
use hml_rs::names::{Namespace, NamespaceStack};
use hml_rs::{HmlError, MarkupError, Span};
use lexer_rs::UserPosn;
use std::io::{BufRead, BufReader, Write};

pub static CHECKS: &[CheckDef] = &[
    CheckDef {
        id: "C23",
        rule: "texts read in both namespace modes, their events converted to XML events, names, attributes, escapes and references; non-trivial: at least one element, or an error",
        quick: 1_920_000,
        thorough: 9_600_000,
        gen: c23_gen,
        run: c23_run,
        enumerate: None,
        text_only: true,
        assumptions: &[],
    },
    CheckDef {
        id: "C24",
        rule: "events of random documents, and events of all kinds made through the constructors with random spans; non-trivial: an event with parts",
        quick: 3_600_000,
        thorough: 18_000_000,
        gen: c24_gen,
        run: c24_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C25",
        rule: "errors of all kinds made through the constructors with random spans and details, and errors met in reading; non-trivial: an error with details",
        quick: 4_800_000,
        thorough: 24_000_000,
        gen: c25_gen,
        run: c25_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C28",
        rule: "texts, each read by, and each escaped and expanded by, programs built in four configurations; non-trivial: at least 3 events or an error after one",
        quick: 240_000,
        thorough: 1_500_000,
        gen: c28_gen,
        run: c28_run,
        enumerate: None,
        text_only: true,
        assumptions: &[],
    },
];

//a C23
fn c23_gen(s: &mut Src) -> Case {
    let (t, kind) = gen::text(s);
    Case::new().with("text", t).with("kind", kind)
}

/// The supervisor looks at what the process printed
fn c23_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let t = c.get("text");
    let mut some = false;
    for xmlns in [false, true] {
        let mut n = Namespace::new(xmlns);
        let mut stack = NamespaceStack::new(&mut n);
        let e = drive::each_event(t, &mut stack, Some(110), &mut |e, s| {
            let _ = e.as_xml_writer(s);
            let _ = e.as_xml_reader(s, true);
            some |= matches!(e, Event::StartElement { .. });
            let _ = e.borrow_span();
            if let Some(tag) = e.as_start_element() {
                let _ = tag.name.to_string(s);
            }
            Ok(())
        })?;
        if let Some(e) = e {
            some = true;
            let _ = (e.to_string(), format!("{e:?}"), e.span().is_some());
        }
        let _ = hml_rs::names::Name::from_str(&mut stack, t);
        let _ = hml_rs::names::Attribute::new(&mut stack, "xmlns", "p", t.to_string());
        let _ = hml_rs::names::Attribute::new(&mut stack, "", "xmlns", t.to_string());
        let _ = hml_rs::names::Attribute::new(&mut stack, "nope", "a", t.to_string());
        stack.push_frame();
        stack.add_ns("p", t);
        stack.pop_frame();
        let _ = drive::mappings(&stack);
    }
    for mask in [0, hml_rs::escape::ESCAPE_ATTR] {
        let _ = hml_rs::escape::escape(t, mask);
    }
    let e = hml_rs::escape::Entities::xml();
    let _ = e.replace_entities(true, t);
    let _ = e.replace_entities(false, t);
    cov.label(c.get("kind"));
    Ok(some)
}

//a C24
fn c24_gen(s: &mut Src) -> Case {
    if s.chance(1, 4) {
        let ns = s.chance(1, 2);
        let d = gen::doc(s, &Cfg::new(s.size / 2).ns(ns));
        let text = gen::write(s, &d);
        return Case::new().with("text", text).with("ns", flag(ns));
    }
    let mut c = made_case(s);
    c.set("plain", s.below(2).to_string());
    let a = s.below(1000);
    let b = a + s.count(50);
    c.set("from", a.to_string());
    c.set("to", b.to_string());
    c
}

/// A position some way into a text
fn pos(n: usize) -> Lc {
    let mut p = Lc::default();
    for i in 0..n {
        if i % 7 == 6 {
            p = p.advance_line(1);
        } else {
            p = p.advance_cols(1 + i % 3, 1);
        }
    }
    p
}

fn accessors<P: View>(e: Event<P>, s: &NamespaceStack, b: &Body, at: (refmodel::Pos, refmodel::Pos)) -> Result<(), String> {
    let kind = match b {
        Body::StartDoc(_) => EventType::StartDocument,
        Body::EndDoc => EventType::EndDocument,
        Body::Start { .. } => EventType::StartElement,
        Body::End(_) => EventType::EndElement,
        Body::Content { .. } => EventType::Content,
        Body::Comment { .. } => EventType::Comment,
        Body::Pi { .. } => EventType::ProcessingInstruction,
    };
    if e.get_type() != kind {
        return Err(format!("{b:?} has the type {:?}", e.get_type()));
    }
    if drive::span(e.borrow_span()) != at {
        return Err(format!("{b:?} has the span {:?} instead of {at:?}", drive::span(e.borrow_span())));
    }
    if drive::span(drive::event_span(&e)) != at {
        return Err(format!("{b:?} holds the span {:?} instead of {at:?}", drive::span(drive::event_span(&e))));
    }
    if drive::body(&e, s) != *b {
        return Err(format!("{b:?} holds {:?}", drive::body(&e, s)));
    }
    let v = if let Body::StartDoc(v) = b { Some(*v) } else { None };
    if e.as_start_document() != v || e.is_start_document() != v.is_some() {
        return Err(format!("{b:?} says start of document {:?} {}", e.as_start_document(), e.is_start_document()));
    }
    if e.is_end_document() != matches!(b, Body::EndDoc) {
        return Err(format!("{b:?} says end of document {}", e.is_end_document()));
    }
    let q = e.as_end_element().map(|n| drive::qname(n, s));
    let want = if let Body::End(q) = b { Some(q.clone()) } else { None };
    if q != want {
        return Err(format!("{b:?} says end of element {q:?}"));
    }
    let t = e.as_content().map(|(t, d)| (drive::ctype_str(t), d.to_string()));
    let want = if let Body::Content { ctype, data } = b { Some((*ctype, data.clone())) } else { None };
    if t != want {
        return Err(format!("{b:?} says content {t:?}"));
    }
    let got = e.as_start_element().map(|tag| {
        let attrs = tag.attributes.attributes().iter().map(|a| (drive::qname(&a.name, s), a.value.clone())).collect();
        Body::Start { name: drive::qname(&tag.name, s), attrs }
    });
    let want = matches!(b, Body::Start { .. }).then_some(b);
    if got.as_ref() != want {
        return Err(format!("{b:?} says start of element {got:?}"));
    }
    Ok(())
}

fn c24_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    if let Some(text) = c.opt("text") {
        let ns = c.get("ns") == "1";
        let want = refmodel::read(text, ns, 100);
        let mut n = Namespace::new(ns);
        let mut stack = NamespaceStack::new(&mut n);
        let mut i = 0;
        drive::each_event(text, &mut stack, None, &mut |e, s| {
            let w = want.events.get(i).ok_or("more events than expected")?;
            i += 1;
            accessors(e, s, &w.body, w.span)
        })?;
        cov.label("documents");
        return Ok(i > 4);
    }
    let mut n = Namespace::new(false);
    let mut s = NamespaceStack::new(&mut n);
    let maps = [("", ""), ("p", "u"), ("q", "v"), ("xml", refmodel::XML_URI), ("xmlns", refmodel::XMLNS_URI)];
    for (p, u) in maps {
        s.add_ns(p, u);
    }
    let uri = |p: &str| maps.iter().find(|x| x.0 == p).map(|x| x.1.to_string()).unwrap_or_default();
    let b = made_body(c, &uri);
    let (from, to) = (c.num("from"), c.num("to"));
    let span = Span::new_at(&pos(from)).end_at(&pos(to));
    let e: Event<Lc> = make_event(c, &mut s, span)?;
    accessors(e, &s, &b, (pos(from).view(), pos(to).view()))?;
    let e: Event<usize> = make_event(c, &mut s, Span::new_at(&from).end_at(&to))?;
    accessors(e, &s, &b, (from.view(), to.view()))?;
    cov.label(c.get("event"));
    Ok(c.get("event") != "end document")
}

//a C25
const ERRORS: &[&str] = &[
    "eof", "character", "newline", "equals", "no more", "indent", "attribute", "io", "io result", "io ok", "markup empty", "markup prefix",
    "markup name", "markup ok", "failed", "tag name", "whitespace", "bare markup",
];

fn c25_gen(s: &mut Src) -> Case {
    if s.chance(1, 3) {
        let (t, kind) = gen::text(s);
        return Case::new().with("text", t).with("ns", flag(s.chance(1, 2))).with("kind", kind);
    }
    let a = s.below(200);
    let b = a + s.count(50);
    Case::new()
        .with("error", *s.pick(ERRORS))
        .with("from", a.to_string())
        .with("to", b.to_string())
        .with("char", gen::any_char(s).to_string())
        .with("depth", s.pick(&[0usize, 1, 7, 100, usize::MAX]).to_string())
        .with("one", gen::any_string(s, 8))
        .with("two", gen::any_string(s, 8))
}

fn check_error<P: View>(
    e: &HmlError<P>,
    kind: &str,
    span: Option<(refmodel::Pos, refmodel::Pos)>,
    details: &[&str],
) -> Result<(), String> {
    let (k, held, _) = drive::error_parts(e);
    if k != kind {
        return Err(format!("expected {kind}, but got {e:?}"));
    }
    if held.map(drive::span) != span || e.span().map(drive::span) != span {
        return Err(format!("{kind} has the span {:?} instead of {span:?}", e.span().map(drive::span)));
    }
    let m = e.to_string();
    if m.trim().is_empty() {
        return Err(format!("{kind} has no message"));
    }
    for d in details {
        if !m.contains(d) {
            return Err(format!("the message of {kind} is {m:?}, without {d:?}"));
        }
    }
    Ok(())
}

fn c25_errors<P: View>(c: &Case, from: P, to: P) -> Result<bool, String> {
    let (one, two) = (c.get("one"), c.get("two"));
    let ch = c.get("char").chars().next().unwrap_or('x');
    let cs = ch.to_string();
    let depth = c.num("depth");
    let span = Span::new_at(&from).end_at(&to);
    let at = Some((from.view(), to.view()));
    type R<P> = Result<u8, HmlError<P>>;
    let fail = |r: R<P>| r.err().ok_or_else(|| "expected an error, but got a value".to_string());
    let io = || std::io::Error::new(std::io::ErrorKind::Other, one.to_string());
    fn source<P: View>(e: &HmlError<P>, want: &str) -> Result<(), String> {
        match std::error::Error::source(e) {
            Some(s) if s.to_string() == want => Ok(()),
            s => Err(format!("the source of {e:?} is {s:?}")),
        }
    }
    match c.get("error") {
        "eof" => check_error(&fail(HmlError::unexpected_eof(&from, &to))?, "UnexpectedEOF", at, &[])?,
        "character" => {
            let e = fail(HmlError::unexpected_character(&from, &to, ch))?;
            check_error(&e, "UnexpectedCharacter", at, &[&cs])?
        }
        "newline" => {
            let e = fail(HmlError::unexpected_newline_in_string(&from, &to))?;
            check_error(&e, "UnexpectedNewlineInQuotedString", at, &[])?
        }
        "equals" => {
            let e = fail(HmlError::expected_equals(&from, &to, ch))?;
            check_error(&e, "ExpectedEquals", at, &[&cs])?
        }
        "no more" => check_error(&fail(HmlError::no_more_events())?, "BeyondEndOfTokens", None, &[])?,
        "indent" => {
            let e = fail(HmlError::unexpected_tag_indent(span, depth))?;
            check_error(&e, "UnexpectedTagIndent", at, &[&depth.to_string()])?
        }
        "attribute" => {
            let e = fail(HmlError::unexpected_attribute(span, one, two))?;
            check_error(&e, "UnexpectedAttribute", at, &[one, two])?
        }
        "io" => {
            let e = HmlError::io_error(span, io());
            check_error(&e, "IoError", at, &[one])?;
            source(&e, one)?;
        }
        "io result" => {
            let e = fail(HmlError::of_io_result(span, Err(io())))?;
            check_error(&e, "IoError", at, &[one])?;
            source(&e, one)?;
        }
        "io ok" => match HmlError::of_io_result(span, Ok(one.to_string())) {
            Ok(x) if x == one => {}
            x => return Err(format!("a good result became {x:?}")),
        },
        "markup empty" | "markup prefix" | "markup name" => {
            let (m, kind, d) = match c.get("error") {
                "markup empty" => (MarkupError::empty_name(), "MarkupError:EmptyName", ""),
                "markup prefix" => (MarkupError::unmapped_prefix(one), "MarkupError:UnmappedPrefix", one),
                _ => (MarkupError::bad_name(one), "MarkupError:BadName", one),
            };
            if drive::markup_error(&m) != (kind, d.to_string()) {
                return Err(format!("expected {kind} of {d:?} but got {m:?}"));
            }
            let inner = m.to_string();
            if inner.trim().is_empty() || !inner.contains(d) {
                return Err(format!("the message of {m:?} is {inner:?}"));
            }
            let e = fail(HmlError::map_markup_error(Err(m), &span))?;
            check_error(&e, kind, at, &[d])?;
            source(&e, &inner)?;
        }
        "markup ok" => match HmlError::map_markup_error(Ok(one.to_string()), &span) {
            Ok(x) if x == one => {}
            x => return Err(format!("a good result became {x:?}")),
        },
        "failed" => {
            let e: HmlError<P> = lexer_rs::LexerError::failed_to_parse(from, ch);
            check_error(&e, "UnexpectedCharacter", Some((from.view(), from.view())), &[&cs])?
        }
        "tag name" => check_error(&HmlError::ExpectedTagName { span }, "ExpectedTagName", at, &[])?,
        "whitespace" => check_error(&HmlError::ExpectedWhitespaceAfterTag { span }, "ExpectedWhitespaceAfterTag", at, &[])?,
        _ => {
            // the three are told apart by their messages
            let a = MarkupError::empty_name().to_string();
            let b = MarkupError::unmapped_prefix(one).to_string();
            let c = MarkupError::bad_name(one).to_string();
            if a == b || b == c || a == c {
                return Err(format!("messages {a:?} {b:?} {c:?}"));
            }
        }
    }
    Ok(!matches!(c.get("error"), "eof" | "newline" | "no more" | "tag name" | "whitespace"))
}

fn c25_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    if let Some(text) = c.opt("text") {
        let ns = c.get("ns") == "1";
        let want = refmodel::read(text, ns, 100);
        if want.dup_decl {
            return Ok(false);
        }
        let mut n = Namespace::new(ns);
        let mut stack = NamespaceStack::new(&mut n);
        let e = drive::each_event(text, &mut stack, None, &mut |_, _| Ok(()))?;
        cov.label("met in reading");
        return match (e, want.err) {
            (None, None) => Ok(false),
            (Some(e), Some(w)) => {
                let parts: Vec<&str> = match w.kind {
                    "UnexpectedAttribute" => w.detail.split(':').collect(),
                    _ => vec![&w.detail],
                };
                check_error(&e, w.kind, w.span, &parts)?;
                cov.label(w.kind);
                Ok(!w.detail.is_empty())
            }
            (e, w) => Err(format!("expected {w:?}\n  but got {e:?}")),
        };
    }
    let (from, to) = (c.num("from"), c.num("to"));
    cov.label(c.get("error"));
    c25_errors(c, pos(from), pos(to))?;
    c25_errors(c, from, to)
}

//a C28
fn c28_gen(s: &mut Src) -> Case {
    let (t, kind) = if s.chance(3, 4) {
        gen::text(s)
    } else {
        match s.below(4) {
            0 | 1 => (super::esc::c17_gen(s).get("text").to_string(), "references"),
            2 => (super::esc::c16_gen(s).get("text").to_string(), "characters to escape"),
            _ => (super::esc::c18::gen(s).get("text").to_string(), "escapes"),
        }
    };
    Case::new().with("text", t).with("kind", kind)
}

struct Dumper {
    name: String,
    child: std::process::Child,
    out: BufReader<std::process::ChildStdout>,
}

thread_local! {
    static DUMPERS: std::cell::RefCell<Vec<Dumper>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn start_dumpers() -> Vec<Dumper> {
    let list = crate::sys::needed("HMLVERIF_DUMPS");
    list.split(':')
        .map(|p| {
            let mut child = std::process::Command::new(p)
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .unwrap_or_else(|e| crate::sys::give_up(&format!("{p}: {e}")));
            let out = BufReader::new(child.stdout.take().unwrap());
            let name = p.rsplit('/').nth(2).unwrap_or(p).to_string();
            Dumper { name, child, out }
        })
        .collect()
}

fn c28_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let r = DUMPERS.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_empty() {
            *d = start_dumpers();
        }
        let mut line: String = c.get("text").bytes().map(|b| format!("{b:02x}")).collect();
        line.push('\n');
        let mut answers: Vec<(String, Option<String>)> = Vec::new();
        for x in d.iter_mut() {
            let sent = x.child.stdin.as_mut().unwrap().write_all(line.as_bytes()).and_then(|_| x.child.stdin.as_mut().unwrap().flush());
            let mut a = String::new();
            let got = x.out.read_line(&mut a);
            let ok = sent.is_ok() && got.is_ok() && a.ends_with('\n');
            answers.push((x.name.clone(), ok.then_some(a)));
        }
        if answers.iter().any(|a| a.1.is_none()) {
            for x in d.iter_mut() {
                drop(x.child.stdin.take());
                if let Ok(Some(9)) = x.child.wait().map(|s| s.code()) {
                    crate::sys::give_up("hmldump did not finish a text");
                }
            }
            d.clear();
        }
        answers
    });
    let (first, a) = &r[0];
    for (name, b) in &r[1..] {
        match (a, b) {
            (Some(a), Some(b)) => {
                let nl = |s: &str| s.replace("\\n", "\n");
                diff(&format!("{first} against {name}"), &nl(a), &nl(b))?
            }
            (None, None) => {}
            _ => return Err(format!("{first} {}, {name} {}", life(a), life(b))),
        }
    }
    let Some(a) = a else {
        // alike in all of them: the subject of C04
        return Ok(false);
    };
    cov.label(c.get("kind"));
    cov.label_if(a.contains("Er {"), "refused");
    Ok(a.matches("Ev {").count() >= 3 || (a.contains("Er {") && a.contains("Start {")))
}

fn life(a: &Option<String>) -> &'static str {
    match a {
        Some(_) => "answers",
        None => "dies",
    }
}
