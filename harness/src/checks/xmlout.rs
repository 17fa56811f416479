//! Properties of the conversion to XML, and of hmlconvert.
use super::{diff, flag, no_error};
use crate::drive;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::refmodel::{self, Body, QName};
use hml_rs::markup::{ContentType, Event};
use hml_rs::names::{Attributes, Name, Namespace, NamespaceStack, Tag};
use std::io::Write;
use xml::common::XmlVersion;
use xml::reader::XmlEvent as In;
use xml::writer::XmlEvent as Out;

pub static CHECKS: &[CheckDef] = &[
    CheckDef {
        id: "C19",
        rule: "documents that XML can represent, with and without namespaces, written as XML and read by an XML reader; non-trivial: at least 3 elements, and a character that XML escapes",
        quick: 1_440_000,
        thorough: 7_200_000,
        gen: c19_gen,
        run: c19_run,
        enumerate: None,
        text_only: false,
        assumptions: &["xml-rs writes and reads XML correctly"],
    },
    CheckDef {
        id: "C20",
        rule: "all events of random documents, and events of all kinds made through the constructors; non-trivial: an element with attributes, or a processing instruction with data",
        quick: 2_400_000,
        thorough: 12_000_000,
        gen: c20_gen,
        run: c20_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C21",
        rule: "hmlconvert run on documents that XML can represent and on other texts, from a file or standard input, to standard output or a file, with version options; non-trivial: an exit of 0 with at least 2 elements, or a failure beyond the first line",
        quick: 36_000,
        thorough: 180_000,
        gen: c21_gen,
        run: c21_run,
        enumerate: None,
        text_only: false,
        assumptions: &["xml-rs reads XML correctly"],
    },
    CheckDef {
        id: "C32",
        rule: "documents given to hmlconvert with input that cannot be read, output that cannot be written, or arguments that make no sense, in a scratch folder; non-trivial: the document itself is valid",
        quick: 24_000,
        thorough: 120_000,
        gen: c32_gen,
        run: c32_run,
        enumerate: None,
        text_only: false,
        assumptions: &["/dev/full refuses all writes"],
    },
];

//a XML as text that can be compared
fn qualified(prefix: &str, name: &str) -> String {
    if prefix.is_empty() {
        name.to_string()
    } else {
        format!("{prefix}:{name}")
    }
}

#[derive(Default)]
struct Lines {
    out: String,
    text: String,
    /// Whitespace between markup, and around comments, is of no account
    indent: bool,
}
impl Lines {
    fn flush(&mut self) {
        let t = std::mem::take(&mut self.text);
        if t.is_empty() || (self.indent && t.chars().all(|c| matches!(c, ' ' | '\n' | '\t' | '\r'))) {
            return;
        }
        self.out += &format!("text {t:?}\n");
    }
    fn line(&mut self, s: String) {
        self.flush();
        self.out += &s;
        self.out.push('\n');
    }
    fn comment(&mut self, s: &str) {
        let s = if self.indent { s.trim_matches(char::is_whitespace) } else { s };
        self.line(format!("comment {s:?}"));
    }
    fn element(&mut self, prefix: &str, uri: &str, name: &str) {
        self.line(format!("element {:?} in {uri:?}", qualified(prefix, name)));
    }
    fn attr(&mut self, prefix: &str, uri: &str, name: &str, value: &str) {
        // the default namespace does not apply to attributes in XML
        let uri = if prefix.is_empty() { "" } else { uri };
        self.line(format!("  attribute {:?} in {uri:?} is {value:?}", qualified(prefix, name)));
    }
    fn version(&mut self, v: &str) {
        self.line(format!("version {v}"));
    }
}

pub fn xml_expected(l: &[Body], ns: bool, indent: bool) -> String {
    let mut o = Lines { indent, ..Default::default() };
    for b in l {
        match b {
            Body::StartDoc(v) => o.version(if *v == 100 { "1.0" } else { "1.1" }),
            Body::EndDoc => o.flush(),
            Body::Start { name, attrs } => {
                o.element(&name.prefix, &name.uri, &name.name);
                for (q, v) in attrs {
                    let declares = q.prefix == "xmlns" || (q.prefix.is_empty() && q.name == "xmlns");
                    if !(ns && declares) {
                        o.attr(&q.prefix, &q.uri, &q.name, v);
                    }
                }
            }
            Body::End(q) => o.line(format!("end {:?}", qualified(&q.prefix, &q.name))),
            Body::Content { data, .. } => o.text += data,
            Body::Comment { data, .. } => o.comment(data),
            Body::Pi { name, data } => o.line(format!("instruction {name:?} {data:?}")),
        }
    }
    o.out
}

pub fn xml_read(bytes: &[u8], indent: bool) -> Result<String, String> {
    let mut o = Lines { indent, ..Default::default() };
    let config = xml::ParserConfig::new()
        .trim_whitespace(false)
        .whitespace_to_characters(true)
        .cdata_to_characters(true)
        .ignore_comments(false)
        .coalesce_characters(true)
        .ignore_root_level_whitespace(true)
        .max_attributes(1 << 20)
        .max_name_length(1 << 24)
        .max_attribute_length(1 << 24)
        .max_data_length(1 << 24);
    for e in config.create_reader(bytes) {
        let e = e.map_err(|e| format!("the XML is not well-formed: {e}: {:?}", String::from_utf8_lossy(bytes)))?;
        match e {
            In::StartDocument { version, .. } => o.version(match version {
                XmlVersion::Version10 => "1.0",
                XmlVersion::Version11 => "1.1",
            }),
            In::EndDocument => o.flush(),
            In::StartElement { name, attributes, .. } => {
                let uri = |n: &xml::name::OwnedName| n.namespace.clone().unwrap_or_default();
                o.element(name.prefix.as_deref().unwrap_or(""), &uri(&name), &name.local_name);
                for a in attributes {
                    o.attr(a.name.prefix.as_deref().unwrap_or(""), &uri(&a.name), &a.name.local_name, &a.value);
                }
            }
            In::EndElement { name } => {
                o.line(format!("end {:?}", qualified(name.prefix.as_deref().unwrap_or(""), &name.local_name)))
            }
            In::Characters(s) | In::Whitespace(s) | In::CData(s) => o.text += &s,
            In::Comment(s) => o.comment(&s),
            In::ProcessingInstruction { name, data } => o.line(format!("instruction {name:?} {data:?}")),
            _ => o.line(format!("unexpected {e:?}")),
        }
    }
    Ok(o.out)
}

//a C19
fn c19_gen(s: &mut Src) -> Case {
    let ns = s.chance(1, 2);
    let indent = s.chance(1, 3);
    let version = *s.pick(&[100usize, 110, 100, 110, 99, 0, 101, 1000]);
    let d = gen::doc(s, &Cfg::new(s.size * 2 / 3).xml().ns(ns));
    let text = gen::write(s, &d);
    let b = gen::walk(&d, ns, version).0;
    Case::new()
        .with("text", text)
        .with("ns", flag(ns))
        .with("indent", flag(indent))
        .with("version", version.to_string())
        .with("expect", xml_expected(&b, ns, indent))
}

fn c19_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let indent = c.get("indent") == "1";
    let ns = c.get("ns") == "1";
    let mut n = Namespace::new(ns);
    let mut stack = NamespaceStack::new(&mut n);
    let mut bytes = Vec::new();
    {
        let mut w = xml::writer::EmitterConfig::new().perform_indent(indent).autopad_comments(indent).create_writer(&mut bytes);
        let e = drive::each_event(c.get("text"), &mut stack, Some(c.num("version")), &mut |e, s| {
            if let Some(x) = e.as_xml_writer(s) {
                w.write(x).map_err(|e| format!("the XML cannot be written: {e}"))?;
            }
            Ok(())
        })?;
        no_error(&e.as_ref().map(drive::error))?;
    }
    let want = c.get("expect");
    diff("XML", want, &xml_read(&bytes, indent)?)?;
    cov.label_if(ns, "namespaces");
    cov.label_if(indent, "indented");
    cov.label(if want.starts_with("version 1.0") { "XML 1.0" } else { "XML 1.1" });
    cov.label_if(want.contains("\ncomment"), "with comments");
    cov.label_if(want.contains("\ntext"), "with text");
    let special = want.contains(['&', '<', '>']);
    cov.label_if(special, "with characters to escape");
    Ok(want.matches("\nelement").count() >= 3 && special)
}

//a C20
fn c20_gen(s: &mut Src) -> Case {
    let ns = s.chance(1, 2);
    if s.chance(1, 3) {
        let d = gen::doc(s, &Cfg::new(s.size / 2).ns(ns));
        let text = gen::write(s, &d);
        return Case::new().with("text", text).with("ns", flag(ns)).with("version", s.pick(&[100usize, 110, 0, 7]).to_string());
    }
    made_case(s)
}

/// A case of one event to be made
pub fn made_case(s: &mut Src) -> Case {
    let mut c = Case::new();
    let kind = *s.pick(&["start document", "end document", "start element", "end element", "content", "instruction", "comment"]);
    c.set("event", kind);
    let any = |s: &mut Src| gen::any_string(s, 10);
    match kind {
        "start document" => {
            let v = match s.below(3) {
                0 => *s.pick(&[100usize, 110, 99, 101, 0, usize::MAX]),
                _ => s.below(300),
            };
            c.set("version", v.to_string())
        }
        "start element" | "end element" => {
            c.set("prefix", *s.pick(&["", "p", "q", "xml"]));
            c.set("name", any(s) + "n");
            if kind == "start element" {
                let n = s.count(5);
                for i in 0..n {
                    c.set(&format!("attr-prefix{i}"), *s.pick(&["", "p", "q", "xmlns"]));
                    c.set(&format!("attr-name{i}"), if s.chance(1, 4) { "xmlns".to_string() } else { "n".to_string() + &any(s) });
                    c.set(&format!("attr-value{i}"), any(s));
                }
                c.set("attrs", n.to_string());
            }
        }
        "content" => {
            c.set("type", *s.pick(&["raw", "int", "ws"]));
            c.set("data", any(s));
        }
        "comment" => {
            let l = gen::comment(s, false);
            c.set("data", l.join("\n"));
            c.set("lengths", l.iter().map(|x| x.len().to_string()).collect::<Vec<_>>().join(" "));
        }
        "instruction" => {
            c.set("name", any(s) + "n");
            if s.chance(2, 3) {
                c.set("data", any(s));
            }
        }
        _ => {}
    }
    c
}

/// An event made through the constructors, from a case
pub fn make_event<P: hml_rs::Posn>(c: &Case, s: &mut NamespaceStack, span: hml_rs::Span<P>) -> Result<Event<P>, String> {
    let bad = |e: hml_rs::MarkupError| format!("cannot make the event: {e}");
    Ok(match c.get("event") {
        "start document" => Event::start_document(span, c.num("version")),
        "end document" => Event::end_document(span),
        "start element" => {
            let mut a = Attributes::default();
            for i in 0..c.num("attrs") {
                let f = |k: &str| c.get(&format!("attr-{k}{i}")).to_string();
                a.add(s, &f("prefix"), &f("name"), f("value")).map_err(bad)?;
            }
            Event::start_element(span, Tag::new(s, c.get("prefix"), c.get("name"), a).map_err(bad)?)
        }
        "end element" => Event::end_element(span, Name::new(s, c.get("prefix"), c.get("name")).map_err(bad)?),
        "content" => {
            let d = c.get("data").to_string();
            match (c.get("type"), c.num("plain")) {
                ("raw", 0) => Event::content_raw(span, d),
                ("int", 0) => Event::content_int(span, d),
                ("ws", 0) => Event::content_ws(span, d),
                ("raw", _) => Event::content(span, ContentType::Raw, d),
                ("int", _) => Event::content(span, ContentType::Interpretable, d),
                _ => Event::content(span, ContentType::Whitespace, d),
            }
        }
        "comment" => {
            let l = c.get("lengths").split_whitespace().filter_map(|x| x.parse().ok()).collect();
            Event::comment(span, c.get("data").to_string(), l)
        }
        "instruction" => {
            let name = s.add_name(c.get("name"));
            Event::ProcessingInstruction { span, name, data: c.opt("data").map(|x| x.to_string()) }
        }
        _ => return Err("bad case".into()),
    })
}

/// What the event of a case should be
pub fn made_body(c: &Case, uri: &dyn Fn(&str) -> String) -> Body {
    let q = |p: &str, n: &str| QName { prefix: p.into(), uri: uri(p), name: n.into() };
    match c.get("event") {
        "start document" => Body::StartDoc(c.num("version")),
        "end document" => Body::EndDoc,
        "start element" => Body::Start {
            name: q(c.get("prefix"), c.get("name")),
            attrs: (0..c.num("attrs"))
                .map(|i| {
                    let f = |k: &str| c.get(&format!("attr-{k}{i}")).to_string();
                    (q(&f("prefix"), &f("name")), f("value"))
                })
                .collect(),
        },
        "end element" => Body::End(q(c.get("prefix"), c.get("name"))),
        "content" => Body::Content {
            ctype: match c.get("type") {
                "raw" => "Raw",
                "int" => "Interpretable",
                _ => "Whitespace",
            },
            data: c.get("data").into(),
        },
        "comment" => Body::Comment {
            data: c.get("data").into(),
            lengths: c.get("lengths").split_whitespace().filter_map(|x| x.parse().ok()).collect(),
        },
        _ => Body::Pi { name: c.get("name").into(), data: c.opt("data").map(|x| x.into()) },
    }
}

fn ver(v: usize) -> XmlVersion {
    if v == 100 {
        XmlVersion::Version10
    } else {
        XmlVersion::Version11
    }
}

fn same_name(q: &QName, prefix: Option<&str>, local: &str) -> bool {
    q.prefix == prefix.unwrap_or("") && q.name == local
}

/// The XML events against what the event should be
fn both_xml<P: hml_rs::Posn>(e: &Event<P>, s: &NamespaceStack, b: &Body) -> Result<(), String> {
    for fill in [false, true] {
        let x = e.as_xml_reader(s, fill).ok_or_else(|| format!("{b:?} has no reader event"))?;
        let ok = match (&x, b) {
            (In::StartDocument { version, .. }, Body::StartDoc(v)) => *version == ver(*v),
            (In::EndDocument, Body::EndDoc) => true,
            (In::StartElement { name, attributes, .. }, Body::Start { name: q, attrs }) => {
                same_name(q, name.prefix.as_deref(), &name.local_name)
                    && attributes.len() == attrs.len()
                    && attributes
                        .iter()
                        .zip(attrs)
                        .all(|(a, (q, v))| same_name(q, a.name.prefix.as_deref(), &a.name.local_name) && a.value == *v)
            }
            (In::EndElement { name }, Body::End(q)) => same_name(q, name.prefix.as_deref(), &name.local_name),
            (In::Characters(t) | In::CData(t) | In::Whitespace(t), Body::Content { data, .. }) => t == data,
            (In::Comment(t), Body::Comment { data, .. }) => t == data,
            (In::ProcessingInstruction { name, data }, Body::Pi { name: n, data: d }) => name == n && data == d,
            _ => false,
        };
        if !ok {
            return Err(format!("{b:?} has the reader event {x:?}"));
        }
    }
    let x = e.as_xml_writer(s);
    let ok = match (&x, b) {
        (None, Body::EndDoc) => true,
        (Some(Out::StartDocument { version, .. }), Body::StartDoc(v)) => *version == ver(*v),
        (Some(Out::StartElement { name, attributes, .. }), Body::Start { name: q, attrs }) => {
            same_name(q, name.prefix, name.local_name)
                && attributes.len() == attrs.len()
                && attributes
                    .iter()
                    .zip(attrs)
                    .all(|(a, (q, v))| same_name(q, a.name.prefix, a.name.local_name) && a.value == v)
        }
        (Some(Out::EndElement { name }), Body::End(q)) => name.map_or(true, |n| same_name(q, n.prefix, n.local_name)),
        (Some(Out::Characters(t) | Out::CData(t)), Body::Content { data, .. }) => t == data,
        (Some(Out::Comment(t)), Body::Comment { data, .. }) => t == data,
        (Some(Out::ProcessingInstruction { name, data }), Body::Pi { name: n, data: d }) => name == n && *data == d.as_deref(),
        _ => false,
    };
    if !ok {
        return Err(format!("{b:?} has the writer event {x:?}"));
    }
    Ok(())
}

fn c20_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let ns = c.get("ns") == "1";
    if c.opt("text").is_some() {
        let want = refmodel::read(c.get("text"), ns, c.num("version"));
        let mut n = Namespace::new(ns);
        let mut stack = NamespaceStack::new(&mut n);
        let mut i = 0;
        let mut with_attrs = false;
        drive::each_event(c.get("text"), &mut stack, Some(c.num("version")), &mut |e, s| {
            let b = want.events.get(i).ok_or("more events than expected")?;
            i += 1;
            if let Body::Start { attrs, .. } = &b.body {
                with_attrs |= !attrs.is_empty();
            }
            both_xml(&e, s, &b.body)
        })?;
        cov.label("documents");
        return Ok(with_attrs);
    }
    // without namespaces an attribute named xmlns is an ordinary one
    let mut n = Namespace::new(false);
    let mut s = NamespaceStack::new(&mut n);
    for (p, u) in [("p", "u"), ("q", "v"), ("xml", refmodel::XML_URI), ("xmlns", refmodel::XMLNS_URI)] {
        s.add_ns(p, u);
    }
    let e: Event<usize> = make_event(c, &mut s, hml_rs::Span::new_at(&0))?;
    both_xml(&e, &s, &made_body(c, &|_| String::new()))?;
    // the name as XML has it
    if let Event::EndElement { name, .. } = &e {
        let x = name.as_xml_name(&s);
        if x.prefix.unwrap_or("") != c.get("prefix") || x.local_name != c.get("name") {
            return Err(format!("the XML name is {x:?}"));
        }
    }
    cov.label(c.get("event"));
    Ok(c.num("attrs") > 0 || (c.get("event") == "instruction" && c.opt("data").is_some()))
}

//a C21
fn c21_gen(s: &mut Src) -> Case {
    let mut c = Case::new();
    c.set("from", *s.pick(&["file", "stdin"]));
    c.set("to", *s.pick(&["stdout", "file", "existing file"]));
    let v = *s.pick(&["", "1.0", "1.1", "1", "1.10", "1.00"]);
    c.set("version", v);
    if s.chance(1, 2) {
        c.set("long", "1");
    }
    if s.chance(1, 2) {
        c.set("file first", "1");
    }
    c.set("names", *s.pick(&["absolute", "relative", "odd"]));
    if s.chance(2, 3) {
        let mut d = gen::doc(s, &Cfg::new(s.size * 2 / 3).xml());
        if s.chance(1, 60) {
            // more than is read at once
            let n = 1000 + s.below(20_000);
            for i in 0..n {
                let kids = vec![gen::Kid::Text { raw: i % 2 == 0, data: format!("{i}") }];
                d.root.kids.push(gen::Kid::El(gen::Node { prefix: "".into(), name: "b".into(), attrs: vec![], kids }));
            }
        }
        let text = gen::write(s, &d);
        let version = if v.starts_with("1.1") { 110 } else { 100 };
        c.set("text", text);
        c.set("expect", xml_expected(&gen::walk(&d, false, version).0, false, true));
    } else {
        // a text that is refused
        let mut t = gen::text(s).0;
        for _ in 0..20 {
            if refmodel::read(&t, false, 100).err.is_some() {
                break;
            }
            let x: String = t.chars().take(t.chars().count() / 2).collect();
            t = x + s.pick(&["#", "\"", "=", "#a}", "?", "\n\n  }"]);
        }
        c.set("text", t);
    }
    c
}

/// The folder of this thread
fn folder() -> std::path::PathBuf {
    thread_local! {
        static DIR: std::path::PathBuf = crate::sys::sub_scratch();
    }
    DIR.with(|d| d.clone())
}

fn c21_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let program = crate::sys::needed("HMLVERIF_CLI");
    let dir = folder();
    let text = c.get("text");
    let odd = c.opt("names") == Some("odd");
    let (in_name, out_name) = if odd { ("é in=.xml", "x y's.hml") } else { ("in.hml", "out.xml") };
    for old in std::fs::read_dir(&dir).unwrap() {
        let _ = std::fs::remove_file(old.unwrap().path());
    }
    let (input, output) = (dir.join(in_name), dir.join(out_name));
    std::fs::write(&input, text).unwrap();
    let mut cmd = std::process::Command::new(&program);
    cmd.current_dir(&dir).env_clear().stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    let long = c.get("long") == "1";
    let relative = c.opt("names") == Some("relative");
    let path = |full: &std::path::Path, name: &str| if relative { name.into() } else { full.to_path_buf() };
    let file_first = c.opt("file first").is_some();
    if file_first && c.get("from") == "file" {
        cmd.arg(path(&input, in_name));
    }
    if !c.get("version").is_empty() {
        if long {
            cmd.arg(format!("--xml_version={}", c.get("version")));
        } else {
            cmd.arg("-x").arg(c.get("version"));
        }
    }
    let to_file = c.get("to") != "stdout";
    if c.get("to") == "existing file" {
        std::fs::write(&output, "<old/>".repeat(text.len() + 100)).unwrap();
    }
    if to_file {
        let o = path(&output, out_name);
        if long {
            let mut a = std::ffi::OsString::from("--output=");
            a.push(o);
            cmd.arg(a);
        } else {
            cmd.arg("--output").arg(o);
        }
    }
    if c.get("from") == "file" {
        if !file_first {
            cmd.arg(path(&input, in_name));
        }
        cmd.stdin(std::process::Stdio::null());
    } else {
        cmd.stdin(std::process::Stdio::piped());
    }
    let mut child = cmd.spawn().unwrap_or_else(|e| crate::sys::give_up(&format!("{program}: {e}")));
    let pid = child.id();
    let watch = crate::sys::Watch::new(pid, 60);
    if let Some(mut i) = child.stdin.take() {
        let t = text.as_bytes().to_vec();
        std::thread::spawn(move || {
            let _ = i.write_all(&t);
        });
    }
    let r = child.wait_with_output().unwrap_or_else(|e| crate::sys::give_up(&e.to_string()));
    watch.stop();
    let err = String::from_utf8_lossy(&r.stderr).to_string();
    if std::fs::read(&input).unwrap() != text.as_bytes() {
        return Err("the input was changed".into());
    }
    let mut names: Vec<String> =
        std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
    names.retain(|n| n != in_name && !(to_file && n == out_name));
    if !names.is_empty() {
        return Err(format!("files written: {names:?}"));
    }
    let want = refmodel::read(text, false, 100);
    cov.label(c.get("from"));
    cov.label(match c.get("to") {
        "file" => "to a new file",
        "stdout" => "to stdout",
        _ => "to an existing file",
    });
    if let Some(e) = &want.err {
        cov.label("refused");
        // 101 is what a panic exits with
        if matches!(r.status.code(), None | Some(0 | 101)) {
            return Err(format!("expected a failure, but {:?}, {err:?}", r.status));
        }
        let p = e.span.expect("parse errors have spans").0;
        let line = text.split('\n').nth(p.l - 1).unwrap_or("");
        let line = line.strip_suffix('\r').unwrap_or(line);
        if !err.contains(&p.l.to_string()) || !err.contains(line) {
            return Err(format!("the error is in line {}, {line:?}, but this is reported:\n{err}", p.l));
        }
        let mut ns = Namespace::new(false);
        let mut stack = NamespaceStack::new(&mut ns);
        if let Ok(Some(e)) = drive::each_event(text, &mut stack, None, &mut |_, _| Ok(())) {
            if !err.contains(&e.to_string()) {
                return Err(format!("the error is {:?}, but this is reported:\n{err}", e.to_string()));
            }
        }
        return Ok(p.l > 1);
    }
    let Some(expect) = c.opt("expect") else {
        cov.label("other text that is valid");
        if r.status.code() != Some(0) {
            return Err(format!("a valid text fails: {:?}, {err:?}", r.status));
        }
        return Ok(false);
    };
    cov.label("converted");
    if r.status.code() != Some(0) {
        return Err(format!("expected success, but {:?}, {err:?}", r.status));
    }
    let xml = if to_file {
        if !r.stdout.is_empty() {
            return Err("written to standard output, though a file was asked for".into());
        }
        std::fs::read(&output).map_err(|e| format!("no output file: {e}"))?
    } else {
        r.stdout
    };
    diff("XML", expect, &xml_read(&xml, true)?)?;
    Ok(expect.matches("\nelement").count() >= 2)
}

//a C32
const BAD_INPUT: [&str; 4] = ["missing file", "folder", "not UTF-8 in a file", "not UTF-8 on stdin"];
const BAD_ARGS: [&str; 9] =
    ["--nope", "-z", "--xml_version=abc", "--xml_version=", "--xml_version=1.0.0", "-x 1,0", "-x", "--output", "one two"];
const BAD_OUTPUT: [&str; 7] = [
    "missing folder",
    "output is a folder",
    "full device as a file",
    "full device as stdout",
    "closed by its reader",
    "limited file",
    "limited stdout",
];
/// Bytes that do not belong in UTF-8 text
const BAD_BYTES: [&[u8]; 9] = [
    b"\xff",
    b"\xfe",
    b"\x80",
    b"\xc3",
    b"\xc0\x80",
    b"\xed\xa0\x80",
    b"\xf0\x9f\x98",
    b"\xf4\x90\x80\x80",
    b"\xe4\xb8",
];

fn c32_gen(s: &mut Src) -> Case {
    let mut c = Case::new();
    match s.weighted(&[4, 2, 4]) {
        0 => {
            c.set("input", *s.pick(&BAD_INPUT));
            c.set("bytes", s.below(BAD_BYTES.len()).to_string());
            c.set("at", s.below(1000).to_string());
        }
        1 => c.set("arguments", *s.pick(&BAD_ARGS)),
        _ => {
            c.set("output", *s.pick(&BAD_OUTPUT));
            c.set("at", s.below(1000).to_string());
        }
    }
    if s.chance(1, 2) {
        c.set("existing", "1");
    }
    let d = gen::doc(s, &Cfg::new(s.size / 3).xml());
    let mut t = gen::write(s, &d);
    if s.chance(1, 5) {
        t = gen::text(s).0;
    }
    c.with("text", t)
}

fn c32_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    use std::process::Stdio;
    let program = crate::sys::needed("HMLVERIF_CLI");
    let dir = folder();
    for old in std::fs::read_dir(&dir).unwrap() {
        let old = old.unwrap().path();
        let _ = std::fs::remove_file(&old).or_else(|_| std::fs::remove_dir(&old));
    }
    let text = c.get("text");
    let (input, output) = (dir.join("in.hml"), dir.join("out.xml"));
    let mut bytes = text.as_bytes().to_vec();
    let bad_input = c.opt("input").unwrap_or("");
    let bad_output = c.opt("output").unwrap_or("");
    if bad_input.starts_with("not UTF-8") {
        let at: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
        let at = at[c.num("at") % at.len()];
        let bad = BAD_BYTES[c.num("bytes") % BAD_BYTES.len()];
        bytes.splice(at..at, bad.iter().copied());
    }
    let valid = refmodel::read(text, false, 100).err.is_none();
    if !bad_output.is_empty() && !valid {
        // the text is refused in any case
        cov.label("also the text is refused");
    }
    let old = "an old file";
    let mut cmd = std::process::Command::new(&program);
    cmd.current_dir(&dir).env_clear().stderr(Stdio::piped()).stdin(Stdio::piped()).stdout(Stdio::piped());
    let mut from_stdin = false;
    match bad_input {
        "missing file" => {
            cmd.arg(&input);
        }
        "folder" => {
            std::fs::create_dir(&input).unwrap();
            cmd.arg(&input);
        }
        "not UTF-8 on stdin" => from_stdin = true,
        _ if bad_output == "closed by its reader" => from_stdin = true,
        _ => {
            std::fs::write(&input, &bytes).unwrap();
            if c.get("arguments") != "one two" {
                cmd.arg(&input);
            }
        }
    }
    let mut watched = c.opt("existing").is_some();
    if watched {
        std::fs::write(&output, old).unwrap();
    }
    match bad_output {
        "" => {
            if watched {
                cmd.arg("--output").arg(&output);
            }
        }
        "missing folder" => {
            cmd.arg("--output").arg(dir.join("none").join("out.xml"));
        }
        "output is a folder" => {
            watched = false;
            let _ = std::fs::remove_file(&output);
            std::fs::create_dir(&output).unwrap();
            cmd.arg("--output").arg(&output);
        }
        "full device as a file" => {
            // through a link, so that nothing outside of the folder can be replaced
            let link = dir.join("full");
            std::os::unix::fs::symlink("/dev/full", &link).unwrap();
            cmd.arg("--output").arg(link);
        }
        "full device as stdout" => {
            let f = std::fs::OpenOptions::new().write(true).open("/dev/full");
            cmd.stdout(f.unwrap_or_else(|e| crate::sys::give_up(&format!("/dev/full: {e}"))));
        }
        "limited file" | "limited stdout" => {
            // of what would be written without a limit, only a part fits
            let whole = std::process::Command::new(&program).arg(&input).env_clear().current_dir(&dir).output();
            let whole = whole.unwrap_or_else(|e| crate::sys::give_up(&format!("{program}: {e}"))).stdout.len();
            crate::sys::limit_files(&mut cmd, (c.num("at") % whole.max(1)) as u64);
            if bad_output == "limited file" {
                watched = true;
                cmd.arg("--output").arg(&output);
            } else {
                let f = std::fs::File::create(dir.join("full"));
                cmd.stdout(f.unwrap_or_else(|e| crate::sys::give_up(&e.to_string())));
            }
        }
        _ => {
            // a socket, as shutting it down holds for all copies of it that other threads' children may have
            let (ours, theirs) = std::os::unix::net::UnixStream::pair().unwrap_or_else(|e| crate::sys::give_up(&e.to_string()));
            ours.shutdown(std::net::Shutdown::Both).unwrap_or_else(|e| crate::sys::give_up(&e.to_string()));
            cmd.stdout(std::os::fd::OwnedFd::from(theirs));
        }
    }
    match c.opt("arguments").unwrap_or("") {
        "" => {}
        "one two" => {
            cmd.arg(&input).arg(&input);
        }
        x => {
            cmd.args(x.split(' '));
        }
    }
    let mut child = cmd.spawn().unwrap_or_else(|e| crate::sys::give_up(&format!("{program}: {e}")));
    let watch = crate::sys::Watch::new(child.id(), 60);
    let mut stdin = child.stdin.take().unwrap();
    let b = if from_stdin { bytes.clone() } else { Vec::new() };
    std::thread::spawn(move || {
        let _ = stdin.write_all(&b);
    });
    let r = child.wait_with_output().unwrap_or_else(|e| crate::sys::give_up(&e.to_string()));
    watch.stop();
    let err = String::from_utf8_lossy(&r.stderr).to_string();
    cov.label(if !bad_input.is_empty() {
        bad_input
    } else if !bad_output.is_empty() {
        bad_output
    } else {
        c.get("arguments")
    });
    // 101 is what a panic exits with
    if matches!(r.status.code(), None | Some(0 | 101)) {
        return Err(format!("expected a failure, but {:?}, {err:?}", r.status));
    }
    if err.trim().is_empty() {
        return Err("failed without a message".into());
    }
    if bad_output.is_empty() {
        if !r.stdout.is_empty() {
            return Err(format!("wrote {:?}", String::from_utf8_lossy(&r.stdout)));
        }
        if watched && std::fs::read_to_string(&output).ok().as_deref() != Some(old) {
            return Err("the output file was touched".into());
        }
    }
    if input.is_file() && std::fs::read(&input).unwrap() != bytes {
        return Err("the input was changed".into());
    }
    let mut names: Vec<String> =
        std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
    names.retain(|n| !["in.hml", "full"].contains(&n.as_str()) && !(n == "out.xml" && (watched || bad_output == "output is a folder")));
    if !names.is_empty() {
        return Err(format!("files written: {names:?}"));
    }
    Ok(valid)
}
