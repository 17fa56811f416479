//! Properties of reading texts.
use super::{diff, dump, flag, no_error};
use crate::drive::{self, Opts, Run};
use crate::engine::*;
use crate::gen::{self, Attr, Cfg, Doc, Kid, Node, Writer};
use crate::refmodel::{self, Body, Er, Ev, Tok, Trace};
use hml_rs::names::{Namespace, NamespaceStack};

pub static CHECKS: &[CheckDef] = &[
    CheckDef {
        id: "C01",
        rule: "random element trees (attributes, strings, comments, namespaces) written out in a random layout; non-trivial: at least 3 elements and both nesting and siblings",
        quick: 1_080_000,
        thorough: 5_400_000,
        gen: c01_gen,
        run: c01_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C02",
        rule: "a random tree written in two layouts with independent choices of boxed elements; non-trivial: the number of boxed elements differs and there are at least 3 elements",
        quick: 600_000,
        thorough: 3_000_000,
        gen: c02_gen,
        run: c02_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C03",
        rule: "documents, mutated documents, token sequences and character strings, with requests after the first error or the end; non-trivial: an element was started or an error reported after at least one event other than the start of the document",
        quick: 3_200_000,
        thorough: 16_000_000,
        gen: c03_gen,
        run: c03_run,
        enumerate: Some(c03_enumerate),
        text_only: true,
        assumptions: &[],
    },
    CheckDef {
        id: "C04",
        rule: "as C03, every prefix of generated documents, and scaled texts (nesting to 30000, tokens of 1 MB); non-trivial: at least 2 tokens were read",
        quick: 800_000,
        thorough: 4_000_000,
        gen: c04_gen,
        run: c04_run,
        enumerate: Some(c04_enumerate),
        text_only: true,
        assumptions: &["a case that takes more than 60 s of CPU time, twice, does not terminate"],
    },
    CheckDef {
        id: "C05",
        rule: "all strings over the 12 significant characters to length 5 (thorough: 6), alone and inside an element; documents, mutated documents, token sequences and character strings; non-trivial: the reference reader delivers an element, or an error other than at the first token",
        quick: 2_000_000,
        thorough: 10_000_000,
        gen: text_gen,
        run: c05_run,
        enumerate: Some(c05_enumerate),
        text_only: true,
        assumptions: &["no prefix is declared twice in one tag"],
    },
    CheckDef {
        id: "C06",
        rule: "sequences of strings whose contents have quotes, hashes, newlines and escapes, in random hash counts and quotes, some wrong on purpose; non-trivial: at least one string is delivered that contains a quote, a hash, a newline or a multi-byte character",
        quick: 4_800_000,
        thorough: 24_000_000,
        gen: c06_gen,
        run: c06_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C07",
        rule: "elements with 0 to 40 (sometimes 400) attributes in all styles of quoting; non-trivial: at least 2 attributes",
        quick: 720_000,
        thorough: 3_600_000,
        gen: c07_gen,
        run: c01_run_attrs,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C08",
        rule: "a document without comments, and the same text with comments inserted at permitted places; non-trivial: at least 2 comments inserted",
        quick: 720_000,
        thorough: 3_600_000,
        gen: c08_gen,
        run: c08_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C09",
        rule: "trees with declarations of default and prefixed namespaces at random elements in random attribute order, some prefixes undeclared; non-trivial: a prefix is declared and used",
        quick: 960_000,
        thorough: 4_800_000,
        gen: c09_gen,
        run: c09_run,
        enumerate: None,
        text_only: false,
        assumptions: &["no prefix is declared twice in one tag"],
    },
    CheckDef {
        id: "C13",
        rule: "all Unicode scalar values as first, middle and last character of element, attribute and prefix names (exhaustive), and random names; non-trivial: the character is allowed somewhere in a name, or is next to one that is",
        quick: 80_000,
        thorough: 1_000_000,
        gen: c13_gen,
        run: c13_run,
        enumerate: Some(c13_enumerate),
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C14",
        rule: "as C05; non-trivial: at least 3 events, or an error beyond the first line",
        quick: 3_000_000,
        thorough: 15_000_000,
        gen: text_gen,
        run: c14_run,
        enumerate: Some(c14_enumerate),
        text_only: true,
        assumptions: &["no prefix is declared twice in one tag"],
    },
    CheckDef {
        id: "C15",
        rule: "as C05, each read with 3 position types through 3 lexers; non-trivial: at least 3 events or an error after the first token",
        quick: 960_000,
        thorough: 4_800_000,
        gen: text_gen,
        run: c15_run,
        enumerate: None,
        text_only: true,
        assumptions: &[],
    },
    CheckDef {
        id: "C22",
        rule: "lists of 2 to 5 texts, valid and not, read one after another with one namespace stack, and interleaved by a random schedule; non-trivial: at least two of them have elements",
        quick: 240_000,
        thorough: 1_200_000,
        gen: c22_gen,
        run: c22_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C26",
        rule: "documents and other texts; non-trivial: at least 4 events before the end",
        quick: 2_000_000,
        thorough: 10_000_000,
        gen: c26_gen,
        run: c26_run,
        enumerate: None,
        text_only: true,
        assumptions: &["looking at one character beyond a token and the whitespace after it, to find its end, is permitted"],
    },
    CheckDef {
        id: "C27",
        rule: "documents and other texts, with up to 6 failures of the token source at random token requests; non-trivial: at least one failure before the end of the text, and 4 events",
        quick: 1_280_000,
        thorough: 6_400_000,
        gen: c27_gen,
        run: c27_run,
        enumerate: Some(c27_enumerate),
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C33",
        rule: "the texts of C05, split into tokens without a reader; non-trivial: at least 3 tokens that are not whitespace",
        quick: 1_500_000,
        thorough: 7_500_000,
        gen: text_gen,
        run: c33_run,
        enumerate: Some(c05_enumerate),
        text_only: true,
        assumptions: &[],
    },
];

//a Common
fn opts(c: &Case) -> Opts {
    Opts { xmlns: c.get("ns") == "1", version: c.opt("version").and_then(|v| v.parse().ok()), more: c.num("more") }
}

fn label_text(cov: &mut Cov, c: &Case) {
    if let Some(k) = c.opt("kind") {
        cov.label(k);
    }
}

fn text_gen(s: &mut Src) -> Case {
    let (t, kind) = gen::text(s);
    let ns = s.chance(1, 2);
    Case::new().with("text", t).with("ns", flag(ns)).with("kind", kind)
}

fn tree_labels(cov: &mut Cov, d: &str) {
    cov.label_if(d.contains("Comment"), "with comments");
    cov.label_if(d.contains("Content"), "with content");
}

//a C01
fn c01_gen(s: &mut Src) -> Case {
    let ns = s.chance(1, 3);
    let d = gen::doc(s, &Cfg::new(s.size).ns(ns));
    let (text, boxes, plains) = Writer::new(s).doc(&d);
    let xmlns = ns || s.chance(1, 2) && !has_xmlns(&d.root);
    Case::new()
        .with("text", text)
        .with("ns", flag(xmlns))
        .with("expect", dump(&gen::walk(&d, xmlns, 100).0))
        .with("boxes", boxes.to_string())
        .with("plains", plains.to_string())
        .with("depth", gen::node_depth(&d.root).to_string())
}

/// An attribute that is a declaration if namespaces are in use
fn has_xmlns(n: &Node) -> bool {
    n.attrs.iter().any(|a| a.name == "xmlns") || n.kids.iter().any(|k| matches!(k, Kid::El(e) if has_xmlns(e)))
}

fn c01_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let r = drive::read(c.get("text"), opts(c));
    diff("events", c.get("expect"), &dump(r.bodies()))?;
    no_error(&r.err)?;
    let n = c.num("boxes") + c.num("plains");
    cov.label_if(c.num("boxes") > 0, "with boxed elements");
    cov.label_if(c.num("plains") > 0, "with plain elements");
    cov.label_if(c.num("depth") > 4, "depth over 4");
    cov.label_if(c.get("ns") == "1", "namespaces");
    tree_labels(cov, c.get("expect"));
    Ok(n >= 3 && c.num("depth") < n && c.num("depth") > 1)
}

//a C02
fn c02_gen(s: &mut Src) -> Case {
    let ns = s.chance(1, 3);
    let d = gen::doc(s, &Cfg::new(s.size).ns(ns));
    let mut w = Writer::new(s);
    w.boxed = 3;
    let (text, b1, plains) = w.doc(&d);
    let (text2, b2, _) = Writer::new(s).doc(&d);
    Case::new()
        .with("text", text)
        .with("text2", text2)
        .with("ns", flag(ns))
        .with("expect", dump(&gen::walk(&d, ns, 100).0))
        .with("boxes", b1.to_string())
        .with("boxes2", b2.to_string())
        .with("plains", plains.to_string())
}

fn c02_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let a = drive::read(c.get("text"), opts(c));
    let b = drive::read(c.get("text2"), opts(c));
    no_error(&a.err)?;
    no_error(&b.err)?;
    diff("the other layout", &dump(a.bodies()), &dump(b.bodies()))?;
    diff("events", c.get("expect"), &dump(a.bodies()))?;
    cov.label_if(c.num("boxes") == 0 || c.num("boxes2") == 0, "one layout has no boxes");
    tree_labels(cov, c.get("expect"));
    Ok(c.num("boxes") != c.num("boxes2") && c.num("boxes") + c.num("plains") >= 3)
}

//a C03
fn c03_gen(s: &mut Src) -> Case {
    let mut c = text_gen(s);
    if s.chance(1, 2) {
        let v = *s.pick(&[100usize, 110, 0, 99, 101, 200, usize::MAX]);
        c.set("version", v.to_string());
    }
    let more = 1 + s.below(20);
    c.set("more", more.to_string());
    c
}

fn c03_enumerate(tier: Tier, shard: usize, n: usize, f: CaseFn) {
    let max = if tier == Tier::Quick { 4 } else { 5 };
    gen::enumerate_significant(max, shard, n, &["", "#a ", "#a{ "], &mut |t| {
        f(Case::new().with("text", t).with("ns", "1").with("more", "6").with("kind", "enumerated"))
    });
}

fn c03_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let r = drive::read(c.get("text"), opts(c));
    label_text(cov, c);
    protocol(&r, c.opt("version").map(|v| v.parse().unwrap()).unwrap_or(100))?;
    cov.label(if r.err.is_some() { "refused" } else { "accepted" });
    cov.label_if(r.err.is_some() && r.after.iter().any(|x| x.is_ok()), "events after an error");
    Ok(r.events.len() > 1)
}

/// Up to the first error; after an error there is only no second start, and
/// nothing after the end
fn protocol(r: &Run, version: usize) -> Result<(), String> {
    let mut stack = Vec::new();
    let mut roots = 0;
    let mut ended = false;
    if r.events.is_empty() {
        return Err(format!("no start of the document, but {:?}", r.err));
    }
    for (i, e) in r.events.iter().enumerate() {
        let at = format!("event {i}");
        if ended {
            return Err(format!("{at}: {:?} after the end of the document", e.body));
        }
        match &e.body {
            Body::StartDoc(v) => {
                if i != 0 {
                    return Err(format!("{at}: a second start of the document"));
                }
                if *v != version {
                    return Err(format!("{at}: version {v} instead of {version}"));
                }
            }
            _ if i == 0 => return Err(format!("{:?} comes before the start of the document", e.body)),
            Body::EndDoc => {
                if !stack.is_empty() {
                    return Err(format!("{at}: end of the document with elements open: {stack:?}"));
                }
                ended = true;
            }
            Body::Start { name, .. } => {
                if stack.is_empty() {
                    roots += 1;
                    if roots > 1 {
                        return Err(format!("{at}: a second root element {name:?}"));
                    }
                }
                stack.push(name.clone());
            }
            Body::End(name) => match stack.pop() {
                None => return Err(format!("{at}: end of {name:?} with no element open")),
                Some(x) if x != *name => return Err(format!("{at}: end of {name:?} in {x:?}")),
                _ => {}
            },
            Body::Content { data, .. } => {
                if stack.is_empty() {
                    return Err(format!("{at}: content {data:?} outside of the root element"));
                }
            }
            Body::Comment { .. } | Body::Pi { .. } => {}
        }
    }
    if r.err.is_none() {
        if !ended {
            return Err("no error, but no end of the document".into());
        }
        if roots == 0 {
            return Err("a document without an element".into());
        }
    }
    for x in &r.after {
        match x {
            Ok(e) if ended => return Err(format!("{:?} after the end of the document", e.body)),
            Ok(Ev { body: Body::StartDoc(_), .. }) => return Err("a second start of the document after an error".into()),
            Ok(Ev { body: Body::EndDoc, .. }) => ended = true,
            _ => {}
        }
    }
    Ok(())
}

//a C04
fn c04_gen(s: &mut Src) -> Case {
    let mut c = text_gen(s);
    if s.chance(1, 30) {
        c.set("prefixes", "1");
    }
    c.set("more", s.below(12).to_string());
    c
}

const SCALED: &[&str] = &[
    "boxes", "open boxes", "plain", "wide", "string", "hash string", "comment", "comments", "attr", "unquoted", "attrs", "hashes", "name",
    "spaces", "quotes", "unterminated", "newlines", "wide chars", "close tags", "r", "strings", "colons", "quote hashes",
];

fn scaled(kind: &str, n: usize) -> String {
    let big = |c: &str| c.repeat(n);
    match kind {
        "boxes" => "#a{ ".repeat(n) + &"#a} ".repeat(n),
        "open boxes" => "#a{ ".repeat(n),
        "plain" => {
            let d = n.min(1500);
            (1..=d).map(|i| "#".repeat(i) + "a ").collect()
        }
        "wide" => "#a ".to_string() + &"##b ".repeat(n),
        "string" => format!("#a \"{}\"", big("x")),
        "hash string" => format!("#a ##\"{}\"##", big("\"#\n")),
        "comment" => format!(";{}", big(";")),
        "comments" => format!("{}#a", big("; é\n")),
        "attr" => format!("#a b='{}'", big("\"é")),
        "unquoted" => format!("#a b={}", big("'é")),
        "attrs" => format!("#a {}", "b=1 ".repeat(n)),
        "hashes" => big("#"),
        "name" => format!("#{}", big("é")),
        "spaces" => format!("#a{}#", big(" \u{2003}")),
        "quotes" => format!("#a {}", big("''")),
        "unterminated" => format!("#a #\"{}", big("\"x")),
        "newlines" => big("\n"),
        "wide chars" => format!("#a '{}'", big("😁")),
        "close tags" => format!("#a{{ {}", "#a} ".repeat(n)),
        "r" => format!("#a {}", big("r")),
        "strings" => format!("#a {}", big("r#'\n'#")),
        "colons" => format!("#a {}", big(":")),
        "quote hashes" => format!("#a ###\"{}", big("\"##")),
        _ => String::new(),
    }
}

fn c04_enumerate(tier: Tier, shard: usize, n: usize, f: CaseFn) {
    let mut cases = Vec::new();
    for k in SCALED {
        for size in [1usize, 2, 3, 10, 1000, 20_000] {
            cases.push((*k, size));
        }
        if tier == Tier::Thorough && *k != "boxes" && *k != "open boxes" {
            cases.push((*k, 500_000));
        }
    }
    cases.push(("boxes", 30_000));
    cases.push(("string", 1_000_000));
    for (i, (k, size)) in cases.into_iter().enumerate() {
        if i % n == shard && !f(Case::new().with("scaled", k).with("count", size.to_string()).with("more", "3")) {
            return;
        }
    }
}

fn c04_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let o = opts(c);
    if let Some(k) = c.opt("scaled") {
        let t = scaled(k, c.num("count"));
        // On a stack of the usual size of a thread's, or smaller
        let r = crate::sys::on_stack(1 << 20, || clean(&t, o))?;
        if k == "boxes" {
            no_error(&r.err)?;
        }
        cov.label("scaled");
        return Ok(r.events.len() > 1);
    }
    let t = c.get("text");
    label_text(cov, c);
    if c.get("prefixes") == "1" {
        cov.label("every prefix of a text");
        // Of a long text only some, as all of them would be quadratic work
        let step = 1 + t.len() / 2000 * (t.len() / 2000);
        for (i, _) in t.char_indices().filter(|(i, _)| *i % step == 0 || *i < 200) {
            clean(&t[..i], o).map_err(|e| format!("the first {i} bytes: {e}"))?;
        }
    }
    let r = clean(t, o)?;
    Ok(r.events.len() > 2)
}

/// Panics are caught by the caller
fn clean(t: &str, o: Opts) -> Result<Run, String> {
    let a = drive::checked(t, o);
    let mut ns = Namespace::new(o.xmlns);
    let mut ns_stack = NamespaceStack::new(&mut ns);
    let b = drive::read_string::<drive::Lc>(t, o, &mut ns_stack);
    if a.events.len() != b.events.len() || a.err.is_some() != b.err.is_some() {
        return Err(format!("{} events from one lexer, {} from another", a.events.len(), b.events.len()));
    }
    Ok(b)
}

//a C05
fn c05_enumerate(tier: Tier, shard: usize, n: usize, f: CaseFn) {
    let max = if tier == Tier::Quick { 5 } else { 6 };
    let mut k = 0u32;
    gen::enumerate_significant(max, shard, n, &["", "#a "], &mut |t| {
        k += 1;
        f(Case::new().with("text", t).with("ns", flag(k % 2 == 0)).with("kind", "enumerated"))
    });
}

fn same_error(want: &Option<Er>, got: &Option<Er>) -> Result<(), String> {
    let short = |e: &Option<Er>| e.as_ref().map(|e| (e.kind, e.detail.clone(), e.span.map(|s| s.0)));
    if short(want) == short(got) {
        Ok(())
    } else {
        Err(format!("error: expected {:?}\n  but got {:?}", short(want), short(got)))
    }
}

fn reference(c: &Case) -> Trace {
    refmodel::read(c.get("text"), c.get("ns") == "1", 100)
}

fn interesting(t: &Trace) -> bool {
    t.events.len() > 1
}

fn c05_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let want = reference(c);
    if want.dup_decl {
        cov.label("excluded: prefix declared twice");
        drive::checked(c.get("text"), opts(c));
        return Ok(false);
    }
    let r = drive::read(c.get("text"), opts(c));
    diff("events", &dump(want.bodies()), &dump(r.bodies()))?;
    same_error(&want.err, &r.err)?;
    label_text(cov, c);
    cov.label(want.err.as_ref().map_or("accepted", |e| e.kind));
    Ok(interesting(&want))
}

//a C06
fn c06_gen(s: &mut Src) -> Case {
    let c = Case::new().with("ns", flag(s.chance(1, 2)));
    if s.chance(3, 5) {
        let mut kids = Vec::new();
        let n = 1 + s.count(5);
        for _ in 0..n {
            kids.push(Kid::Text { raw: s.chance(1, 2), data: gen::content(s, false) });
            if s.chance(1, 6) {
                kids.push(Kid::Comment(gen::comment(s, false)));
            }
            if s.chance(1, 6) {
                let t = Kid::Text { raw: s.chance(1, 2), data: gen::content(s, false) };
                kids.push(Kid::El(Node { prefix: "".into(), name: "b".into(), attrs: vec![], kids: vec![t] }));
            }
        }
        let root = Node { prefix: "".into(), name: "a".into(), attrs: vec![], kids };
        let d = Doc { before: vec![], root, after: vec![] };
        let text = gen::write(s, &d);
        return c.with("text", text).with("expect", dump(&gen::walk(&d, true, 100).0)).with("kind", "strings of known contents");
    }
    // pieces of strings: whether they make strings is decided by the reference
    let mut t = String::from("#a ");
    let n = 1 + s.count(8);
    for _ in 0..n {
        match s.weighted(&[30, 20, 20, 10, 10, 10]) {
            0 => {
                let q = *s.pick(&["\"", "'"]);
                let k = s.tail(3, 20);
                let k2 = if s.chance(4, 5) { k } else { s.count(3) };
                if s.chance(1, 3) {
                    t.push('r');
                }
                t += &"#".repeat(k);
                t += q;
                t += &gen::content(s, false);
                t += q;
                t += &"#".repeat(k2);
            }
            1 => t += s.pick(&["\"", "'", "\"#", "'##", "#\"", "r\"", "r#'", "\\\""]),
            2 => t += &gen::content(s, false),
            3 => t += s.pick(&[" ", "\n"]),
            4 => t += s.pick(&["##b ", "r=1 ", ";c\n", "'x'", "r#\"y\n\"#", "#a"]),
            _ => t += &"#".repeat(s.below(4)),
        }
    }
    c.with("text", t).with("kind", "pieces of strings")
}

fn only_content(l: &[&Body]) -> String {
    dump(l.iter().copied().filter(|b| matches!(b, Body::Content { .. })))
}

fn c06_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let r = drive::read(c.get("text"), opts(c));
    match c.opt("expect") {
        Some(want) => {
            diff("events", want, &dump(r.bodies()))?;
            no_error(&r.err)?;
        }
        None => {
            let want = reference(c);
            diff("content", &only_content(&want.bodies()), &only_content(&r.bodies()))?;
            same_error(&want.err, &r.err)?;
        }
    }
    label_text(cov, c);
    let mut special = false;
    let mut count = 0;
    for b in r.bodies() {
        if let Body::Content { data, ctype } = b {
            count += 1;
            special |= data.contains(['"', '\'', '#', '\n']) || !data.is_ascii();
            cov.label_if(data.is_empty(), "empty string");
            cov.label_if(*ctype == "Raw", "raw string");
        }
    }
    cov.label_if(count > 1, "several strings");
    Ok(special)
}

//a C07
fn c07_gen(s: &mut Src) -> Case {
    let ns = s.chance(1, 3);
    let mut cfg = Cfg::new(s.size / 3).ns(ns);
    cfg.max_attrs = match s.weighted(&[60, 38, 2]) {
        0 => 6,
        1 => 40,
        _ => 400,
    };
    cfg.max_nodes = if cfg.max_attrs > 40 { 2 } else { 6 };
    cfg.comments = s.chance(1, 3);
    let d = gen::doc(s, &cfg);
    let text = gen::write(s, &d);
    let expect = gen::walk(&d, ns, 100).0;
    let n: usize = expect.iter().map(|b| if let Body::Start { attrs, .. } = b { attrs.len() } else { 0 }).sum();
    Case::new()
        .with("text", text)
        .with("ns", flag(ns))
        .with("expect", dump(&expect))
        .with("attrs", n.to_string())
}

fn c01_run_attrs(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let r = drive::read(c.get("text"), opts(c));
    diff("events", c.get("expect"), &dump(r.bodies()))?;
    no_error(&r.err)?;
    let n = c.num("attrs");
    cov.label(match n {
        0 => "no attributes",
        1..=5 => "1 to 5 attributes",
        6..=40 => "6 to 40 attributes",
        _ => "over 40 attributes",
    });
    Ok(n >= 2)
}

//a C08
fn c08_gen(s: &mut Src) -> Case {
    let ns = s.chance(1, 3);
    let mut cfg = Cfg::new(s.size * 2 / 3).ns(ns);
    cfg.comments = false;
    let d = gen::doc(s, &cfg);
    let base = gen::write(s, &d);
    // the places: before each token that is not an attribute, and at the end
    let t = refmodel::Text::new(&base);
    let mut places: Vec<(usize, bool)> = Vec::new(); // char index, whitespace needed first
    let mut i = 0;
    let mut glued = false;
    while let Ok(Some(k)) = refmodel::token(&t, i) {
        match k.tok {
            refmodel::Tok::Space => glued = false,
            refmodel::Tok::Attr { .. } => {
                // an unquoted value would take in the comment
                glued = !matches!(t.ch[k.e - 1], '"' | '\'');
            }
            refmodel::Tok::Open { .. } | refmodel::Tok::Close { .. } => {
                places.push((k.s, glued));
                glued = true;
            }
            _ => {
                places.push((k.s, glued));
                glued = false;
            }
        }
        // an unquoted value may end with a quote
        if let refmodel::Tok::Attr { value, .. } = &k.tok {
            if value.ends_with(['"', '\'']) {
                glued = true;
            }
        }
        i = k.e;
    }
    places.push((t.ch.len(), glued));
    let mut out = String::new();
    let mut comments: Vec<Body> = Vec::new();
    let mut at = 0;
    let density = 1 + s.below(8);
    for (j, glued) in places {
        out.extend(&t.ch[at..j]);
        at = j;
        if s.chance(density, 10) {
            let mut lines = gen::comment(s, false);
            if s.chance(1, 2000) {
                let n = *s.pick(&[130, 260, 1030]);
                lines = vec![lines[0].clone(); n];
            }
            if glued || s.chance(1, 3) {
                out.push(*s.pick(&[' ', '\n', '\t', '\u{2003}']));
            }
            for (k, l) in lines.iter().enumerate() {
                if k > 0 && s.chance(1, 2) {
                    out.push(*s.pick(&[' ', '\t', '\u{a0}', '\r']));
                }
                out.push(';');
                out += l;
                if j < t.ch.len() || k + 1 < lines.len() || s.chance(1, 2) {
                    out.push('\n');
                }
            }
            let lengths = lines.iter().map(|l| l.len()).collect();
            comments.push(Body::Comment { data: lines.join("\n"), lengths });
        }
    }
    Case::new()
        .with("base", base)
        .with("text", out)
        .with("ns", flag(ns))
        .with("comments", dump(&comments))
        .with("count", comments.len().to_string())
}

fn c08_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let a = drive::read(c.get("base"), opts(c));
    no_error(&a.err)?;
    let b = drive::read(c.get("text"), opts(c));
    no_error(&b.err)?;
    let is_comment = |b: &&&Body| matches!(b, Body::Comment { .. });
    let bodies = b.bodies();
    let with: Vec<&Body> = bodies.iter().filter(is_comment).copied().collect();
    let rest: Vec<&Body> = bodies.iter().filter(|b| !is_comment(b)).copied().collect();
    diff("comments", c.get("comments"), &dump(with))?;
    diff("other events", &dump(a.bodies()), &dump(rest))?;
    cov.label_if(c.get("comments").contains("data: \"\""), "empty comment");
    cov.label_if(c.get("comments").contains("\\n"), "comment of several lines");
    cov.label_if(matches!(bodies.get(1), Some(Body::Comment { .. })), "comment before the root element");
    cov.label_if(!c.get("text").ends_with('\n') && c.get("text").lines().last().is_some_and(|l| l.starts_with(';')), "comment without newline");
    Ok(c.num("count") >= 2)
}

//a C09
fn c09_gen(s: &mut Src) -> Case {
    let mut cfg = Cfg::new(s.size).ns(true);
    cfg.bad_prefix = s.chance(1, 3);
    cfg.comments = s.chance(1, 3);
    let d = gen::doc(s, &cfg);
    let text = gen::write(s, &d);
    let (expect, bad) = gen::walk(&d, true, 100);
    let c = Case::new().with("text", text).with("ns", "1").with("expect", dump(&expect));
    match bad {
        Some(p) => c.with("bad", p),
        None => c,
    }
}

fn c09_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let r = drive::read(c.get("text"), opts(c));
    diff("events", c.get("expect"), &dump(r.bodies()))?;
    match c.opt("bad") {
        None => no_error(&r.err)?,
        Some(p) => match &r.err {
            Some(e) if e.kind == "MarkupError:UnmappedPrefix" && e.detail == p => {}
            e => return Err(format!("prefix {p:?} is not declared, but got {e:?}")),
        },
    }
    cov.label(if c.opt("bad").is_some() { "undeclared prefix" } else { "all declared" });
    let mut declared = false;
    let mut used = false;
    for b in r.bodies() {
        if let Body::Start { name, attrs } = b {
            for (q, _) in attrs {
                if q.prefix == "xmlns" || (q.prefix.is_empty() && q.name == "xmlns") {
                    declared = true;
                    cov.label_if(q.prefix.is_empty(), "default namespace declared");
                } else if !q.uri.is_empty() {
                    used = true;
                }
            }
            used |= !name.uri.is_empty();
        }
    }
    Ok(declared && used)
}

//a C13
/// Texts with this character in a name, with whether it is allowed there
fn c13_texts(ch: char) -> Vec<(String, bool, &'static str, String)> {
    let s = refmodel::name_start(ch);
    let n = refmodel::name_char(ch);
    vec![
        (format!("#{ch}a "), s, "tag", format!("{ch}a")),
        (format!("#a{ch}b "), n, "tag", format!("a{ch}b")),
        (format!("#a{ch}"), n, "tag", format!("a{ch}")),
        (format!("#t {ch}a=1"), s, "attr", format!("{ch}a")),
        (format!("#t a{ch}b=1"), n, "attr", format!("a{ch}b")),
        (format!("#t a{ch}=1"), n, "attr", format!("a{ch}")),
        (format!("#t xmlns:{ch}='u' {ch}:a=1"), s, "prefix", format!("{ch}")),
        (format!("#t xmlns:a{ch}b='u' a{ch}b:a=1"), n, "prefix", format!("a{ch}b")),
        (format!("#a{ch}:n xmlns:a{ch}='u'"), n, "tag prefix", format!("a{ch}")),
    ]
}

fn c13_case(ch: char) -> Case {
    Case::new().with("char", format!("{:x}", ch as u32))
}

fn c13_enumerate(_tier: Tier, shard: usize, n: usize, f: CaseFn) {
    for x in 0..=0x10ffffu32 {
        if x as usize % n == shard {
            if let Some(ch) = char::from_u32(x) {
                if !f(c13_case(ch)) {
                    return;
                }
            }
        }
    }
}

fn c13_gen(s: &mut Src) -> Case {
    // a name of several characters, perhaps with one that is not allowed
    let edges = refmodel::name_edges();
    let n = 1 + s.count(12);
    let mut r = String::new();
    for _ in 0..n {
        r.push(if s.chance(1, 2) { *s.pick(&edges) } else { gen::any_char(s) });
    }
    Case::new().with("name", r)
}

fn c13_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let o = Opts::new(true);
    if let Some(name) = c.opt("name") {
        let text = format!("#{name} {name}='v'");
        let want = refmodel::read(&text, true, 100);
        let r = drive::read(&text, o);
        diff("events", &dump(want.bodies()), &dump(r.bodies()))?;
        same_error(&want.err, &r.err)?;
        cov.label(if gen::is_name(name) { "names" } else { "not names" });
        return Ok(name.chars().count() > 2);
    }
    let ch = u32::from_str_radix(c.get("char"), 16).ok().and_then(char::from_u32).ok_or("bad case")?;
    let mut any = false;
    for (text, ok, kind, name) in c13_texts(ch) {
        any |= ok;
        if ch == '\u{1680}' && kind != "tag" && kind != "tag prefix" && text.contains(" \u{1680}") {
            continue; // whitespace
        }
        let r = drive::read(&text, o);
        let mut tags = Vec::new();
        for b in r.bodies() {
            if let Body::Start { name, attrs } = b {
                tags.push((name.clone(), attrs.clone()));
            }
        }
        let accepted = r.err.is_none()
            && tags.len() == 1
            && match kind {
                "tag" => tags[0].0.name == name && tags[0].0.prefix.is_empty() && tags[0].1.is_empty(),
                "attr" => tags[0].1.len() == 1 && tags[0].1[0].0.name == name && tags[0].1[0].1 == "1",
                "prefix" => tags[0].1.len() == 2 && tags[0].1[1].0.prefix == name && tags[0].1[1].0.uri == "u",
                _ => tags[0].0.prefix == name && tags[0].0.uri == "u" && tags[0].0.name == "n",
            };
        if accepted != ok {
            return Err(format!(
                "U+{:04X} {} in {kind} name {name:?} of {text:?}",
                ch as u32,
                if ok { "is not accepted" } else { "is accepted" }
            ));
        }
    }
    cov.label(if refmodel::name_start(ch) {
        "start characters"
    } else if any {
        "other name characters"
    } else {
        "not name characters"
    });
    let next = |x: u32| char::from_u32(x).is_some_and(refmodel::name_char);
    Ok(any || next(ch as u32 + 1) || next((ch as u32).saturating_sub(1)))
}

//a C14
fn c14_enumerate(tier: Tier, shard: usize, n: usize, f: CaseFn) {
    let max = if tier == Tier::Quick { 4 } else { 5 };
    gen::enumerate_significant(max, shard, n, &["", "#a ", "\n#é{\n"], &mut |t| {
        f(Case::new().with("text", t).with("ns", "1").with("kind", "enumerated"))
    });
}

fn c14_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let text = c.get("text");
    let want = reference(c);
    if want.dup_decl {
        cov.label("excluded: prefix declared twice");
        return Ok(false);
    }
    let r = drive::read(text, opts(c));
    if want.bodies() != r.bodies() {
        // the subject of other properties, but then there is no span to compare with
        return Err(diff("events", &dump(want.bodies()), &dump(r.bodies())).unwrap_err());
    }
    let mut last = 0;
    for (w, g) in want.events.iter().zip(&r.events) {
        if w.span != g.span {
            return Err(format!("span of {:?}: expected {:?}\n  but got {:?}", w.body, w.span, g.span));
        }
        if g.span.0.b > g.span.1.b || g.span.0.b < last {
            return Err(format!("span of {:?} runs backwards: {:?}", g.body, g.span));
        }
        last = g.span.0.b;
        let t = &text[g.span.0.b..g.span.1.b];
        let fits = match &g.body {
            Body::Start { name, .. } => t.starts_with('#') && t.trim_end_matches('{').ends_with(name.name.as_str()),
            Body::Content { data, .. } => t.contains(data.as_str()) && t.ends_with(['"', '\'', '#']),
            Body::Comment { data, .. } => t.starts_with(';') && t.contains(data.split('\n').next().unwrap()),
            Body::End(_) => t.is_empty() || t.ends_with('}'),
            _ => t.is_empty(),
        };
        if !fits {
            return Err(format!("span of {:?} has the text {t:?}", g.body));
        }
    }
    let (we, ge) = (&want.err, &r.err);
    if we.as_ref().map(|e| (e.kind, e.span)) != ge.as_ref().map(|e| (e.kind, e.span)) {
        return Err(format!("span of error: expected {we:?}\n  but got {ge:?}"));
    }
    label_text(cov, c);
    cov.label_if(!text.is_ascii(), "multi-byte characters");
    cov.label_if(text.trim_end().contains('\n'), "several lines");
    cov.label_if(we.is_some(), "error spans");
    Ok(r.events.len() >= 3 || we.as_ref().is_some_and(|e| e.span.is_some_and(|s| s.0.l > 1)))
}

//a C15
fn c15_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let text = c.get("text");
    let o = Opts { more: 2, ..opts(c) };
    fn one<P: drive::View>(text: &str, o: Opts) -> Vec<(String, Run)> {
        let with = |f: &dyn Fn(&mut NamespaceStack) -> Run| {
            let mut ns = Namespace::new(o.xmlns);
            let mut ns_stack = NamespaceStack::new(&mut ns);
            f(&mut ns_stack)
        };
        let p = std::any::type_name::<P>();
        let mut r = vec![
            (format!("{p} own lexer"), with(&|n| drive::read_checked::<P>(text, o, n))),
            (format!("{p} LexerOfString"), with(&|n| drive::read_string::<P>(text, o, n))),
            (format!("{p} LexerOfStr"), with(&|n| drive::read_str::<P>(text, o, n))),
        ];
        for (_, x) in r.iter_mut() {
            x.steps = P::LINES as usize;
        }
        r
    }
    let mut all = one::<drive::Lc>(text, o);
    all.extend(one::<usize>(text, o));
    all.extend(one::<drive::OwnPos>(text, o));
    let show = |r: &Run, lines: bool| {
        let pos = |p: &refmodel::Pos| if lines { format!("{}/{}/{}", p.b, p.l, p.c) } else { p.b.to_string() };
        let ev = |e: &Ev| format!("{} {} {:?}\n", pos(&e.span.0), pos(&e.span.1), e.body);
        let er = |e: &Er| format!("{} {:?} {}\n", e.kind, e.span.map(|s| (pos(&s.0), pos(&s.1))), e.detail);
        let mut t = String::new();
        for e in &r.events {
            t += &ev(e);
        }
        if let Some(e) = &r.err {
            t += &er(e);
        }
        for x in &r.after {
            t += &match x {
                Ok(e) => ev(e),
                Err(e) => er(e),
            };
        }
        t
    };
    let bytes = show(&all[0].1, false);
    let lines = show(&all[0].1, true);
    for (what, r) in &all[1..] {
        diff(&format!("{} against {what}", all[0].0), &bytes, &show(r, false))?;
        if r.steps == 1 {
            diff(&format!("lines: {} against {what}", all[0].0), &lines, &show(r, true))?;
        }
    }
    label_text(cov, c);
    let r = &all[0].1;
    Ok(r.events.len() >= 3 || r.err.as_ref().is_some_and(|e| e.span.is_some_and(|s| s.0.b > 0)))
}

//a C22
fn c22_gen(s: &mut Src) -> Case {
    let ns = s.chance(2, 3);
    let n = 2 + s.count(3);
    let mut c = Case::new().with("ns", flag(ns)).with("count", n.to_string());
    if s.chance(1, 2) {
        let k = 1 + s.below(4);
        let pre: Vec<&str> = (0..k).map(|_| *s.pick(&["p=u", "q=v", "=d", "push", "xml=u", "p=w", "r=", "s1=u"])).collect();
        c.set("prepared", pre.join(" "));
    }
    for i in 0..n {
        let t = if s.chance(4, 5) {
            let d = gen::doc(s, &Cfg::new(s.size / 2).ns(ns));
            gen::write(s, &d)
        } else {
            gen::text(s).0
        };
        c.set(&format!("text{i}"), t);
    }
    let k = 1 + s.below(60);
    let order: Vec<String> = (0..k).map(|_| s.below(n).to_string()).collect();
    c.set("order", order.join(" "));
    c
}

/// What is done to a stack before it is used for reading
fn prepare(stack: &mut NamespaceStack, pre: &str) {
    for x in pre.split_whitespace() {
        match x.split_once('=') {
            Some((p, u)) => {
                stack.add_ns(p, u);
            }
            None => stack.push_frame(),
        }
    }
}

fn full(r: &Run) -> String {
    format!("{}{:?}", r.events.iter().map(|e| format!("{e:?}\n")).collect::<String>(), r.err)
}

fn c22_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let o = opts(c);
    let n = c.num("count");
    let texts: Vec<&str> = (0..n).map(|i| c.opt(&format!("text{i}")).unwrap_or("")).collect();
    let pre = c.opt("prepared").unwrap_or("");
    let read = |t: &str| {
        drive::checked(t, o);
        let mut ns = Namespace::new(o.xmlns);
        let mut stack = NamespaceStack::new(&mut ns);
        prepare(&mut stack, pre);
        drive::read_string::<drive::Lc>(t, o, &mut stack)
    };
    let fresh: Vec<Run> = texts.iter().map(|t| read(t)).collect();
    // again
    for (t, f) in texts.iter().zip(&fresh) {
        diff("reading the text again", &full(f), &full(&read(t)))?;
    }
    // one after another
    {
        let mut ns = Namespace::new(o.xmlns);
        let mut stack = NamespaceStack::new(&mut ns);
        prepare(&mut stack, pre);
        // names kept from before must go on being the same
        let mut kept: Vec<(hml_rs::names::Name, String)> = Vec::new();
        let before = drive::mappings(&stack);
        for (i, (t, f)) in texts.iter().zip(&fresh).enumerate() {
            if f.err.is_some() {
                continue; // what an error leaves behind is not specified
            }
            let r = drive::read_string::<drive::Lc>(t, o, &mut stack);
            diff(&format!("text {i} with a used namespace stack"), &full(f), &full(&r))?;
            if r.maps_before != before || r.maps_after != before {
                return Err(format!("mappings are {:?} before and {:?} after text {i}, not {before:?}", r.maps_before, r.maps_after));
            }
            for k in ["a", "b", "tag", "é"] {
                if let Ok(x) = hml_rs::names::Name::new(&mut stack, "", k) {
                    kept.push((x, k.to_string()));
                }
            }
            for (x, k) in &kept {
                if stack.name_str(x.name) != k {
                    return Err(format!("the name {k:?} has become {:?}", stack.name_str(x.name)));
                }
                let again = hml_rs::names::Name::new(&mut stack, "", k);
                if again.ok() != Some(*x) {
                    return Err(format!("the name {k:?} has another id after text {i}"));
                }
            }
        }
    }
    // interleaved
    interleave(c.get("order"), &texts, &fresh, o, pre)?;
    let docs = fresh.iter().filter(|f| f.events.len() > 3).count();
    cov.label_if(fresh.iter().any(|f| f.err.is_some()), "with a text that is refused");
    cov.label_if(fresh.iter().all(|f| f.err.is_none()), "all valid");
    Ok(docs >= 2)
}

fn interleave(order: &str, texts: &[&str], fresh: &[Run], o: Opts, pre: &str) -> Result<(), String> {
    let n = texts.len();
    let mut nss: Vec<Namespace> = (0..n).map(|_| Namespace::new(o.xmlns)).collect();
    let mut stacks: Vec<NamespaceStack> = nss.iter_mut().map(NamespaceStack::new).collect();
    for s in stacks.iter_mut() {
        prepare(s, pre);
    }
    let lexers: Vec<_> = texts.iter().map(|t| lexer_rs::LexerOfStr::new(t)).collect();
    use lexer_rs::Lexer;
    let fns = hml_rs::hml_reader::parse_fns();
    let mut iters: Vec<_> = lexers.iter().map(|l| l.iter(&fns)).collect();
    let mut parsers: Vec<hml_rs::hml_reader::Parser<drive::Lc>> = (0..n).map(|_| Default::default()).collect();
    let mut out: Vec<Run> = vec![Run::default(); n];
    let mut step = |i: usize, out: &mut Vec<Run>| -> bool {
        if out[i].err.is_some() || matches!(out[i].events.last(), Some(Ev { body: Body::EndDoc, .. })) {
            return false;
        }
        let it = &mut iters[i];
        match parsers[i].next_event(&mut stacks[i], || it.next()) {
            Ok(e) => out[i].events.push(drive::event(&e, &stacks[i])),
            Err(e) => out[i].err = Some(drive::error(&e)),
        }
        true
    };
    for k in order.split(' ') {
        let i: usize = k.parse().unwrap_or(0);
        step(i % n, &mut out);
    }
    // the rest in turn
    let mut any = true;
    while any {
        any = false;
        for i in 0..n {
            any |= step(i, &mut out);
        }
    }
    for i in 0..n {
        diff(&format!("text {i} read interleaved"), &full(&fresh[i]), &full(&out[i]))?;
    }
    Ok(())
}

//a C26
fn c26_gen(s: &mut Src) -> Case {
    if s.chance(1, 4) {
        return text_gen(s);
    }
    let ns = s.chance(1, 3);
    let d = gen::doc(s, &Cfg::new(s.size).ns(ns));
    let t = gen::write(s, &d);
    Case::new().with("text", t).with("ns", flag(ns)).with("kind", "document")
}

fn c26_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let text = c.get("text");
    let want = reference(c);
    if want.dup_decl {
        return Ok(false);
    }
    let r = drive::checked(text, opts(c));
    if want.bodies() != r.bodies() {
        return Err(diff("events", &dump(want.bodies()), &dump(r.bodies())).unwrap_err());
    }
    for (i, e) in want.events.iter().enumerate() {
        let need = want.need[i];
        // whitespace after a token may be taken along
        let ws = text[need..].len() - text[need..].trim_start().len();
        let limit = if i == 0 { 0 } else { need + ws };
        if r.consumed[i] > limit {
            return Err(format!("{:?} is delivered after {} bytes, but needs only {need}", e.body, r.consumed[i]));
        }
        if want.err.is_none() {
            let one = text[limit..].chars().next().map_or(0, |c| c.len_utf8());
            let limit = if i == 0 { 0 } else { limit + one };
            if r.reach[i] > limit {
                return Err(format!("{:?} is delivered after looking at {} bytes, but needs only {need}", e.body, r.reach[i]));
            }
        }
    }
    label_text(cov, c);
    Ok(want.events.len() > 4)
}

//a C27
fn c27_gen(s: &mut Src) -> Case {
    let mut c = c26_gen(s);
    let n = 1 + s.count(5);
    let far = 4 + s.size;
    let mut at: Vec<usize> = (0..n).map(|_| s.below(far)).collect();
    if s.chance(1, 50) {
        // many in a row
        let x = s.below(far);
        at.extend(std::iter::repeat(x).take(10 + s.below(300)));
    }
    if s.chance(1, 20) {
        // before every token
        at.extend(0..far);
    }
    at.sort();
    c.set("first failure", s.below(60).to_string());
    c.set("failures", at.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    c
}

fn c27_enumerate(_tier: Tier, shard: usize, n: usize, f: CaseFn) {
    // each single failure, and each pair of failures, in some fixed documents
    let docs = [
        "#a x=1 y='2' \"s\"",
        "#a{ ;c\n #b z=3 ##c 't' #d #a}",
        ";c\n#a ##b ###c ##d \"x\"\n;e",
        "#a{ x=1\n##b #a}",
        "#p:a xmlns:p='u' p:x=1 ##p:b{ xmlns:p='v' #p:c ##p:b}",
    ];
    let mut k = 0;
    for d in docs {
        for i in 0..30usize {
            for j in i..30usize {
                k += 1;
                if k % n == shard {
                    let c = Case::new().with("text", d).with("ns", "1").with("kind", "enumerated").with("failures", format!("{i} {j}"));
                    if !f(c) {
                        return;
                    }
                }
            }
        }
    }
}

/// An error of some kind that a source could fail with
fn source_error(k: usize) -> hml_rs::HmlError<drive::Lc> {
    use hml_rs::{HmlError, MarkupError};
    use lexer_rs::UserPosn;
    let p = drive::Lc::default().advance_line(k).advance_cols(k + 1, k);
    let q = if k % 2 == 0 { p } else { p.advance_cols(2, 1) };
    let span = lexer_rs::StreamCharSpan::new(p, q);
    match k % 12 {
        0 => HmlError::io_error(span, std::io::Error::new(std::io::ErrorKind::Other, format!("failure {k}"))),
        1 => HmlError::UnexpectedEOF { span },
        2 => HmlError::BeyondEndOfTokens,
        3 => HmlError::UnexpectedCharacter { span, ch: 'é' },
        4 => HmlError::MarkupError { span, source: MarkupError::unmapped_prefix(&format!("p{k}")) },
        5 => HmlError::ExpectedTagName { span },
        6 => HmlError::ExpectedWhitespaceAfterTag { span },
        7 => HmlError::UnexpectedNewlineInQuotedString { span },
        8 => HmlError::ExpectedEquals { span, ch: '=' },
        9 => HmlError::UnexpectedAttribute { span, attr: format!(":a{k}") },
        10 => HmlError::UnexpectedTagIndent { span, depth: k },
        _ => HmlError::io_error(span, std::io::Error::from(std::io::ErrorKind::Interrupted)),
    }
}

/// The requests (numbered by successes so far and tries) at which the source fails
fn c27_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let text = c.get("text");
    let o = opts(c);
    let plain = drive::read(text, o);
    // failures before the token of each number; the same number twice fails twice
    let mut at: Vec<usize> = c.get("failures").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    at.sort();
    let mut ns = Namespace::new(o.xmlns);
    let mut stack = NamespaceStack::new(&mut ns);
    let lexer = lexer_rs::LexerOfStr::new(text);
    use lexer_rs::Lexer;
    let fns = hml_rs::hml_reader::parse_fns();
    let mut iter = lexer.iter(&fns);
    let mut parser: hml_rs::hml_reader::Parser<drive::Lc> = Default::default();
    let mut got = Run::default();
    let mut pulled = 0usize;
    let mut failed = 0usize;
    let limit = text.len() * 4 + 200 + at.len();
    for _ in 0..limit {
        let mut expect_err: Option<refmodel::Er> = None;
        let r = parser.next_event(&mut stack, || {
            if failed < at.len() && pulled >= at[failed] && expect_err.is_none() {
                failed += 1;
                let e = source_error(c.opt("first failure").map_or(0, |x| x.parse().unwrap_or(0)) + failed);
                expect_err = Some(drive::error(&e));
                return Some(Err(e));
            }
            if expect_err.is_some() {
                panic!("the source is asked again before its error is passed on");
            }
            pulled += 1;
            iter.next()
        });
        match (r, expect_err) {
            (Err(e), Some(m)) => {
                let e = drive::error(&e);
                if e != m {
                    return Err(format!("the error of the source {m:?} became {e:?}"));
                }
            }
            (Ok(e), Some(m)) => return Err(format!("the error of the source {m:?} was lost: {:?}", drive::body(&e, &stack))),
            (Ok(e), None) => {
                got.events.push(drive::event(&e, &stack));
                if let Some(Body::EndDoc) = got.events.last().map(|e| &e.body) {
                    break;
                }
            }
            (Err(e), None) => {
                got.err = Some(drive::error(&e));
                break;
            }
        }
    }
    diff("after failures of the source", &full(&plain), &full(&got))?;
    label_text(cov, c);
    cov.label_if(failed > 1, "several failures");
    cov.label_if(plain.err.is_none(), "valid documents");
    Ok(failed > 0 && plain.events.len() > 4)
}

/// Attributes are used by other checks
pub fn attr(name: &str, value: &str) -> Attr {
    Attr { prefix: String::new(), name: name.into(), value: value.into() }
}

//a C33
fn c33_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let text = c.get("text");
    let t = refmodel::Text::new(text);
    let (tokens, err) = drive::tokens(text)?;
    let mut i = 0;
    let mut got = tokens.into_iter();
    let mut kinds: Vec<(&str, String)> = Vec::new();
    let mut count = 0;
    let (mut close, mut attr) = (false, false);
    let want_err = loop {
        let want = match refmodel::token(&t, i) {
            Ok(Some(x)) => x,
            Ok(None) => break None,
            Err(e) => break Some(e),
        };
        let Some((s, e, shown)) = got.next() else {
            return Err(format!("expected {want:?}, but there are no more tokens, {err:?}"));
        };
        if (s, e) != (t.pos(want.s), t.pos(want.e)) {
            return Err(format!("expected {want:?} from {:?} to {:?}, but {s:?} to {e:?}", t.pos(want.s), t.pos(want.e)));
        }
        printed(&want.tok, &shown, &mut kinds)?;
        close |= matches!(want.tok, Tok::Close { .. });
        attr |= matches!(want.tok, Tok::Attr { .. });
        count += (want.tok != Tok::Space) as usize;
        i = want.e;
    };
    if let Some(x) = got.next() {
        return Err(format!("expected no more tokens, {want_err:?}, but {x:?}"));
    }
    same_error(&want_err, &err)?;
    cov.label_if(close, "with a closing tag");
    cov.label_if(attr, "with an attribute");
    cov.label(want_err.as_ref().map_or("all of the text", |e| e.kind));
    Ok(count >= 3)
}

/// That a token's printed form, without its place in the text, says what it is
fn printed(tok: &Tok, shown: &str, kinds: &mut Vec<(&'static str, String)>) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{tok:?} is printed without {what}: {shown:?}"));
    let kind = match tok {
        Tok::Open { level, prefix, name, boxed } => {
            let Some((before, after)) = shown.split_once(&format!("{prefix}:{name}")) else {
                return bad("its name");
            };
            if !before.contains(&level.to_string()) {
                return bad("the number of its hashes");
            }
            if after != if *boxed { "{" } else { "" } {
                return bad("its brace, or with one");
            }
            return Ok(());
        }
        Tok::Close { level, prefix, name } => {
            let Some((before, after)) = shown.split_once(&format!("{prefix}:{name}")) else {
                return bad("its name");
            };
            if !before.contains(&level.to_string()) {
                return bad("the number of its hashes");
            }
            if after != "}" {
                return bad("its brace");
            }
            return Ok(());
        }
        Tok::Attr { prefix, name, value } => {
            if !shown.ends_with(&format!("{prefix}:{name}={value}")) {
                return bad("its name and value");
            }
            return Ok(());
        }
        Tok::Space => "whitespace",
        Tok::Comment(_) => "comment",
        Tok::Quoted { raw: true, .. } => "raw string",
        Tok::Quoted { raw: false, .. } => "string",
    };
    if let Some((other, _)) = kinds.iter().find(|(k, x)| *k != kind && x == shown) {
        return Err(format!("a {kind} and a {other} are both printed as {shown:?}"));
    }
    if !kinds.iter().any(|(_, x)| x == shown) {
        kinds.push((kind, shown.to_string()));
    }
    Ok(())
}
