//! Properties of namespaces, names and attribute lists.
use super::flag;
use crate::drive::{self, Opts};
use crate::engine::*;
use crate::gen;
use crate::refmodel::{XMLNS_URI, XML_URI};
use hml_rs::names::{Attribute, Attributes, NSMap, NSNameId, NSPrefixId, NSUriId, Name, Namespace, NamespaceStack, Tag};
use std::collections::{BTreeMap, BTreeSet};

pub static CHECKS: &[CheckDef] = &[
    CheckDef {
        id: "C10",
        rule: "histories of 1 to 120 operations on a namespace stack in both modes, and histories with up to 100000 frames; non-trivial: a prefix was mapped in two frames, and a frame was popped",
        quick: 720_000,
        thorough: 3_600_000,
        gen: c10_gen,
        run: c10_run,
        enumerate: Some(c10_enumerate),
        text_only: false,
        assumptions: &["the first frame of a stack is not popped"],
    },
    CheckDef {
        id: "C11",
        rule: "histories of additions and lookups of names, prefixes and URIs, directly and through reading documents; non-trivial: at least 5 strings, one added twice",
        quick: 1_440_000,
        thorough: 7_200_000,
        gen: c11_gen,
        run: c11_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C12",
        rule: "names built from all kinds of strings in random states of a namespace stack; non-trivial: a name with a prefix was built, and one refused",
        quick: 3_600_000,
        thorough: 18_000_000,
        gen: c12_gen,
        run: c12_run,
        enumerate: Some(c12_enumerate),
        text_only: false,
        assumptions: &["what is printed is only read back if neither part has a colon"],
    },
    CheckDef {
        id: "C29",
        rule: "histories of 1 to 80 operations on attribute lists and a namespace stack in both modes; non-trivial: at least 3 attributes were added, and a list was moved",
        quick: 2_560_000,
        thorough: 12_800_000,
        gen: c29_gen,
        run: c29_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C31",
        rule: "pairs of names, attributes and mappings made of small and extreme ids, alike in some parts; non-trivial: the two are alike in a part and differ in another",
        quick: 6_400_000,
        thorough: 32_000_000,
        gen: c31_gen,
        run: c31_run,
        enumerate: None,
        text_only: false,
        assumptions: &[],
    },
];

//a Operations in cases
const SEP: char = '\u{1f}';

fn op(c: &mut Case, n: &mut usize, parts: &[&str]) {
    c.set(&format!("op{n}"), parts.join(&SEP.to_string()));
    *n += 1;
}

fn ops(c: &Case) -> Vec<Vec<&str>> {
    let mut r: Vec<Vec<&str>> = Vec::new();
    for (k, v) in &c.0 {
        if k.starts_with("op") {
            r.push(v.split(SEP).collect());
        }
    }
    r
}

fn arg<'a>(o: &[&'a str], i: usize) -> &'a str {
    o.get(i).copied().unwrap_or("")
}

/// Some strings to be used again and again in a case
fn pool(s: &mut Src, first: &[&str], n: usize) -> Vec<String> {
    let mut r: Vec<String> = first.iter().map(|x| x.to_string()).collect();
    for _ in 0..n {
        let x = match s.weighted(&[50, 20, 20, 10]) {
            0 => {
                let k = 1 + s.count(3);
                (0..k).map(|_| *s.pick(&['a', 'b', 'A', 'é', ' '])).collect()
            }
            1 => gen::any_string(s, 8).replace(SEP, ""),
            2 => {
                // nearly the same as another
                let mut x = s.pick(&r).clone();
                match s.below(8) {
                    0 => x.push('a'),
                    1 => x = x.to_uppercase(),
                    2 => x = x.to_lowercase(),
                    3 => x.insert(0, 'a'),
                    4 => x.push(*s.pick(&[' ', '/', '#', '\n', '\u{301}'])),
                    5 => x = x.chars().rev().collect(),
                    6 => x = x.trim().to_string() + &x,
                    _ => {
                        x.pop();
                    }
                }
                x
            }
            _ => {
                // long ones, that differ at the end or not at all
                let n = *s.pick(&[10, 39, 40, 63, 64, 127, 128, 255, 256, 257, 1000, 70_000]);
                let n = if n > 300 && s.chance(9, 10) { 256 } else { n };
                "http://example.com/".to_string() + &"x".repeat(n) + s.pick(&["", "a", "b", "é"])
            }
        };
        r.push(x);
    }
    r
}

const PREFIXES: &[&str] = &["p", "", "q", "xmlns", "xml", "a"];
const URIS: &[&str] = &["u", "", "v", XMLNS_URI, XML_URI, "p"];

fn large(s: &mut Src) -> usize {
    match s.weighted(&[50, 40, 10]) {
        0 => 10 + s.below(60),
        1 => 60 + s.below(80),
        _ => 240 + s.below(40),
    }
}

//a C10
fn c10_gen(s: &mut Src) -> Case {
    let mut c = Case::new().with("ns", flag(s.chance(1, 2)));
    let k = s.count(4);
    let p = pool(s, PREFIXES, k);
    let k = s.count(4);
    let u = pool(s, URIS, k);
    let n = 1 + s.count(20 + s.size);
    let mut k = 0;
    let mut depth = 1;
    if s.chance(1, 200) {
        // many mappings in one frame
        for i in 0..large(s) {
            op(&mut c, &mut k, &["add", &format!("n{i}"), &format!("u{i}")]);
        }
    }
    for _ in 0..n {
        if s.chance(1, 400) {
            let many = large(s);
            depth += many;
            op(&mut c, &mut k, &["push many", &many.to_string()]);
        }
        if s.chance(1, 200) {
            for i in 0..3 + s.below(30) {
                op(&mut c, &mut k, &["add", &format!("m{i}"), "u"]);
            }
        }
        let (a, b) = (s.pick(&p).clone(), s.pick(&u).clone());
        match s.weighted(&[30, 12, 12, 10, 10, 14, 14, 2, 2]) {
            0 => op(&mut c, &mut k, &["add", &a, &b]),
            1 => op(&mut c, &mut k, &["add if unset", &a, &b]),
            2 => op(&mut c, &mut k, &["look", &a]),
            3 => op(&mut c, &mut k, &["add id", &a, &b]),
            4 => op(&mut c, &mut k, &["add id if unset", &a, &b]),
            5 => {
                depth += 1;
                op(&mut c, &mut k, &["push"])
            }
            6 => {
                if depth > 1 {
                    depth -= 1;
                    op(&mut c, &mut k, &["pop"])
                }
            }
            7 => op(&mut c, &mut k, &["add null"]),
            _ => op(&mut c, &mut k, &["add xml"]),
        }
    }
    c
}

fn c10_enumerate(_tier: Tier, shard: usize, n: usize, f: CaseFn) {
    for (i, depth) in [10usize, 1000, 20_000, 100_000].into_iter().enumerate() {
        if i % n == shard {
            let mut c = Case::new().with("ns", "1");
            let mut k = 0;
            op(&mut c, &mut k, &["add", "p", "u0"]);
            op(&mut c, &mut k, &["push many", &depth.to_string()]);
            op(&mut c, &mut k, &["add", "p", "u1"]);
            op(&mut c, &mut k, &["push"]);
            op(&mut c, &mut k, &["add", "q", "u2"]);
            op(&mut c, &mut k, &["pop"]);
            op(&mut c, &mut k, &["look", "q"]);
            op(&mut c, &mut k, &["pop many", &depth.to_string()]);
            if !f(c) {
                return;
            }
        }
    }
}

struct Frames(Vec<BTreeMap<String, String>>);
impl Frames {
    fn new(xmlns: bool) -> Self {
        let mut f = Frames(vec![BTreeMap::new()]);
        f.set("", "");
        if xmlns {
            f.xml();
        }
        f
    }
    fn xml(&mut self) {
        self.set("", "");
        self.set("xmlns", XMLNS_URI);
        self.set("xml", XML_URI);
    }
    fn set(&mut self, p: &str, u: &str) {
        self.0.last_mut().unwrap().insert(p.into(), u.into());
    }
    fn top(&self) -> &BTreeMap<String, String> {
        self.0.last().unwrap()
    }
    fn find(&self, p: &str) -> Option<&String> {
        self.0.iter().rev().find_map(|f| f.get(p))
    }
    fn visible(&self) -> BTreeMap<String, String> {
        let mut r = BTreeMap::new();
        for f in &self.0 {
            for (p, u) in f {
                r.insert(p.clone(), u.clone());
            }
        }
        r
    }
}

fn collect(s: &NamespaceStack, l: impl Iterator<Item = NSMap>, what: &str) -> Result<BTreeMap<String, String>, String> {
    let mut r = BTreeMap::new();
    for m in l {
        let (p, u) = s.borrow_mapping(m);
        if p != s.prefix_str(m.prefix_id()) || u != s.uri_str(m.uri_id()) {
            return Err(format!("{what}: two ways to the strings of a mapping differ"));
        }
        let mut t = String::new();
        s.fmt_map(&mut t, m).map_err(|e| e.to_string())?;
        if t != format!("'{p}' => '{u}'") {
            return Err(format!("{what}: a mapping of {p:?} to {u:?} is printed as {t}"));
        }
        if r.insert(p.to_string(), u.to_string()).is_some() {
            return Err(format!("{what}: {p:?} comes twice"));
        }
        if r.len() > 10_000 {
            return Err(format!("{what}: does not end"));
        }
    }
    Ok(r)
}

fn compare_frames(s: &mut NamespaceStack, m: &Frames, prefixes: &BTreeSet<String>) -> Result<(), String> {
    for p in prefixes {
        let got = match s.find_prefix_id(p) {
            None => None,
            Some(id) => s.find_mapping(id).map(|u| s.uri_str(u).to_string()),
        };
        if got.as_ref() != m.find(p) {
            return Err(format!("prefix {p:?} is mapped to {got:?} instead of {:?}", m.find(p)));
        }
    }
    let all = collect(s, (&*s).into_iter(), "all mappings")?;
    if all != m.visible() {
        return Err(format!("the visible mappings are {all:?} instead of {:?}", m.visible()));
    }
    let top = collect(s, s.iter_top_mappings(), "mappings of the top frame")?;
    if top != *m.top() {
        return Err(format!("the mappings of the top frame are {top:?} instead of {:?}", m.top()));
    }
    Ok(())
}

fn c10_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let xmlns = c.get("ns") == "1";
    let mut ns = Namespace::new(xmlns);
    if ns.uses_xmlns() != xmlns {
        return Err("the namespace mode is lost".into());
    }
    let mut s = NamespaceStack::new(&mut ns);
    let mut m = Frames::new(xmlns);
    let mut maps: BTreeMap<(String, String), NSMap> = BTreeMap::new();
    let mut prefixes: BTreeSet<String> = ["", "xml", "xmlns", "p"].iter().map(|x| x.to_string()).collect();
    let (mut hidden, mut popped) = (false, false);
    compare_frames(&mut s, &m, &prefixes).map_err(|e| format!("new stack: {e}"))?;
    for (i, o) in ops(c).iter().enumerate() {
        let (p, u) = (arg(o, 1), arg(o, 2));
        let at = |e: String| format!("operation {i} {o:?}: {e}");
        if o[0].starts_with("add") {
            prefixes.insert(p.to_string());
            hidden |= m.find(p).is_some() && !m.top().contains_key(p);
        }
        match o[0] {
            "add" => {
                let r = s.add_ns(p, u);
                if s.borrow_mapping(r) != (p, u) {
                    return Err(at(format!("the mapping returned is {:?}", s.borrow_mapping(r))));
                }
                maps.insert((p.into(), u.into()), r);
                m.set(p, u);
            }
            "add if unset" => {
                let (r, added) = s.add_ns_if_unset(p, u);
                if s.borrow_mapping(r) != (p, u) {
                    return Err(at(format!("the mapping returned is {:?}", s.borrow_mapping(r))));
                }
                maps.insert((p.into(), u.into()), r);
                let unset = !m.top().contains_key(p);
                if added != unset {
                    return Err(at(format!("returns {added}")));
                }
                if unset {
                    m.set(p, u);
                }
            }
            "add id" => match maps.get(&(p.to_string(), u.to_string())) {
                Some(r) => {
                    // an equal mapping, not the same one
                    s.add_mapping_by_id(NSMap::new(r.prefix_id(), r.uri_id()));
                    m.set(p, u);
                }
                None => {
                    maps.insert((p.into(), u.into()), s.add_ns(p, u));
                    m.set(p, u);
                }
            },
            "add id if unset" => {
                if let Some(r) = maps.get(&(p.to_string(), u.to_string())) {
                    let added = s.add_mapping_by_id_if_unset(*r);
                    let unset = !m.top().contains_key(p);
                    if added != unset {
                        return Err(at(format!("returns {added}")));
                    }
                    if unset {
                        m.set(p, u);
                    }
                }
            }
            "look" => {
                let known = prefixes.contains(p);
                let found = s.find_prefix_id(p);
                if !known && found.is_some() && !["", "xml", "xmlns"].contains(&p) {
                    return Err(at("a prefix never added is found".into()));
                }
            }
            "push" => {
                s.push_frame();
                m.0.push(BTreeMap::new());
            }
            "pop" => {
                popped = true;
                if m.0.len() > 1 {
                    s.pop_frame();
                    m.0.pop();
                }
            }
            "push many" => {
                for _ in 0..c_num(p) {
                    s.push_frame();
                    m.0.push(BTreeMap::new());
                }
            }
            "pop many" => {
                popped = true;
                for _ in 0..c_num(p).min(m.0.len() - 1) {
                    s.pop_frame();
                    m.0.pop();
                }
            }
            "add null" => {
                s.add_null_ns();
                m.set("", "");
            }
            "add xml" => {
                s.add_default_xmls();
                m.xml();
            }
            _ => return Err("bad case".into()),
        }
        compare_frames(&mut s, &m, &prefixes).map_err(at)?;
    }
    cov.label_if(xmlns, "namespaces");
    cov.label_if(hidden, "a mapping hides another");
    cov.label_if(popped, "frames popped");
    Ok(hidden && popped)
}

fn c_num(s: &str) -> usize {
    s.parse().unwrap_or(0)
}

//a C11
fn c11_gen(s: &mut Src) -> Case {
    let mut c = Case::new().with("ns", flag(s.chance(1, 2)));
    let k = 1 + s.count(8);
    let p = pool(s, &["a", "", "b", "xmlns", "xml"], k);
    let n = 1 + s.count(10 + s.size / 2);
    let mut k = 0;
    if s.chance(1, 100) {
        for i in 0..large(s) {
            op(&mut c, &mut k, &["name", &format!("n{i}")]);
            if i % 2 == 0 {
                op(&mut c, &mut k, &["mapping", &format!("p{i}"), &format!("u{i}")]);
            }
        }
    }
    for _ in 0..n {
        let (a, b) = (s.pick(&p).clone(), s.pick(&p).clone());
        match s.weighted(&[30, 25, 10, 10, 10, 5, 5, 5]) {
            0 => op(&mut c, &mut k, &["name", &a]),
            1 => op(&mut c, &mut k, &["mapping", &a, &b]),
            2 => op(&mut c, &mut k, &["find name", &a]),
            3 => op(&mut c, &mut k, &["find prefix", &a]),
            4 => op(&mut c, &mut k, &["find uri", &a]),
            5 => op(&mut c, &mut k, &["new stack"]),
            6 => op(&mut c, &mut k, &["direct mapping", &a, &b]),
            _ => {
                let d = gen::doc(s, &gen::Cfg::new(s.size / 4));
                let t = gen::write(s, &d);
                if !t.contains(SEP) {
                    op(&mut c, &mut k, &["read", &t])
                }
            }
        }
    }
    c
}

#[derive(Default)]
struct Tables {
    names: BTreeMap<String, NSNameId>,
    prefixes: BTreeMap<String, NSPrefixId>,
    uris: BTreeMap<String, NSUriId>,
    read: bool,
}

macro_rules! table_check {
    ($ns:expr, $table:expr, $find:ident, $str:ident, $what:expr, $id:ident) => {
        let mut seen: BTreeMap<Option<usize>, String> = BTreeMap::new();
        for (k, id) in &$table {
            if $ns.$find(k) != Some(*id) {
                return Err(format!("{} {k:?} has the id {:?} instead of {:?}", $what, $ns.$find(k), id));
            }
            if $ns.$str(*id, "") != k {
                return Err(format!("the id of {} {k:?} gives {:?}", $what, $ns.$str(*id, "")));
            }
            if let Some(x) = seen.insert(id.get(), k.clone()) {
                return Err(format!("{} {k:?} and {x:?} have the same id", $what));
            }
            if k.is_empty() != id.is_none() || id.is_none() == id.is_some() || id.get().is_none() != id.is_none() {
                return Err(format!("{} {k:?} has the id {id:?}", $what));
            }
            if (*id == $id::none()) != k.is_empty() || id.get().map_or($id::none(), $id::new) != *id {
                return Err(format!("{} {k:?} has an id {id:?} that is not equal to itself", $what));
            }
            let shown = id.get().map_or("None".to_string(), |x| x.to_string());
            if id.to_string() != shown {
                return Err(format!("id {id:?} prints as {id}"));
            }
        }
        if $ns.$find("") != Some($id::none()) || $ns.$str($id::none(), "dflt") != "dflt" {
            return Err(format!("the empty {} is not none", $what));
        }
    };
}

fn tables_check(ns: &mut Namespace, t: &Tables) -> Result<(), String> {
    table_check!(ns, t.names, find_name, name_str, "name", NSNameId);
    table_check!(ns, t.prefixes, find_prefix, prefix_str, "prefix", NSPrefixId);
    table_check!(ns, t.uris, find_uri, uri_str, "URI", NSUriId);
    for x in ["\u{1}never", "never added"] {
        if ns.find_name(x).is_some() || ns.find_prefix(x).is_some() || ns.find_uri(x).is_some() {
            return Err(format!("{x:?} is found but was never added"));
        }
    }
    Ok(())
}

fn known<T: Copy + PartialEq + std::fmt::Debug>(t: &mut BTreeMap<String, T>, k: &str, id: T) -> Result<(), String> {
    match t.insert(k.to_string(), id) {
        Some(old) if old != id => Err(format!("{k:?} had the id {old:?}, and has {id:?}")),
        _ => Ok(()),
    }
}

fn c11_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let xmlns = c.get("ns") == "1";
    let mut ns = Namespace::new(xmlns);
    let mut t = Tables::default();
    let o = ops(c);
    let mut i = 0;
    let mut again = 0;
    while i < o.len() {
        // with a stack up to the next "new stack" or direct operation
        {
            let fresh = tables_check(&mut ns, &t);
            fresh.map_err(|e| format!("before operation {i}: {e}"))?;
            let mut s = NamespaceStack::new(&mut ns);
            let mut start = vec![("", "")];
            if xmlns {
                start.extend([("xmlns", XMLNS_URI), ("xml", XML_URI)]);
            }
            for (p, u) in start {
                // adding again what is there already
                let m = s.add_ns(p, u);
                known(&mut t.prefixes, p, m.prefix_id())?;
                known(&mut t.uris, u, m.uri_id())?;
            }
            while i < o.len() {
                let op = &o[i];
                let a = arg(op, 1);
                let at = |e: String| format!("operation {i} {op:?}: {e}");
                match op[0] {
                    "name" => {
                        again += t.names.contains_key(a) as usize;
                        let id = s.add_name(a);
                        known(&mut t.names, a, id).map_err(at)?;
                        if s.name_str(id) != a {
                            return Err(at(format!("the id gives {:?}", s.name_str(id))));
                        }
                    }
                    "mapping" => {
                        let b = arg(op, 2);
                        again += t.prefixes.contains_key(a) as usize;
                        let m = s.add_ns(a, b);
                        known(&mut t.prefixes, a, m.prefix_id()).map_err(at)?;
                        known(&mut t.uris, b, m.uri_id()).map_err(at)?;
                    }
                    "find prefix" => {
                        let want = if a.is_empty() { Some(NSPrefixId::none()) } else { t.prefixes.get(a).copied() };
                        let got = s.find_prefix_id(a);
                        if got != want && !(t.read && want.is_none()) {
                            return Err(at(format!("finds {got:?} instead of {want:?}")));
                        }
                    }
                    "read" => {
                        t.read = true;
                        let r = drive::read_string::<drive::Lc>(a, Opts::new(xmlns), &mut s);
                        for e in &r.events {
                            if let crate::refmodel::Body::Start { name, attrs } = &e.body {
                                let id = s.add_name(&name.name);
                                known(&mut t.names, &name.name, id).map_err(at)?;
                                for (q, _) in attrs {
                                    let id = s.add_name(&q.name);
                                    known(&mut t.names, &q.name, id).map_err(at)?;
                                }
                            }
                        }
                    }
                    _ => break,
                }
                i += 1;
            }
        }
        if i < o.len() {
            let op = &o[i];
            let a = arg(op, 1);
            let at = |e: String| format!("operation {i} {op:?}: {e}");
            match op[0] {
                "find name" => {
                    let want = if a.is_empty() { Some(NSNameId::none()) } else { t.names.get(a).copied() };
                    let got = ns.find_name(a);
                    if got != want && !(t.read && want.is_none()) {
                        return Err(at(format!("finds {got:?} instead of {want:?}")));
                    }
                }
                "find uri" => {
                    let want = if a.is_empty() { Some(NSUriId::none()) } else { t.uris.get(a).copied() };
                    let got = ns.find_uri(a);
                    if got != want && !(t.read && want.is_none()) {
                        return Err(at(format!("finds {got:?} instead of {want:?}")));
                    }
                }
                "direct mapping" => {
                    let b = arg(op, 2);
                    let m = ns.add_mapping(a, b);
                    known(&mut t.prefixes, a, m.prefix_id()).map_err(at)?;
                    known(&mut t.uris, b, m.uri_id()).map_err(at)?;
                    let m2 = ns.add_mapping_by_id(m.prefix_id(), m.uri_id());
                    if m2 != m {
                        return Err(at("the same mapping by id is another".into()));
                    }
                }
                _ => {}
            }
            i += 1;
        }
        tables_check(&mut ns, &t).map_err(|e| format!("before operation {i}: {e}"))?;
    }
    tables_check(&mut ns, &t).map_err(|e| format!("at the end: {e}"))?;
    cov.label_if(t.read, "with documents read");
    cov.label_if(again > 0, "strings added again");
    Ok(again > 0 && t.names.len() + t.prefixes.len() + t.uris.len() >= 5)
}

//a C12
fn c12_gen(s: &mut Src) -> Case {
    let mut c = Case::new().with("ns", flag(s.chance(1, 2)));
    let k = s.count(3);
    let p = pool(s, PREFIXES, k);
    let k = s.count(3);
    let names = pool(s, &["a", "b", "xmlns", "p", "", "é"], k);
    let n = 1 + s.count(6 + s.size / 4);
    let mut k = 0;
    let mut depth = 1;
    for _ in 0..n {
        let (a, b) = (s.pick(&p).clone(), s.pick(&names).clone());
        match s.weighted(&[20, 10, 15, 6, 6, 20]) {
            0 => op(&mut c, &mut k, &["new", &a, &b]),
            1 => op(&mut c, &mut k, &["local", &b]),
            2 => op(&mut c, &mut k, &["add", &a, s.pick(&["u", "v", "w", ""])]),
            3 => {
                depth += 1;
                op(&mut c, &mut k, &["push"])
            }
            4 => {
                if depth > 1 {
                    depth -= 1;
                    op(&mut c, &mut k, &["pop"])
                }
            }
            _ => {
                let t = match s.weighted(&[30, 20, 20, 30]) {
                    0 => format!("{a}:{b}"),
                    1 => b,
                    2 => format!("{a}:{b}:{}", s.pick(&names)),
                    _ => {
                        let k = s.count(5);
                        (0..k).map(|_| *s.pick(&[":", "a", "p", "é", "q"])).collect()
                    }
                };
                op(&mut c, &mut k, &["str", &t])
            }
        }
    }
    c
}

fn c12_enumerate(_tier: Tier, shard: usize, n: usize, f: CaseFn) {
    // all strings of length up to 6 over : a p é
    let l = [":", "a", "p", "é"];
    let mut i = 0;
    for len in 0..=6u32 {
        for x in 0..4usize.pow(len) {
            i += 1;
            if i % n != shard {
                continue;
            }
            let mut x = x;
            let mut t = String::new();
            for _ in 0..len {
                t += l[x % 4];
                x /= 4;
            }
            let mut c = Case::new().with("ns", "1");
            let mut k = 0;
            op(&mut c, &mut k, &["add", "p", "u"]);
            op(&mut c, &mut k, &["add", "", "d"]);
            op(&mut c, &mut k, &["str", &t]);
            op(&mut c, &mut k, &["new", "p", &t]);
            op(&mut c, &mut k, &["local", &t]);
            if !f(c) {
                return;
            }
        }
    }
}

/// Prefix, URI, local name, or the kind of error and its detail
type Named = Result<(String, String, String), (&'static str, String)>;

fn want_new(m: &Frames, p: &str, n: &str) -> Named {
    if n.is_empty() {
        Err(("MarkupError:EmptyName", "".into()))
    } else if let Some(u) = m.find(p) {
        Ok((p.into(), u.clone(), n.into()))
    } else {
        Err(("MarkupError:UnmappedPrefix", p.into()))
    }
}

fn want_local(n: &str) -> Named {
    if n.is_empty() {
        Err(("MarkupError:EmptyName", "".into()))
    } else {
        Ok(("".into(), "".into(), n.into()))
    }
}

fn want_str(m: &Frames, t: &str) -> Named {
    match t.matches(':').count() {
        0 => want_local(t),
        1 => {
            let i = t.find(':').unwrap();
            want_new(m, &t[..i], &t[i + 1..])
        }
        _ => Err(("MarkupError:BadName", t.into())),
    }
}

fn named(s: &NamespaceStack, r: &Result<Name, hml_rs::MarkupError>) -> Named {
    match r {
        Ok(n) => {
            let q = drive::qname(n, s);
            Ok((q.prefix, q.uri, q.name))
        }
        Err(e) => {
            let (k, d) = drive::markup_error(e);
            Err((k, d))
        }
    }
}

fn c12_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let xmlns = c.get("ns") == "1";
    let mut ns = Namespace::new(xmlns);
    let mut s = NamespaceStack::new(&mut ns);
    let mut m = Frames::new(xmlns);
    let mut kept: Vec<(Name, (String, String, String))> = Vec::new();
    let (mut good, mut bad) = (false, false);
    for (i, o) in ops(c).iter().enumerate() {
        let (a, b) = (arg(o, 1), arg(o, 2));
        let at = |e: String| format!("operation {i} {o:?}: {e}");
        let (got, want) = match o[0] {
            "new" => (Name::new(&mut s, a, b), want_new(&m, a, b)),
            "local" => (Name::new_local(&mut s, a), want_local(a)),
            "str" => (Name::from_str(&mut s, a), want_str(&m, a)),
            "add" => {
                s.add_ns(a, b);
                m.set(a, b);
                continue;
            }
            "push" => {
                s.push_frame();
                m.0.push(BTreeMap::new());
                continue;
            }
            "pop" => {
                if m.0.len() > 1 {
                    s.pop_frame();
                    m.0.pop();
                }
                continue;
            }
            _ => return Err("bad case".into()),
        };
        let shown = named(&s, &got);
        if shown != want {
            return Err(at(format!("expected {want:?}\n  but got {shown:?}")));
        }
        match (got, want) {
            (Ok(n), Ok((p, u, l))) => {
                if n.has_prefix() == p.is_empty() || n.has_uri() == u.is_empty() || n == Name::none() {
                    return Err(at(format!("has_prefix is {} and has_uri is {}", n.has_prefix(), n.has_uri())));
                }
                let t = n.to_string(&s);
                let expect = if p.is_empty() { l.clone() } else { format!("{p}:{l}") };
                if t != expect {
                    return Err(at(format!("prints as {t:?}")));
                }
                if !p.is_empty() && !p.contains(':') && !l.contains(':') {
                    good = true;
                    match Name::from_str(&mut s, &t) {
                        Ok(x) if x == n => {}
                        x => return Err(at(format!("{t:?} is read back as {x:?}"))),
                    }
                }
                // equal exactly if they are of the same parts
                for (x, y) in &kept {
                    if (*x == n) != (*y == (p.clone(), u.clone(), l.clone())) {
                        return Err(at(format!("compares wrongly with {y:?}")));
                    }
                }
                kept.push((n, (p, u, l)));
            }
            _ => bad = true,
        }
    }
    cov.label_if(good, "with a prefix");
    cov.label_if(bad, "refused");
    Ok(good && bad)
}

//a C29
fn c29_gen(s: &mut Src) -> Case {
    let mut c = Case::new().with("ns", flag(s.chance(2, 3)));
    let k = s.count(3);
    let p = pool(s, PREFIXES, k);
    let k = s.count(3);
    let names = pool(s, &["a", "b", "xmlns", "p", "", "q"], k);
    let n = 1 + s.count(10 + s.size * 7 / 10);
    let mut k = 0;
    let mut depth = 1;
    if s.chance(1, 400) {
        for i in 0..large(s) {
            op(&mut c, &mut k, &["add", "1", "", &format!("n{}", i % 90), &i.to_string()]);
        }
    }
    for _ in 0..n {
        let i = s.below(3).to_string();
        match s.weighted(&[40, 12, 12, 8, 8, 5, 5]) {
            0 => {
                let n = s.tail(6, 60);
                let v = gen::any_string(s, n).replace(SEP, "");
                op(&mut c, &mut k, &["add", &i, s.pick(&p), s.pick(&names), &v])
            }
            1 => {
                let v = *s.pick(&["u", "v", ""]);
                if s.chance(1, 3) {
                    op(&mut c, &mut k, &["add", &i, "", "xmlns", v])
                } else {
                    let n = s.pick(&names).clone();
                    if !n.is_empty() {
                        op(&mut c, &mut k, &["add", &i, "xmlns", &n, v])
                    }
                }
            }
            2 => {
                let j = s.below(3).to_string();
                if i != j {
                    op(&mut c, &mut k, &["steal", &i, &j])
                }
            }
            3 => op(&mut c, &mut k, &["tag", &i, s.pick(&p), s.pick(&names)]),
            4 => op(&mut c, &mut k, &["map", &i, s.pick(&p), "w"]),
            5 => {
                depth += 1;
                op(&mut c, &mut k, &["push"])
            }
            _ => {
                if depth > 1 {
                    depth -= 1;
                    op(&mut c, &mut k, &["pop"])
                }
            }
        }
    }
    c
}

fn c29_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let xmlns = c.get("ns") == "1";
    let mut ns = Namespace::new(xmlns);
    let mut s = NamespaceStack::new(&mut ns);
    let mut m = Frames::new(xmlns);
    type Row = (String, String, String, String);
    let mut lists: Vec<Attributes> = (0..3).map(|_| Attributes::default()).collect();
    let mut want: Vec<Vec<Row>> = vec![Vec::new(); 3];
    let mut tags: Vec<(Tag, (String, String, String), Vec<Row>)> = Vec::new();
    fn rows(s: &NamespaceStack, l: &[hml_rs::names::Attribute]) -> Vec<Row> {
        l.iter()
            .map(|a| {
                let q = drive::qname(&a.name, s);
                (q.prefix, q.uri, q.name, a.value.clone())
            })
            .collect()
    }
    let (mut added, mut moved, mut refused) = (0, false, false);
    for (i, o) in ops(c).iter().enumerate() {
        let at = |e: String| format!("operation {i} {o:?}: {e}");
        let li = c_num(arg(o, 1)) % 3;
        match o[0] {
            "add" => {
                let (p, n, v) = (arg(o, 2), arg(o, 3), arg(o, 4));
                if p == "xmlns" && n.is_empty() {
                    continue;
                }
                let mut row: Named;
                if xmlns && p.is_empty() && n == "xmlns" {
                    m.set("", v);
                    row = want_new(&m, "xmlns", n);
                    if let Ok(r) = &mut row {
                        r.0.clear();
                    }
                } else {
                    if xmlns && p == "xmlns" {
                        m.set(n, v);
                    }
                    row = want_new(&m, p, n);
                }
                let r = lists[li].add(&mut s, p, n, v.to_string());
                match (r, row) {
                    (Ok(()), Ok((a, b, c))) => {
                        added += 1;
                        want[li].push((a, b, c, v.to_string()));
                    }
                    (Err(e), Err(x)) => {
                        refused = true;
                        if drive::markup_error(&e) != x {
                            return Err(at(format!("expected {x:?} but got {e:?}")));
                        }
                    }
                    (r, x) => return Err(at(format!("expected {x:?} but got {r:?}"))),
                }
            }
            "steal" => {
                let j = c_num(arg(o, 2)) % 3;
                if li == j {
                    continue;
                }
                moved |= !want[j].is_empty();
                let mut other = std::mem::take(&mut lists[j]);
                lists[li].steal(&mut other);
                lists[j] = other;
                let mut w = std::mem::take(&mut want[j]);
                want[li].append(&mut w);
            }
            "tag" => {
                let (p, n) = (arg(o, 2), arg(o, 3));
                let l = std::mem::take(&mut lists[li]);
                let w = std::mem::take(&mut want[li]);
                match (Tag::new(&mut s, p, n, l), want_new(&m, p, n)) {
                    (Ok(t), Ok(q)) => tags.push((t, q, w)),
                    (Err(e), Err(x)) => {
                        if drive::markup_error(&e) != x {
                            return Err(at(format!("expected {x:?} but got {e:?}")));
                        }
                    }
                    (r, x) => return Err(at(format!("expected {x:?} but got {r:?}"))),
                }
            }
            "map" => {
                let (p, u) = (arg(o, 2), arg(o, 3));
                s.add_ns(p, u);
                m.set(p, u);
            }
            "push" => {
                s.push_frame();
                m.0.push(BTreeMap::new());
            }
            "pop" => {
                if m.0.len() > 1 {
                    s.pop_frame();
                    m.0.pop();
                }
            }
            _ => return Err("bad case".into()),
        }
        for k in 0..3 {
            let got = rows(&s, lists[k].attributes());
            if got != want[k] {
                return Err(at(format!("list {k} is {got:?}\n  instead of {:?}", want[k])));
            }
            if lists[k].is_empty() != want[k].is_empty() {
                return Err(at(format!("list {k} says is_empty: {}", lists[k].is_empty())));
            }
        }
        let top = collect(&s, s.iter_top_mappings(), "mappings of the top frame")?;
        if top != *m.top() {
            return Err(at(format!("the mappings of the top frame are {top:?} instead of {:?}", m.top())));
        }
    }
    for (k, l) in lists.into_iter().enumerate() {
        let got = rows(&s, &l.take());
        if got != want[k] {
            return Err(format!("list {k} taken is {got:?}\n  instead of {:?}", want[k]));
        }
    }
    for (t, q, w) in tags {
        let n = drive::qname(&t.name, &s);
        if (n.prefix.clone(), n.uri.clone(), n.name.clone()) != q {
            return Err(format!("tag name is {n:?} instead of {q:?}"));
        }
        let got = rows(&s, t.attributes.attributes());
        if got != w {
            return Err(format!("attributes of tag are {got:?}\n  instead of {w:?}"));
        }
    }
    cov.label_if(moved, "a list was moved");
    cov.label_if(refused, "an attribute was refused");
    cov.label_if(xmlns, "namespaces");
    Ok(added >= 3 && moved)
}

//a C31
fn c31_gen(s: &mut Src) -> Case {
    let mut c = Case::new();
    let one = |s: &mut Src| -> String {
        match s.weighted(&[20, 50, 15, 15]) {
            0 => "none".to_string(),
            1 => s.below(4).to_string(),
            2 => s.pick(&[254usize, 255, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX / 2, usize::MAX - 1]).to_string(),
            _ => s.below(usize::MAX).to_string(),
        }
    };
    for k in ["prefix", "uri", "name"] {
        let a = one(s);
        let b = if s.chance(3, 5) { a.clone() } else { one(s) };
        c.set(k, a);
        c.set(&format!("other {k}"), b);
    }
    let v = gen::any_string(s, 4);
    let w = match s.below(3) {
        0 => gen::any_string(s, 4),
        1 => v.to_uppercase() + " ",
        _ => v.clone(),
    };
    c.with("value", v).with("other value", w)
}

fn hash(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Equality and hashes of two values that are the same exactly if `same`
fn alike<T: Clone + Eq + std::hash::Hash + std::fmt::Debug>(a: &T, b: &T, same: bool) -> Result<(), String> {
    #[allow(clippy::nonminimal_bool)]
    if (a == b) != same || (b == a) != same || (a != b) == same {
        return Err(format!("{a:?} and {b:?} should be {}", if same { "equal" } else { "different" }));
    }
    if same && hash(a) != hash(b) {
        return Err(format!("the hashes of {a:?} differ"));
    }
    if a.clone() != *a || hash(&a.clone()) != hash(a) {
        return Err(format!("the copy of {a:?} differs from it"));
    }
    Ok(())
}

macro_rules! id_check {
    ($t: ident, $s: expr) => {{
        let s: &str = $s;
        let n: Option<usize> = s.parse().ok();
        let id = n.map_or($t::none(), $t::new);
        if id.get() != n || id.is_some() != n.is_some() || id.is_none() != n.is_none() {
            return Err(format!("{} of {s} has {:?}", stringify!($t), id.get()));
        }
        let shown = n.map_or("None".to_string(), |n| n.to_string());
        if id.to_string() != shown {
            return Err(format!("{} of {s} is printed as {id}", stringify!($t)));
        }
        id
    }};
}

fn c31_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let (p1, p2) = (c.get("prefix"), c.get("other prefix"));
    let (u1, u2) = (c.get("uri"), c.get("other uri"));
    let (n1, n2) = (c.get("name"), c.get("other name"));
    let (v1, v2) = (c.get("value"), c.get("other value"));
    let (pa, pb) = (id_check!(NSPrefixId, p1), id_check!(NSPrefixId, p2));
    let (ua, ub) = (id_check!(NSUriId, u1), id_check!(NSUriId, u2));
    let (na, nb) = (id_check!(NSNameId, n1), id_check!(NSNameId, n2));
    alike(&pa, &pb, p1 == p2)?;
    alike(&ua, &ub, u1 == u2)?;
    alike(&na, &nb, n1 == n2)?;
    let (ma, mb) = (NSMap::new(pa, ua), NSMap::new(pb, ub));
    alike(&ma, &mb, p1 == p2 && u1 == u2)?;
    for (m, p, u) in [(ma, pa, ua), (mb, pb, ub)] {
        if m.prefix_id() != p || m.uri_id() != u {
            return Err(format!("{m:?} of {p} and {u}"));
        }
        let t = m.to_string();
        if !t.starts_with(&p.to_string()) || !t.ends_with(&u.to_string()) {
            return Err(format!("the mapping of {p} to {u} is printed as {t:?}"));
        }
    }
    let (a, b) = (Name { prefix: pa, uri: ua, name: na }, Name { prefix: pb, uri: ub, name: nb });
    alike(&a, &b, p1 == p2 && u1 == u2 && n1 == n2)?;
    for n in [a, b] {
        if n.has_prefix() != n.prefix.is_some() || n.has_uri() != n.uri.is_some() {
            return Err(format!("{n:?} has prefix {} has uri {}", n.has_prefix(), n.has_uri()));
        }
        let none = n.prefix.is_none() && n.uri.is_none() && n.name.is_none();
        alike(&n, &Name::none(), none)?;
    }
    let (x, y) = (Attribute { name: a, value: v1.to_string() }, Attribute { name: b, value: v2.to_string() });
    alike(&x, &y, a == b && v1 == v2)?;
    let same = [p1 == p2, u1 == u2, n1 == n2, v1 == v2];
    cov.label(if same.iter().all(|x| *x) {
        "all parts alike"
    } else if same.iter().any(|x| *x) {
        "some parts alike"
    } else {
        "no part alike"
    });
    Ok(same.iter().any(|x| *x) && !same.iter().all(|x| *x))
}
