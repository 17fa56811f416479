//! Properties of escapes and references.
use crate::engine::*;
use crate::gen;
use hml_rs::escape::{self, Entities};

pub static CHECKS: &[CheckDef] = &[
    CheckDef {
        id: "C16",
        rule: "strings of special, plain and multi-byte characters, each with a set of optional characters; all strings to length 4 over 9 characters with all 32 sets; non-trivial: something is escaped and something is not",
        quick: 9_600_000,
        thorough: 48_000_000,
        gen: c16_gen,
        run: c16_run,
        enumerate: Some(c16_enumerate),
        text_only: false,
        assumptions: &[],
    },
    CheckDef {
        id: "C17",
        rule: "sequences of text and references, valid and not; all strings to length 5 over 12 characters as a reference; all Unicode scalar values in decimal and hexadecimal; non-trivial: a reference is replaced, and something else is not",
        quick: 3_600_000,
        thorough: 18_000_000,
        gen: c17_gen,
        run: c17_run,
        enumerate: Some(c17_enumerate),
        text_only: false,
        assumptions: &["each '&' starts a reference ended by ';'"],
    },
    CheckDef {
        id: "C30",
        rule: "any strings, in particular with '&' that starts no reference; all strings to length 5 over 9 characters; repeated pieces to 64 KB; non-trivial: an '&' without a ';' after it, or two in a row before one",
        quick: 4_800_000,
        thorough: 24_000_000,
        gen: c30_gen,
        run: c30_run,
        enumerate: Some(c30_enumerate),
        text_only: true,
        assumptions: &[],
    },
    #[cfg(hml_verif)]
    CheckDef {
        id: "C18",
        rule: "sequences of text and escapes, valid and not; all strings to length 5 after a backslash over 13 characters; all numbers of one to six hexadecimal digits at the edges; all Unicode scalar values; non-trivial: an escape is expanded, or one refused",
        quick: 3_600_000,
        thorough: 18_000_000,
        gen: c18::gen,
        run: c18::run,
        enumerate: Some(c18::enumerate),
        text_only: false,
        assumptions: &[],
    },
];

/// Sometimes makes a text much longer, by repeating a piece somewhere in it
fn stretch(s: &mut Src, t: String, pieces: &[&str]) -> String {
    if !s.chance(1, 200) {
        return t;
    }
    let n = match s.weighted(&[30, 50, 15, 5]) {
        0 => 20 + s.below(120),
        1 => 240 + s.below(40),
        2 => 1000 + s.below(4000),
        _ => 65_500 + s.below(100),
    };
    let at: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
    let i = *s.pick(&at);
    format!("{}{}{}", &t[..i], s.pick(pieces).repeat(n), &t[i..])
}

//a C16
const SETS: [(usize, char, &str); 5] = [
    (escape::ESCAPE_QUOTE, '"', "&quot;"),
    (escape::ESCAPE_APOS, '\'', "&apos;"),
    (escape::ESCAPE_GT, '>', "&gt;"),
    (escape::ESCAPE_LF, '\n', "&#xA;"),
    (escape::ESCAPE_CR, '\r', "&#xD;"),
];

pub fn c16_gen(s: &mut Src) -> Case {
    let n = s.count(4 + s.size / 2);
    let mut t = String::new();
    for _ in 0..n {
        match s.weighted(&[40, 40, 20]) {
            0 => t.push(*s.pick(&['a', '&', '<', '>', '"', '\'', '\n', '\r', '\t', ';', '#'])),
            1 => t.push(gen::any_char(s)),
            _ => t += s.pick(&["&amp;", "&lt;", "&#65;", "é", "中", "😁", "\u{10ffff}", "]]>", "&amp;amp;"]),
        }
    }
    let t = stretch(s, t, &["a", "é", "&", "<", "\"", "\r", "😁", "a>"]);
    let mut m: Vec<&str> = Vec::new();
    for x in ["quote", "apos", "gt", "lf", "cr"] {
        if s.chance(1, 2) {
            m.push(x);
        }
    }
    Case::new().with("text", t).with("set", m.join(" "))
}

fn c16_enumerate(_tier: Tier, shard: usize, n: usize, f: CaseFn) {
    let l = ['a', '&', '<', '>', '"', '\'', '\n', '\r', 'é'];
    let mut i = 0;
    for len in 0..=4u32 {
        for x in 0..9usize.pow(len) {
            i += 1;
            if i % n != shard {
                continue;
            }
            let mut x = x;
            let mut t = String::new();
            for _ in 0..len {
                t.push(l[x % 9]);
                x /= 9;
            }
            if !f(Case::new().with("text", t).with("set", "all sets")) {
                return;
            }
        }
    }
    let mut c = 0u32;
    while c <= 0x10ffff {
        // every character, 64 at a time
        if (c / 64) as usize % n == shard {
            let t: String = (c..c + 64).filter_map(char::from_u32).collect();
            if !f(Case::new().with("text", t).with("set", "quote apos gt lf cr")) {
                return;
            }
        }
        c += 64;
    }
}

/// `asked` has a bit for each of SETS, `mask` is what the library calls them
fn c16_one(t: &str, asked: usize, mask: usize) -> Result<(bool, bool), String> {
    let optional = |c: char| SETS.iter().enumerate().find(|(i, x)| x.1 == c && asked >> i & 1 != 0).map(|x| x.1 .2);
    let mut want = String::new();
    let (mut any, mut other) = (false, false);
    for c in t.chars() {
        let e = match c {
            '&' => Some("&amp;"),
            '<' => Some("&lt;"),
            _ => optional(c),
        };
        match e {
            Some(e) => {
                any = true;
                want += e;
            }
            None => {
                other = true;
                want.push(c);
            }
        }
    }
    let got = escape::escape(t, mask);
    let expect = any.then_some(want.clone());
    if got != expect {
        return Err(format!("with set {mask:#x} expected {expect:?}\n  but got {got:?}"));
    }
    // back
    if let Some(g) = &got {
        let back = Entities::xml().replace_entities(true, g);
        if back.as_deref() != Some(t) {
            return Err(format!("{g:?} expands to {back:?}"));
        }
    }
    // the function for strings known to need it, from each place that it may start at
    if any {
        let first = t
            .char_indices()
            .find(|(_, c)| matches!(c, '&' | '<') || optional(*c).is_some())
            .map_or(0, |x| x.0);
        for i in [0, first] {
            let got = escape::escape_required(t.as_bytes(), mask, i, t.len());
            if got.as_ref() != Some(&want) {
                return Err(format!("from {i} with set {mask:#x} expected {want:?}\n  but got {got:?}"));
            }
        }
    }
    Ok((any, other))
}

fn c16_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let t = c.get("text");
    let set = c.get("set");
    if set == "all sets" {
        let mut r = false;
        for asked in 0..32 {
            let m = (0..5).filter(|i| asked >> i & 1 != 0).fold(0, |m, i| m | SETS[i].0);
            let (a, b) = c16_one(t, asked, m)?;
            r |= a && b;
        }
        c16_one(t, 31, escape::ESCAPE_ATTR)?;
        c16_one(t, 0, escape::ESCAPE_PCDATA)?;
        cov.label("all sets");
        return Ok(r);
    }
    let (mut m, mut asked) = (0, 0);
    for (i, x) in ["quote", "apos", "gt", "lf", "cr"].iter().enumerate() {
        if set.split(' ').any(|y| y == *x) {
            m |= SETS[i].0;
            asked |= 1 << i;
        }
    }
    let (a, b) = c16_one(t, asked, m)?;
    cov.label(if a { "something to escape" } else { "nothing to escape" });
    cov.label_if(!t.is_ascii(), "multi-byte characters");
    Ok(a && b)
}

//a C17
pub fn reference(s: &mut Src) -> String {
    match s.weighted(&[25, 20, 20, 15, 10, 10]) {
        0 => format!("&{};", s.pick(&["amp", "lt", "gt", "apos", "quot", "AMP", "LT", "GT", "APOS", "QUOT"])),
        1 => {
            let c = gen::any_char(s) as u32;
            let z = if s.chance(1, 100) { 10 + s.below(300) } else { s.count(4) };
            let z = "0".repeat(z);
            match s.below(3) {
                0 => format!("&#{z}{c};"),
                1 => format!("&#x{z}{c:x};"),
                _ => format!("&#x{z}{c:X};"),
            }
        }
        2 => {
            let v = if s.chance(1, 2) {
                *s.pick(&[0u128, 0x41, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 38, 59])
            } else {
                // about a multiple of a power of two, where arithmetic might overflow
                let k = *s.pick(&[7, 8, 15, 16, 20, 21, 24, 31, 32, 33, 36, 40, 63, 64, 65, 68]);
                let m = 1 + s.below(12) as u128;
                let d = *s.pick(&[0u128, 1, 2, 0x42, 0x43, 100, 0xd801]);
                (m << k) + d - 1
            };
            if s.chance(1, 2) {
                format!("&#{v};")
            } else {
                format!("&#x{v:x};")
            }
        }
        3 => s
            .pick(&[
                "&#;", "&#x;", "&;", "&#X41;", "&#x4g;", "&#4a;", "&#xx41;", "&#4x1;", "&x41;", "&41;", "&Amp;", "&amp ;", "& amp;",
                "&ampx;", "&am;", "&nbsp;", "&#-1;", "&#+5;", "&# 65;", "&#65 ;", "&##65;", "&é;", "&#é;", "&#x1F600;", "&#128512;",
                "&a#65;", "&ax41;", "&#1_0;", "&#x-41;", "&ab;", "&f0;", "&#xé;", "&#x41é;",
            ])
            .to_string(),
        4 => {
            // digits of any length
            let n = 1 + s.count(22);
            let set: &[char] = match s.below(3) {
                0 => &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'],
                1 => &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'A', 'B', 'C', 'D', 'E', 'F'],
                _ => &['0', '1', '9', 'a', 'F', '4', 'x'],
            };
            let d: String = (0..n).map(|_| *s.pick(set)).collect();
            if s.chance(1, 2) {
                format!("&#{d};")
            } else {
                format!("&#x{d};")
            }
        }
        _ => {
            let n = s.count(5);
            let d: String = (0..n).map(|_| gen::any_char(s)).filter(|c| !matches!(c, '&' | ';')).collect();
            format!("&{d};")
        }
    }
}

pub fn c17_gen(s: &mut Src) -> Case {
    let n = s.count(2 + s.size / 5);
    let mut t = String::new();
    for _ in 0..n {
        match s.weighted(&[50, 30, 20]) {
            0 => t += &reference(s),
            1 => t += &gen::any_string(s, 5).replace('&', ";"),
            _ => t += s.pick(&["a", ";", "#38;", "amp;", "é", "#x26;"]),
        }
    }
    let t = stretch(s, t, &["a", "é", ";", "&amp;", "&#65;", "&#x1F600;", "&no;", "中", "0", "x"]);
    Case::new().with("text", t)
}

fn c17_enumerate(tier: Tier, shard: usize, n: usize, f: CaseFn) {
    let l = ['#', 'x', '0', '1', '6', 'a', 'F', 'g', 'l', 't', ' ', 'X'];
    let max = if tier == Tier::Quick { 5 } else { 6 };
    let mut i = 0;
    for len in 0..=max {
        for x in 0..12usize.pow(len) {
            i += 1;
            if i % n != shard {
                continue;
            }
            let mut x = x;
            let mut t = String::from("&");
            for _ in 0..len {
                t.push(l[x % 12]);
                x /= 12;
            }
            t.push(';');
            if !f(Case::new().with("text", t)) {
                return;
            }
        }
    }
    for c in 0..0x110100u32 {
        if c as usize % n == shard && !f(Case::new().with("text", format!("a&#{c};b&#x{c:x};&#x{c:X};é&#0{c};"))) {
            return;
        }
    }
}

/// What a reference (without & and ;) stands for
fn c17_value(body: &str, named: bool) -> Option<char> {
    let v = match body {
        "amp" | "AMP" => '&',
        "lt" | "LT" => '<',
        "gt" | "GT" => '>',
        "apos" | "APOS" => '\'',
        "quot" | "QUOT" => '"',
        _ => {
            let d = body.strip_prefix('#')?;
            let (d, radix) = match d.strip_prefix('x') {
                Some(d) => (d, 16),
                None => (d, 10),
            };
            if d.is_empty() || !d.chars().all(|c| c.is_digit(radix)) {
                return None;
            }
            let d = d.trim_start_matches('0');
            if d.is_empty() {
                return Some('\0');
            }
            if d.len() > 8 {
                return None;
            }
            return char::from_u32(u32::from_str_radix(d, radix).ok()?);
        }
    };
    named.then_some(v)
}

fn c17_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let t = c.get("text");
    let mut result = false;
    for (named, e, what) in [
        (true, Entities::xml(), "named entities"),
        (false, Entities::xml(), "named entities off"),
        (true, Entities::default(), "no named entities"),
    ] {
        let mut want = String::new();
        let (mut any, mut other) = (false, false);
        let mut rest = t;
        while !rest.is_empty() {
            if let Some(r) = rest.strip_prefix('&') {
                let Some(e) = r.find(';') else {
                    cov.label("excluded: reference without end");
                    return Ok(false);
                };
                let is_xml = what != "no named entities";
                match c17_value(&r[..e], named && is_xml) {
                    Some(c) => {
                        any = true;
                        want.push(c);
                    }
                    None => {
                        other = true;
                        want += &rest[..e + 2];
                    }
                }
                rest = &r[e + 1..];
            } else {
                other = true;
                let e = rest.find('&').unwrap_or(rest.len());
                want += &rest[..e];
                rest = &rest[e..];
            }
        }
        let expect = any.then_some(want);
        let got = e.replace_entities(named, t);
        if got != expect {
            return Err(format!("{what}: expected {expect:?}\n  but got {got:?}"));
        }
        result |= any && other;
        cov.label_if(named && any, "something replaced");
        cov.label_if(named && !any, "nothing replaced");
    }
    Ok(result)
}

//a C30
fn c30_gen(s: &mut Src) -> Case {
    let n = s.count(2 + s.size / 5);
    let mut t = String::new();
    for _ in 0..n {
        match s.weighted(&[30, 20, 50]) {
            0 => {
                // a reference, whole or cut off
                let r: Vec<char> = reference(s).chars().collect();
                let k = if s.chance(1, 2) { r.len() } else { s.below(r.len() + 1) };
                t.extend(&r[..k]);
            }
            1 => t += &gen::any_string(s, 5),
            _ => t += s.pick(&["&", ";", "#", "x", "&&", "&#", "&#x", "a", "é", "<", "\u{10ffff}", "9", "F", "amp"]),
        }
    }
    let t = stretch(s, t, &["&", "é", ";", "&#", "&;", "9", "&#x", "F", "<"]);
    Case::new().with("text", t)
}

fn c30_enumerate(tier: Tier, shard: usize, n: usize, f: CaseFn) {
    let l = ['&', ';', '#', 'x', '9', 'F', 'é', 'a', '<'];
    let max = if tier == Tier::Quick { 5 } else { 7 };
    let mut i = 0;
    for len in 0..=max {
        for x in 0..9usize.pow(len) {
            i += 1;
            if i % n != shard {
                continue;
            }
            let mut x = x;
            let mut t = String::new();
            for _ in 0..len {
                t.push(l[x % 9]);
                x /= 9;
            }
            if !f(Case::new().with("text", t)) {
                return;
            }
        }
    }
}

fn c30_run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
    let t = c.get("text");
    let sound = |what: &str, r: &Option<String>, most: usize| -> Result<(), String> {
        let Some(r) = r else { return Ok(()) };
        if std::str::from_utf8(r.as_bytes()).is_err() {
            return Err(format!("{what}: not Unicode: {:?}", r.as_bytes()));
        }
        if r.len() > most {
            return Err(format!("{what}: {} bytes from {}", r.len(), t.len()));
        }
        Ok(())
    };
    for set in [escape::ESCAPE_PCDATA, escape::ESCAPE_ATTR, escape::ESCAPE_LF, usize::MAX] {
        sound("escape", &escape::escape(t, set), t.len() * 6)?;
    }
    let before = t.find('&');
    for (named, e) in [(true, Entities::xml()), (false, Entities::xml()), (true, Entities::default())] {
        let r = e.replace_entities(named, t);
        sound("expansion", &r, t.len())?;
        match (&r, before) {
            (Some(r), None) => return Err(format!("there is no reference, but got {r:?}")),
            (Some(r), Some(b)) if !r.as_bytes().starts_with(&t.as_bytes()[..b]) => {
                return Err(format!("the text before the first '&' has changed: {r:?}"));
            }
            (Some(r), _) if r == t => return Err("nothing is replaced, but the text is returned".into()),
            _ => {}
        }
        cov.label(if r.is_some() { "something replaced" } else { "nothing replaced" });
    }
    let (mut open, mut odd) = (false, false);
    for x in t.chars() {
        match x {
            '&' => {
                odd |= open;
                open = true;
            }
            ';' => open = false,
            _ => {}
        }
    }
    Ok(odd || open)
}

//a C18
#[cfg_attr(not(hml_verif), allow(dead_code))]
pub mod c18 {
    use super::*;
    #[cfg(hml_verif)]
    use hml_rs::hml::escape::Escapable;

    pub fn item(s: &mut Src) -> String {
        match s.weighted(&[25, 15, 20, 15, 15, 10]) {
            0 => s.pick(&["\\0", "\\t", "\\r", "\\n", "\\'", "\\\"", "\\\\"]).to_string(),
            1 => {
                let v = s.below(0x90);
                if s.chance(1, 2) {
                    format!("\\x{v:02x}")
                } else {
                    format!("\\x{v:02X}")
                }
            }
            2 => {
                let c = gen::any_char(s) as u32;
                let w = s.below(7);
                format!("\\u{{{c:0w$x}}}")
            }
            3 => {
                let v = *s.pick(&[0u32, 0x7f, 0x80, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10ffff, 0x110000, 0xffffff, 0x1000000]);
                format!("\\u{{{v:x}}}")
            }
            4 => s
                .pick(&[
                    "\\", "\\x", "\\x4", "\\u", "\\u{", "\\u{}", "\\u{4", "\\u{0000041}", "\\u41", "\\u{4g}", "\\xg0", "\\x0g", "\\a",
                    "\\é", "\\xé", "\\x4é", "\\u{é}", "\\N", "\\X41", "\\U{41}", "\\u{ 41}", "\\u{41 }", "\\u{_41}", "\\\n", "\\ ",
                    "\\x+1", "\\u{+1}", "\\1",
                ])
                .to_string(),
            _ => "\\".to_string() + &gen::any_string(s, 4),
        }
    }

    pub fn gen(s: &mut Src) -> Case {
        let n = s.count(2 + s.size / 6);
        let mut t = String::new();
        for _ in 0..n {
            match s.weighted(&[50, 35, 15]) {
                0 => {
                    // mostly valid, or all would be refused
                    let mut x = item(s);
                    if s.chance(4, 5) && expand(&x).is_none() {
                        x = "\\n".into();
                    }
                    t += &x
                }
                1 => t += &gen::any_string(s, 5).replace('\\', "/"),
                _ => t += s.pick(&["a", "}", "{", "é", "41", "n"]),
            }
        }
        let t = stretch(s, t, &["a", "é", "\\n", "\\u{e9}", "\\x41", "\\\\", "中", "}", "0", "😁"]);
        Case::new().with("text", t)
    }

    pub fn enumerate(tier: Tier, shard: usize, n: usize, f: CaseFn) {
        let l = ['\\', 'u', '{', '}', '0', '4', 'x', '8', 'f', 'D', 'n', 'g', 'é'];
        let max = if tier == Tier::Quick { 5 } else { 6 };
        let mut i = 0;
        for len in 0..=max {
            for x in 0..13usize.pow(len) {
                i += 1;
                if i % n != shard {
                    continue;
                }
                let mut x = x;
                let mut t = String::from("\\");
                for _ in 0..len {
                    t.push(l[x % 13]);
                    x /= 13;
                }
                if !f(Case::new().with("text", t)) {
                    return;
                }
            }
        }
        for c in 0..0x110100u32 {
            if c as usize % n == shard && !f(Case::new().with("text", format!("é\\u{{{c:x}}}a\\u{{{c:06X}}}"))) {
                return;
            }
        }
    }

    fn hex(s: &[char]) -> Option<u32> {
        let mut v = 0;
        for c in s {
            v = v * 16 + c.to_digit(16)?;
        }
        Some(v)
    }

    pub fn expand(t: &str) -> Option<String> {
        let c: Vec<char> = t.chars().collect();
        let mut r = String::new();
        let mut i = 0;
        while i < c.len() {
            if c[i] != '\\' {
                r.push(c[i]);
                i += 1;
                continue;
            }
            match c.get(i + 1)? {
                '0' => r.push('\0'),
                't' => r.push('\t'),
                'r' => r.push('\r'),
                'n' => r.push('\n'),
                '\'' => r.push('\''),
                '"' => r.push('"'),
                '\\' => r.push('\\'),
                'x' => {
                    let v = hex(c.get(i + 2..i + 4)?)?;
                    if v > 0x7f {
                        return None;
                    }
                    r.push(v as u8 as char);
                    i += 2;
                }
                'u' => {
                    if *c.get(i + 2)? != '{' {
                        return None;
                    }
                    let e = i + 3 + c[i + 3..].iter().position(|x| *x == '}')?;
                    if e == i + 3 || e > i + 9 {
                        return None;
                    }
                    r.push(char::from_u32(hex(&c[i + 3..e])?)?);
                    i = e - 1;
                }
                _ => return None,
            }
            i += 2;
        }
        Some(r)
    }

    #[cfg(hml_verif)]
    pub fn run(c: &Case, cov: &mut Cov) -> Result<bool, String> {
        let t = c.get("text");
        let want = expand(t);
        let x = Escapable::new(t);
        let got = x.as_ref().ok().map(|x| x.as_ref().as_bytes().to_vec());
        if let Some(g) = &got {
            if std::str::from_utf8(g).is_err() {
                return Err(format!("the result is not Unicode: {g:?}"));
            }
        }
        if got != want.as_ref().map(|w| w.as_bytes().to_vec()) {
            let g = got.map(|g| String::from_utf8_lossy(&g).to_string());
            return Err(format!("expected {want:?}\n  but got {g:?}"));
        }
        let y: Result<Escapable, _> = t.try_into();
        if y.is_ok() != x.is_ok() || y.is_ok_and(|y| Some(y.as_ref()) != want.as_deref()) {
            return Err("conversion differs from construction".into());
        }
        cov.label(match &want {
            None => "refused",
            Some(_) if t.contains('\\') => "expanded",
            _ => "without escapes",
        });
        cov.label_if(!t.is_ascii(), "multi-byte characters");
        Ok(t.contains('\\'))
    }
}
