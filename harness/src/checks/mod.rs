//! The checks, one per property.
use crate::engine::*;
use crate::refmodel::{Body, Er};

mod api;
mod esc;
mod names;
mod parse;
mod xmlout;

static ALL: &[&[CheckDef]] = &[parse::CHECKS, names::CHECKS, esc::CHECKS, xmlout::CHECKS, api::CHECKS];

pub fn find(id: &str) -> Option<&'static CheckDef> {
    ALL.iter().flat_map(|l| l.iter()).find(|c| c.id == id)
}

//a Helpers
/// One line per event
pub fn dump<'a>(l: impl IntoIterator<Item = &'a Body>) -> String {
    let mut r = String::new();
    for b in l {
        r += &format!("{b:?}\n");
    }
    r
}

/// The first line in which two dumps differ
pub fn diff(what: &str, expected: &str, got: &str) -> Result<(), String> {
    if expected == got {
        return Ok(());
    }
    let mut a = expected.lines();
    let mut b = got.lines();
    let mut n = 0;
    loop {
        n += 1;
        let (x, y) = (a.next(), b.next());
        if x == y && x.is_some() {
            continue;
        }
        return Err(format!(
            "{what}: line {n}: expected {}\n  but got {}",
            x.unwrap_or("nothing"),
            y.unwrap_or("nothing")
        ));
    }
}

pub fn no_error(e: &Option<Er>) -> Result<(), String> {
    match e {
        None => Ok(()),
        Some(e) => Err(format!("valid document refused: {e:?}")),
    }
}

pub fn flag(b: bool) -> &'static str {
    if b {
        "1"
    } else {
        "0"
    }
}
