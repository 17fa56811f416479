//! Recorded choices, cases, coverage counts, shrinking.
use std::collections::{BTreeMap, HashSet};

//a Random source
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// A source of choices. Zero is always the simplest choice.
pub struct Src {
    rng: Rng,
    pub rec: Vec<u64>,
    replay: Option<Vec<u64>>,
    /// Scale of what is generated: 0..=100
    pub size: usize,
}

impl Src {
    pub fn fresh(seed: u64, size: usize) -> Self {
        Src { rng: Rng::new(seed), rec: Vec::new(), replay: None, size }
    }
    pub fn replay(choices: Vec<u64>, size: usize) -> Self {
        Src { rng: Rng::new(0), rec: Vec::new(), replay: Some(choices), size }
    }
    fn raw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0) % n,
            None => ((self.rng.next() as u128 * n as u128) >> 64) as u64,
        };
        self.rec.push(v);
        v
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        self.raw(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false is the simpler choice
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        &l[self.below(l.len())]
    }
    /// Index by weight; the first is the simplest
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// A count from 0 to max, biased to small values, that shrinks well
    pub fn count(&mut self, max: usize) -> usize {
        let a = self.below(max + 1);
        let b = self.below(max + 1);
        a.min(b)
    }
    /// Like count, but one in 25 is larger, by up to `more`
    pub fn tail(&mut self, max: usize, more: usize) -> usize {
        let n = self.count(max);
        if self.chance(1, 25) {
            n + self.below(more + 1)
        } else {
            n
        }
    }
}

//a Cases
/// A case: named plain-text fields. This is what a replay file holds.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case(pub Vec<(String, String)>);

impl Case {
    pub fn new() -> Self {
        Case(Vec::new())
    }
    pub fn with<S: Into<String>>(mut self, k: &str, v: S) -> Self {
        self.0.push((k.to_string(), v.into()));
        self
    }
    pub fn set<S: Into<String>>(&mut self, k: &str, v: S) {
        let v = v.into();
        for (a, b) in self.0.iter_mut() {
            if a == k {
                *b = v;
                return;
            }
        }
        self.0.push((k.to_string(), v));
    }
    pub fn get(&self, k: &str) -> &str {
        self.opt(k).unwrap_or("")
    }
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.0.iter().find(|(a, _)| a == k).map(|(_, b)| b.as_str())
    }
    pub fn num(&self, k: &str) -> usize {
        self.get(k).parse().unwrap_or(0)
    }
    pub fn json(&self) -> String {
        let mut s = String::from("{");
        for (i, (k, v)) in self.0.iter().enumerate() {
            if i > 0 {
                s += ", ";
            }
            s += &json_str(k);
            s += ": ";
            s += &json_str(v);
        }
        s + "}"
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0u64;
        for (k, v) in &self.0 {
            h = h.wrapping_mul(31).wrapping_add(hash_str(k));
            h = h.wrapping_mul(31).wrapping_add(hash_str(v));
        }
        h
    }
    /// Parses a flat JSON object of strings (numbers and nested values are not supported)
    pub fn from_json(s: &str) -> Option<Case> {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let ws = |i: &mut usize| {
            while *i < c.len() && c[*i].is_whitespace() {
                *i += 1;
            }
        };
        fn string(c: &[char], i: &mut usize) -> Option<String> {
            if c.get(*i) != Some(&'"') {
                return None;
            }
            *i += 1;
            let mut s = String::new();
            loop {
                match c.get(*i)? {
                    '"' => {
                        *i += 1;
                        return Some(s);
                    }
                    '\\' => {
                        *i += 1;
                        match c.get(*i)? {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let h: String = c.get(*i + 1..*i + 5)?.iter().collect();
                                let mut v = u32::from_str_radix(&h, 16).ok()?;
                                *i += 4;
                                if (0xd800..0xdc00).contains(&v) {
                                    let h: String = c.get(*i + 3..*i + 7)?.iter().collect();
                                    let lo = u32::from_str_radix(&h, 16).ok()?;
                                    v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
                                    *i += 6;
                                }
                                s.push(char::from_u32(v)?);
                            }
                            x => s.push(*x),
                        }
                        *i += 1;
                    }
                    x => {
                        s.push(*x);
                        *i += 1;
                    }
                }
            }
        }
        let mut r = Case::new();
        ws(&mut i);
        if c.get(i) != Some(&'{') {
            return None;
        }
        i += 1;
        loop {
            ws(&mut i);
            if c.get(i) == Some(&'}') {
                return Some(r);
            }
            let k = string(&c, &mut i)?;
            ws(&mut i);
            if c.get(i) != Some(&':') {
                return None;
            }
            i += 1;
            ws(&mut i);
            let v = string(&c, &mut i)?;
            r.0.push((k, v));
            ws(&mut i);
            if c.get(i) == Some(&',') {
                i += 1;
            }
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            '\r' => r += "\\r",
            '\t' => r += "\\t",
            c if (c as u32) < 0x20
                || (0x7f..0xa0).contains(&(c as u32))
                || (0xd800..0xf900).contains(&(c as u32))
                || (0x2000..0x2070).contains(&(c as u32))
                || (c as u32) == 0x85
                || (c as u32) == 0xfeff =>
            {
                r += &format!("\\u{:04x}", c as u32)
            }
            c => r.push(c),
        }
    }
    r + "\""
}

//a Coverage
#[derive(Default)]
pub struct Cov {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Case>,
    current_labels: u64,
}

impl Cov {
    pub fn label(&mut self, l: &str) {
        self.current_labels += 1;
        if let Some(x) = self.labels.get_mut(l) {
            *x += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn record(&mut self, case: &Case, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.nontrivial.insert(case.hash()) {
            // keep the first, and then later ones ever more rarely
            let n = self.nontrivial.len();
            if (n == 1 || n == 100 || n == 1000 || n == 10000) && case.json().len() < 4000 {
                self.samples.push(case.clone());
            }
        }
        self.current_labels = 0;
    }
    pub fn merge(&mut self, o: Cov) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
    }
}

//a Checks
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Called with each case of an enumeration; returns false to stop it
pub type CaseFn<'a> = &'a mut dyn FnMut(Case) -> bool;

pub struct CheckDef {
    pub id: &'static str,
    /// How cases are made, and what makes one non-trivial
    pub rule: &'static str,
    /// Random cases for quick and thorough
    pub quick: u64,
    pub thorough: u64,
    pub gen: fn(&mut Src) -> Case,
    /// Ok(non-trivial) or Err(what failed)
    pub run: fn(&Case, &mut Cov) -> Result<bool, String>,
    /// Enumerated cases, for a shard of shards
    pub enumerate: Option<fn(Tier, usize, usize, CaseFn)>,
    /// The case is decided by its "text" field alone, so that can be shrunk directly
    pub text_only: bool,
    pub assumptions: &'static [&'static str],
}

//a Running a case
pub fn run_case(check: &CheckDef, case: &Case, cov: &mut Cov) -> Result<bool, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (check.run)(case, cov)));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            Err(format!("panic: {m}"))
        }
    }
}

//a Shrinking
/// Shrinks a list of choices, while `fails` holds of the list that results
///
/// `fails` returns the choices actually used and the case
pub fn shrink(
    choices: Vec<u64>,
    case: Case,
    budget: usize,
    fails: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, Case)>,
) -> (Vec<u64>, Case) {
    let mut best = choices;
    let mut best_case = case;
    let mut used = 0;
    fn less(a: &[u64], b: &[u64]) -> bool {
        (a.len(), a) < (b.len(), b)
    }
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, best_case: &mut Case, used: &mut usize| {
        if *used >= budget {
            return false;
        }
        *used += 1;
        if let Some((rec, c)) = fails(cand) {
            if less(&rec, best) {
                *best = rec;
                *best_case = c;
                return true;
            }
        }
        false
    };
    loop {
        let mut improved = false;
        // delete chunks
        let mut k = best.len().max(1);
        while k > 0 {
            let mut i = 0;
            while i + k <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + k);
                if attempt(&cand, &mut best, &mut best_case, &mut used) {
                    improved = true;
                } else {
                    i += k;
                }
                if used >= budget {
                    return (best, best_case);
                }
            }
            k /= 2;
        }
        // zero chunks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..i + k].iter_mut().for_each(|x| *x = 0);
                    if attempt(&cand, &mut best, &mut best_case, &mut used) {
                        improved = true;
                    }
                }
                i += k;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if attempt(&cand, &mut best, &mut best_case, &mut used) {
                    improved = true;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        // lower one value and delete what follows it (lengths of lists)
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                for k in 1..=4 {
                    if i + 1 + k <= best.len() && best[i] > 0 {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        cand.drain(i + 1..i + 1 + k);
                        if attempt(&cand, &mut best, &mut best_case, &mut used) {
                            improved = true;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved || used >= budget {
            return (best, best_case);
        }
    }
}

/// Shrinks a text by deleting runs of characters and simplifying characters
pub fn shrink_text(text: &str, budget: usize, fails: &mut dyn FnMut(&str) -> bool) -> String {
    let mut best: Vec<char> = text.chars().collect();
    let mut used = 0;
    loop {
        let mut improved = false;
        let mut k = best.len().max(1);
        while k > 0 {
            let mut i = 0;
            while i + k <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + k);
                used += 1;
                if used > budget {
                    return best.into_iter().collect();
                }
                if fails(&cand.iter().collect::<String>()) {
                    best = cand;
                    improved = true;
                } else {
                    i += k;
                }
            }
            k /= 2;
        }
        for i in 0..best.len() {
            for c in ['a', ' ', '\n'] {
                if best[i] == c {
                    break;
                }
                let mut cand = best.clone();
                cand[i] = c;
                used += 1;
                if used > budget {
                    return best.into_iter().collect();
                }
                if fails(&cand.iter().collect::<String>()) {
                    best = cand;
                    improved = true;
                    break;
                }
            }
        }
        if !improved {
            return best.into_iter().collect();
        }
    }
}
