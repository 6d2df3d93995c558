// Shared by the harness crates: PRNG, JSON output, panic capture, TLC output parsing.
#![allow(dead_code)]
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

/// Run the code under test; a panic is data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jarr<T: std::fmt::Display>(v: &[T]) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", x);
    }
    o.push(']');
    o
}
pub fn cps(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

/// A TLA+ value made of tuples and integers, as TLC prints it.
#[derive(Debug, Clone, PartialEq)]
pub enum V {
    I(i64),
    T(Vec<V>),
}
impl V {
    pub fn i(&self) -> i64 {
        match self {
            V::I(n) => *n,
            _ => panic!("not an int: {:?}", self),
        }
    }
    pub fn t(&self) -> &[V] {
        match self {
            V::T(v) => v,
            _ => panic!("not a tuple: {:?}", self),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.t().iter().map(|x| x.i()).collect()
    }
}
fn pv(b: &[u8], p: &mut usize) -> Option<V> {
    while *p < b.len() && (b[*p] == b' ' || b[*p] == b',') {
        *p += 1;
    }
    let close: &[u8] = if b[*p..].starts_with(b"<<") {
        b">>"
    } else if b[*p..].starts_with(b"{") {
        b"}" // a set: its elements in TLC's order
    } else {
        b""
    };
    if !close.is_empty() {
        *p += close.len();
        let mut v = vec![];
        loop {
            while *p < b.len() && (b[*p] == b' ' || b[*p] == b',') {
                *p += 1;
            }
            if *p >= b.len() {
                return None;
            }
            if b[*p..].starts_with(close) {
                *p += close.len();
                return Some(V::T(v));
            }
            v.push(pv(b, p)?);
        }
    }
    if b[*p..].starts_with(b"TRUE") {
        *p += 4;
        return Some(V::I(1));
    }
    if b[*p..].starts_with(b"FALSE") {
        *p += 5;
        return Some(V::I(0));
    }
    let s = *p;
    if b[*p] == b'-' {
        *p += 1;
    }
    while *p < b.len() && b[*p].is_ascii_digit() {
        *p += 1;
    }
    std::str::from_utf8(&b[s..*p]).ok()?.parse().ok().map(V::I)
}
/// Parse a line `"<<...>>"` printed with PrintT(ToString(..)); None for other lines.
pub fn tlc_line(l: &str) -> Option<V> {
    let l = l.trim();
    if !(l.starts_with("\"<<") && l.ends_with(">>\"")) {
        return None;
    }
    let b = &l.as_bytes()[1..l.len() - 1];
    let mut p = 0;
    match pv(b, &mut p) {
        Some(v) if p == b.len() => Some(v),
        // a behaviour that cannot be read must not be skipped
        _ => panic!("unreadable line from TLC: {}", l),
    }
}

/// Runs of one property in the specification's reference data (spec/ucd/ref, directory in UCD_REF).
pub fn reference(prop: &str) -> Vec<(u32, u32, String)> {
    let dir = std::env::var("UCD_REF").expect("UCD_REF");
    let text = std::fs::read_to_string(format!("{}/props.ndjson", dir)).unwrap();
    let head = format!("{{\"p\":\"{}\",", prop);
    let line = text.lines().find(|l| l.starts_with(&head)).expect("reference property");
    let mut out = vec![];
    for part in line.split("[").skip(2) {
        let mut f = part.splitn(3, ',');
        let lo = f.next().unwrap().parse().unwrap();
        let hi = f.next().unwrap().parse().unwrap();
        let v = f.next().unwrap();
        let a = v.find('"').unwrap();
        let b = v.rfind("\"]").unwrap();
        out.push((lo, hi, v[a + 1..b].to_string()));
    }
    out
}
/// The characters of each named class, in the order of `names` (index 0 is unused), by the reference.
pub fn ref_pools(prop: &str, names: &[&str]) -> Vec<Vec<char>> {
    let mut p = vec![vec![]; names.len() + 1];
    for (lo, hi, v) in reference(prop) {
        let i = names.iter().position(|x| *x == v).unwrap_or_else(|| panic!("class {}", v)) + 1;
        p[i].extend((lo..=hi).filter_map(std::char::from_u32));
    }
    p
}

pub fn arg(n: usize) -> String {
    std::env::args().nth(n).unwrap_or_default()
}
pub fn argn(n: usize) -> usize {
    arg(n).parse().unwrap_or_else(|_| panic!("argument {} must be a number", n))
}

/// Disagreements found while replaying: printed one per line as `BAD <json>`, capped.
pub struct Report {
    pub n: u64,
    pub bad: u64,
    shown: std::collections::HashMap<String, u32>,
}
impl Report {
    pub fn new() -> Report {
        Report { n: 0, bad: 0, shown: Default::default() }
    }
    pub fn bad(&mut self, json: String) {
        self.bad += 1;
        // at most so many of each kind: one kind never hides another
        let k = self.shown.entry(json.split(',').next().unwrap_or("").to_string()).or_insert(0);
        *k += 1;
        if *k <= 40 {
            println!("BAD {}", json);
        }
    }
    pub fn done(&self) {
        println!("DONE n={} bad={}", self.n, self.bad);
    }
}

pub fn stdin_lines() -> Vec<String> {
    use std::io::BufRead;
    std::io::BufReader::new(std::io::stdin()).lines().map(|l| l.unwrap()).collect()
}

/// What every iterator promises, whatever it overrides: for `want` items (compared by `key`), after any
/// number of steps, each way of reading on gives the items that are left, and the hint admits them.
pub fn laws<I: Iterator, K: PartialEq + Clone + std::fmt::Debug>(mk: &dyn Fn() -> I, key: &dyn Fn(I::Item) -> K, want: &[K]) -> Result<(), String> {
    let n = want.len();
    // an iteration that does not end is noticed by the number of its items
    let seen = std::cell::Cell::new(0usize);
    let key = &|x| {
        seen.set(seen.get() + 1);
        assert!(seen.get() < 1_000_000 + 1_000 * n * n, "the iteration does not end");
        key(x)
    };
    if mk().take(n + 2).count() != n { return Err(format!("{} of {} items", mk().take(n + 2).count(), n)); }
    for k in steps(n) {
        let at = || {
            let mut it = mk();
            for _ in 0..k { it.next(); }
            it
        };
        let left = &want[k..];
        let same = |what: &str, got: Option<K>, want: Option<&K>| if got.as_ref() == want { Ok(()) } else { Err(format!("after {} of {}: {} gives {:?} not {:?}", k, n, what, got, want)) };
        let all = |what: &str, got: Vec<K>| if got == left { Ok(()) } else { Err(format!("after {} of {}: {} gives {:?} not {:?}", k, n, what, got, left)) };
        let (lo, hi) = at().size_hint();
        if lo > left.len() || hi.map_or(false, |h| h < left.len()) { return Err(format!("after {} of {}: size_hint {:?}", k, n, (lo, hi))); }
        same("last", at().last().map(key), left.last())?;
        if at().count() != left.len() { return Err(format!("after {} of {}: count {}", k, n, at().count())); }
        all("collect", at().map(key).collect())?;
        let mut v = vec![];
        at().for_each(|x| v.push(key(x)));
        all("for_each", v)?;
        let mut v = vec![];
        for x in at() { v.push(key(x)); }
        all("for", v)?;
        for j in nths(left.len()) {
            let mut it = at();
            same(&format!("nth({})", j), it.nth(j).map(key), left.get(j))?;
            let (lo, hi) = it.size_hint();
            let rest = left.len().saturating_sub(j + 1);
            if lo > rest || hi.map_or(false, |h| h < rest) { return Err(format!("after {} of {} and nth({}): size_hint {:?}", k, n, j, (lo, hi))); }
            same(&format!("next after nth({})", j), it.next().map(key), left.get(j + 1))?;
            let mut it = at();
            // a search stops after what it finds
            let mut seen = 0;
            let got = it.find(|_| { seen += 1; seen == j + 1 }).map(key);
            same("find", got, left.get(j))?;
            same("next after find", it.next().map(key), left.get(j + 1))?;
            let v: Vec<K> = at().skip(j).map(key).collect();
            if v != left[j.min(left.len())..] { return Err(format!("after {} of {}: skip({}) gives {:?}", k, n, j, v)); }
            let v: Vec<K> = at().step_by(j + 1).map(key).collect();
            if v != left.iter().step_by(j + 1).cloned().collect::<Vec<_>>() { return Err(format!("after {} of {}: step_by({}) gives {:?}", k, n, j + 1, v)); }
        }
    }
    Ok(())
}
/// The same from both ends.
pub fn laws_de<I: DoubleEndedIterator, K: PartialEq + Clone + std::fmt::Debug>(mk: &dyn Fn() -> I, key: &dyn Fn(I::Item) -> K, want: &[K]) -> Result<(), String> {
    laws(mk, key, want)?;
    let mut back = want.to_vec();
    back.reverse();
    laws(&|| mk().rev(), key, &back).map_err(|e| format!("reversed, {}", e))?;
    let n = want.len();
    for k in steps(n) {
        for b in steps(n - k) {
            let at = || {
                let mut it = mk();
                for _ in 0..k { it.next(); }
                for _ in 0..b { it.next_back(); }
                it
            };
            let left = &want[k..n - b];
            let err = |what: &str, got: &dyn std::fmt::Debug| Err(format!("after {} and {} of {}: {} gives {:?}", k, b, n, what, got));
            let (lo, hi) = at().size_hint();
            if lo > left.len() || hi.map_or(false, |h| h < left.len()) { return err("size_hint", &(lo, hi)); }
            if at().count() != left.len() { return err("count", &at().count()); }
            let g = at().last().map(key);
            if g.as_ref() != left.last() { return err("last", &g); }
            let mut v: Vec<K> = at().rfold(vec![], |mut v, x| { v.push(key(x)); v });
            v.reverse();
            if v != left { return err("rfold", &v); }
            for j in nths(left.len()) {
                let mut it = at();
                let g = it.nth_back(j).map(key);
                if g.as_ref() != left.len().checked_sub(j + 1).map(|i| &left[i]) { return err("nth_back", &(j, g)); }
                let v: Vec<K> = it.map(key).collect();
                if v != left[..left.len().saturating_sub(j + 1)] { return err("after nth_back", &(j, v)); }
                let mut it = at();
                let g = it.nth(j).map(key);
                if g.as_ref() != left.get(j) { return err("nth", &(j, g)); }
                let v: Vec<K> = it.map(key).collect();
                if v != left[(j + 1).min(left.len())..] { return err("after nth", &(j, v)); }
            }
        }
    }
    Ok(())
}
fn steps(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 2, 3, n / 2, n.saturating_sub(1), n].iter().cloned().filter(|&k| k <= n).collect();
    v.sort();
    v.dedup();
    v
}
fn nths(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, n + 7];
    v.sort();
    v.dedup();
    v
}
