// Conformance driver for unic-segment.
//   iter g|w DFA SEED LEN RANDOM        class strings up to LEN (all) and RANDOM long strings, from both ends
//   cursor DFA SEED LEN RANDOM [a,b,c]  chunked cursor dialogues
//   record SEED NCUR NITER OUT          traces for the trace specification
//   chars g|w DFA SEED CTX              every character of Unicode in CTX random contexts
#[path = "../../common/util.rs"]
mod util;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use unic_segment::{GraphemeCursor, GraphemeIncomplete, GraphemeIndices, Graphemes, WordBoundIndices, WordBounds, Words};
use util::*;

const GN: [&str; 18] = ["CR", "LF", "CN", "EX", "ZWJ", "RI", "PP", "SM", "L", "V", "T", "LV", "LVT", "EB", "EBG", "EM", "GAZ", "XX"];
const WN: [&str; 22] = ["CR", "LF", "NL", "Extend", "ZWJ", "RI", "FO", "KA", "HL", "LE", "SQ", "DQ", "MB", "ML", "MN", "NU", "EX", "EB", "EM", "GAZ", "EBG", "XX"];
fn gpools() -> Vec<Vec<char>> {
    ref_pools("GCB", &GN)
}
fn wpools() -> Vec<Vec<char>> {
    ref_pools("WB", &WN)
}

/// The finite transition system TLC emitted.
struct Dfa {
    t: HashMap<(i64, usize), (i64, i64, i64)>, // (state, class) -> (out1, out2, next)
    classes: usize,
}
fn load(path: &str) -> Dfa {
    let mut t = HashMap::new();
    let mut classes = 0;
    for line in std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines() {
        if let Some(v) = tlc_line(&line.unwrap()) {
            let v = v.ints();
            t.insert((v[0], v[1] as usize), (v[2], v[3], v[4]));
            classes = classes.max(v[1] as usize);
        }
    }
    assert!(classes > 0 && t.len() % classes == 0, "incomplete transition system");
    Dfa { t, classes }
}
impl Dfa {
    /// boundary before each character position 0..=n
    fn graphemes(&self, cls: &[usize], extended: bool) -> Vec<bool> {
        let mut b = vec![];
        let mut st = 0;
        for &c in cls {
            let (x, l, n) = self.t[&(st, c)];
            b.push((if extended { x } else { l }) == 1);
            st = n;
        }
        b.push(true);
        if !b.is_empty() {
            b[0] = true;
        }
        b
    }
    fn words(&self, cls: &[usize]) -> Vec<bool> {
        let mut b: Vec<i64> = vec![];
        let mut st = 0;
        let mut open = None;
        for (i, &c) in cls.iter().enumerate() {
            let (cur, prev, n) = self.t[&(st, c)];
            if prev != 2 {
                if let Some(p) = open.take() {
                    b[p as usize] = prev;
                }
            }
            b.push(cur);
            if cur == 2 {
                open = Some(i);
            }
            st = n;
        }
        let mut r: Vec<bool> = b.iter().map(|&x| x != 0).collect();
        r.push(true);
        r[0] = true;
        r
    }
}

/// byte offset of every character position, plus the length
fn offs(s: &str) -> Vec<usize> {
    let mut v: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    v.push(s.len());
    v
}
fn bytes(o: &[usize], b: &[bool]) -> Vec<usize> {
    (0..o.len()).filter(|&i| b[i]).map(|i| o[i]).collect()
}
fn ends<'a>(it: impl Iterator<Item = &'a str>, cap: usize) -> Vec<usize> {
    let mut v = vec![0];
    for x in it.take(cap) {
        let l = *v.last().unwrap();
        v.push(l + x.len());
    }
    v
}

trait Both<'a>: DoubleEndedIterator<Item = (usize, &'a str)> {
    fn rest(&self) -> &'a str;
    /// What a copy still gives, from the front and from the back.
    fn copies(&self) -> (Vec<(usize, &'a str)>, Vec<(usize, &'a str)>);
}
impl<'a> Both<'a> for GraphemeIndices<'a> {
    fn rest(&self) -> &'a str {
        self.as_str()
    }
    fn copies(&self) -> (Vec<(usize, &'a str)>, Vec<(usize, &'a str)>) {
        (self.clone().collect(), self.clone().rev().collect())
    }
}
impl<'a> Both<'a> for WordBoundIndices<'a> {
    fn rest(&self) -> &'a str {
        self.as_str()
    }
    fn copies(&self) -> (Vec<(usize, &'a str)>, Vec<(usize, &'a str)>) {
        (self.clone().collect(), self.clone().rev().collect())
    }
}
/// Consume from both ends following `ops` bits; None if everything is as the boundaries say.
fn both<'a>(it: &mut dyn Both<'a>, s: &'a str, want: &[usize], mut ops: impl FnMut() -> bool) -> Option<String> {
    let (mut lo, mut hi) = (0, want.len() - 1);
    let base = s.as_ptr() as usize;
    let mut hist = String::new();
    loop {
        let front = ops();
        hist.push(if front { 'f' } else { 'b' });
        let got = if front { it.next() } else { it.next_back() };
        if lo == hi {
            if got.is_some() {
                return Some(format!("{} yields {:?} after the end", hist, got));
            }
            let again = if front { it.next_back() } else { it.next() };
            if again.is_some() || !it.rest().is_empty() {
                return Some(format!("{} not finished: {:?} rest {:?}", hist, again, it.rest()));
            }
            return None;
        }
        let exp = if front {
            lo += 1;
            (want[lo - 1], want[lo])
        } else {
            hi -= 1;
            (want[hi], want[hi + 1])
        };
        match got {
            Some((i, p)) if i == exp.0 && p.len() == exp.1 - exp.0 && p.as_ptr() as usize - base == i => {}
            _ => return Some(format!("{} expected {:?} got {:?}", hist, exp, got)),
        }
        let r = it.rest();
        if r.len() != want[hi] - want[lo] || (r.len() > 0 && r.as_ptr() as usize - base != want[lo]) {
            return Some(format!("{} rest {:?}", hist, r));
        }
        if want.len() < 16 && (lo + 2 * hi) % 5 == 0 {
            let left: Vec<(usize, &str)> = want[lo..hi + 1].windows(2).map(|w| (w[0], &s[w[0]..w[1]])).collect();
            let (f, mut b) = it.copies();
            b.reverse();
            if f != left || b != left {
                return Some(format!("{} copies give {:?} and {:?}", hist, f, b));
            }
        }
    }
}

fn check_g(d: &Dfa, cls: &[usize], s: &str, rng: &mut Rng, rep: &mut Report) {
    let o = offs(s);
    for ext in &[true, false] {
        let want = bytes(&o, &d.graphemes(cls, *ext));
        let mk = |s| if *ext { Graphemes::new(s) } else { Graphemes::new_legacy(s) };
        let mki = |s| if *ext { GraphemeIndices::new(s) } else { GraphemeIndices::new_legacy(s) };
        rep.n += 1;
        let head = format!("\"ext\":{},\"cps\":{},\"classes\":{},\"expected\":{}", *ext as u8, jarr(&cps(s)), jarr(cls), jarr(&want));
        match guarded(|| ends(mk(s), s.len() + 2)) {
            Ok(g) if g == want => {}
            Ok(g) => rep.bad(format!("{{\"what\":\"forward\",{},\"got\":{}}}", head, jarr(&g))),
            Err(m) => rep.bad(format!("{{\"what\":\"forward\",{},\"panic\":{}}}", head, jstr(&m))),
        }
        for k in 0..4 {
            let r = guarded(|| {
                both(&mut mki(s), s, &want, || match k {
                    0 => true,
                    1 => false,
                    _ => rng.chance(1, 2),
                })
            });
            match r {
                Ok(None) => {}
                Ok(Some(m)) => rep.bad(format!("{{\"what\":\"both\",{},\"message\":{}}}", head, jstr(&m))),
                Err(m) => rep.bad(format!("{{\"what\":\"both\",{},\"panic\":{}}}", head, jstr(&m))),
            }
        }
        if want.len() < 12 && rng.chance(1, 150) {
            let pieces: Vec<(usize, &str)> = want.windows(2).map(|w| (w[0], &s[w[0]..w[1]])).collect();
            let texts: Vec<&str> = pieces.iter().map(|p| p.1).collect();
            let r = guarded(|| {
                laws_de(&|| mk(s), &|x| x, &texts).map_err(|e| format!("graphemes: {}", e))?;
                laws_de(&|| mki(s), &|x| x, &pieces).map_err(|e| format!("indices: {}", e))
            }).unwrap_or_else(Err);
            if let Err(m) = r { rep.bad(format!("{{\"what\":\"both\",{},\"message\":{}}}", head, jstr(&m))); }
        }
        let r = guarded(|| {
            let (lo, hi) = mk(s).size_hint();
            let n = want.len() - 1;
            let (lo2, hi2) = mki(s).size_hint();
            let mut v: Vec<&str> = mk(s).rev().collect();
            v.reverse();
            lo <= n && hi.map_or(true, |h| h >= n) && lo2 <= n && hi2.map_or(true, |h| h >= n)
                && v.concat() == s && v.len() == n
                && mk(s).as_str() == s
        });
        if r != Ok(true) {
            rep.bad(format!("{{\"what\":\"both\",{},\"message\":\"size_hint or reverse: {:?}\"}}", head, r.is_ok()));
        }
    }
}
fn keep(w: &&str) -> bool {
    w.chars().any(unic_ucd_common::is_alphanumeric)
}
fn check_w(d: &Dfa, cls: &[usize], s: &str, rng: &mut Rng, rep: &mut Report) {
    let o = offs(s);
    let want = bytes(&o, &d.words(cls));
    rep.n += 1;
    let head = format!("\"cps\":{},\"classes\":{},\"expected\":{}", jarr(&cps(s)), jarr(cls), jarr(&want));
    match guarded(|| ends(WordBounds::new(s), s.len() + 2)) {
        Ok(g) if g == want => {}
        Ok(g) => rep.bad(format!("{{\"what\":\"forward\",{},\"got\":{}}}", head, jarr(&g))),
        Err(m) => rep.bad(format!("{{\"what\":\"forward\",{},\"panic\":{}}}", head, jstr(&m))),
    }
    let r = guarded(|| {
        let exp: Vec<&str> = want.windows(2).map(|w| &s[w[0]..w[1]]).filter(keep).collect();
        let f: Vec<&str> = Words::new(s, keep).take(s.len() + 2).collect();
        let all = Words::new(s, |_| true).take(s.len() + 2).count();
        f == exp && all == want.len() - 1
    });
    if r != Ok(true) {
        rep.bad(format!("{{\"what\":\"forward\",{},\"message\":\"filtered words\"}}", head));
    }
    for k in 0..5 {
        let r = guarded(|| {
            both(&mut WordBoundIndices::new(s), s, &want, || match k {
                0 => true,
                1 => false,
                _ => rng.chance(1, 2),
            })
        });
        match r {
            Ok(None) => {}
            Ok(Some(m)) => rep.bad(format!("{{\"what\":\"both\",{},\"message\":{}}}", head, jstr(&m))),
            Err(m) => rep.bad(format!("{{\"what\":\"both\",{},\"panic\":{}}}", head, jstr(&m))),
        }
    }
    if want.len() < 12 && rng.chance(1, 150) {
        let pieces: Vec<(usize, &str)> = want.windows(2).map(|w| (w[0], &s[w[0]..w[1]])).collect();
        let texts: Vec<&str> = pieces.iter().map(|p| p.1).collect();
        let kept: Vec<&str> = texts.iter().cloned().filter(keep).collect();
        let r = guarded(|| {
            laws_de(&|| WordBounds::new(s), &|x| x, &texts).map_err(|e| format!("bounds: {}", e))?;
            laws_de(&|| WordBoundIndices::new(s), &|x| x, &pieces).map_err(|e| format!("indices: {}", e))?;
            laws_de(&|| Words::new(s, keep), &|x| x, &kept).map_err(|e| format!("words: {}", e))
        }).unwrap_or_else(Err);
        if let Err(m) = r { rep.bad(format!("{{\"what\":\"both\",{},\"message\":{}}}", head, jstr(&m))); }
    }
    let r = guarded(|| {
        let mut exp: Vec<&str> = want.windows(2).map(|w| &s[w[0]..w[1]]).filter(keep).collect();
        exp.reverse();
        let mut it = Words::new(s, keep);
        let mut f = vec![];
        while let Some(x) = it.next_back() {
            f.push(x);
            if f.len() > s.len() { break; }
        }
        let (lo, hi) = WordBounds::new(s).size_hint();
        let n = want.len() - 1;
        // consumed from both ends in turn, with the bounds on what is left
        exp.reverse();
        let mut it = Words::new(s, keep);
        let (mut a, mut b) = (0, exp.len());
        loop {
            let (l, h) = it.size_hint();
            if l > b - a || h.map_or(false, |h| h < b - a) {
                return false;
            }
            let front = rng.chance(1, 2);
            let got = if front { it.next() } else { it.next_back() };
            if a == b {
                if got.is_some() {
                    return false;
                }
                break;
            }
            let w = if front { a += 1; exp[a - 1] } else { b -= 1; exp[b] };
            if got != Some(w) {
                return false;
            }
        }
        exp.reverse();
        f == exp && lo <= n && hi.map_or(true, |h| h >= n)
    });
    if r != Ok(true) {
        rep.bad(format!("{{\"what\":\"both\",{},\"message\":\"filtered words backward or size_hint\"}}", head));
    }
}

fn alphabet(d: &Dfa, sub: &str) -> Vec<usize> {
    if sub.is_empty() {
        (1..=d.classes).collect()
    } else {
        sub.split(',').map(|x| x.parse().unwrap()).collect()
    }
}
fn enumerate(alpha: &[usize], len: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(alpha: &[usize], len: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if cur.len() < len {
            for &a in alpha {
                cur.push(a);
                go(alpha, len, cur, f);
                cur.pop();
            }
        }
    }
    go(alpha, len, &mut vec![], f)
}
fn random_cls(rng: &mut Rng, classes: usize, max: usize) -> Vec<usize> {
    let n = rng.below(max + 1);
    // a small random alphabet makes long runs and rule interactions likely
    let k = 1 + rng.below(6);
    let alpha: Vec<usize> = (0..k).map(|_| 1 + rng.below(classes)).collect();
    (0..n).map(|_| *rng.pick(&alpha)).collect()
}

/// Long texts: a few motifs, each repeated up to `cap` characters, so that look-back and look-ahead
/// over long runs are exercised; also the positions where one motif ends and the next begins.
fn pumped(rng: &mut Rng, classes: usize, often: &[usize], cap: usize) -> (Vec<usize>, Vec<usize>) {
    let reps = [1, 1, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200];
    let (mut v, mut seams) = (vec![], vec![0]);
    for _ in 0..2 + rng.below(5) {
        let k = if rng.chance(2, 3) { 1 } else { 1 + rng.below(3) };
        let motif: Vec<usize> = (0..k).map(|_| if rng.chance(3, 4) { *rng.pick(often) } else { 1 + rng.below(classes) }).collect();
        for _ in 0..*rng.pick(&reps) {
            v.extend(&motif);
        }
        v.truncate(cap);
        seams.push(v.len());
    }
    (v, seams)
}
/// Every loop of one or two characters at every reachable state of the finite system: the shortest
/// access word, the loop's word and the state.
fn loops(d: &Dfa) -> Vec<(Vec<usize>, Vec<usize>)> {
    let mut access: Vec<(i64, Vec<usize>)> = vec![(0, vec![])];
    let mut seen: std::collections::HashSet<i64> = Some(0).into_iter().collect();
    let mut i = 0;
    while i < access.len() {
        let (st, w) = access[i].clone();
        for c in 1..=d.classes {
            let n = d.t[&(st, c)].2;
            if seen.insert(n) {
                let mut v = w.clone();
                v.push(c);
                access.push((n, v));
            }
        }
        i += 1;
    }
    let mut r = vec![];
    for (st, w) in &access {
        for a in 1..=d.classes {
            let n = d.t[&(*st, a)].2;
            if n == *st {
                r.push((w.clone(), vec![a]));
                continue;
            }
            for b in 1..=d.classes {
                if d.t[&(n, b)].2 == *st {
                    r.push((w.clone(), vec![a, b]));
                }
            }
        }
    }
    r
}
/// Access word, a loop repeated often, and every suffix of up to `len` characters.
/// then `random` walks through the finite system that stay in some of the loops they come by.
fn pump(kind: &str, dfa: &str, seed: u64, len: usize, random: usize) {
    let d = load(dfa);
    let word = kind == "w";
    let p = if word { wpools() } else { gpools() };
    let mut rng = Rng::new(seed);
    let mut rep = Report::new();
    let all: Vec<usize> = (1..=d.classes).collect();
    let ls = loops(&d);
    for (u, w) in ls {
        // two-character loops with shorter suffixes
        let len = if w.len() == 1 { len } else { len.saturating_sub(1) };
        let mut r2 = Rng::new(rng.next());
        enumerate(&all, len, &mut |v| {
            let k = 20 + r2.below(110);
            let mut cls = u.clone();
            for _ in 0..k / w.len() {
                cls.extend(&w);
            }
            cls.extend(v);
            let s: String = cls.iter().map(|&c| *r2.pick(&p[c])).collect();
            if word {
                check_w(&d, &cls, &s, &mut r2, &mut rep)
            } else {
                check_g(&d, &cls, &s, &mut r2, &mut rep)
            }
        });
    }
    for _ in 0..random {
        let cls = walk(&d, &mut rng).0;
        let s: String = cls.iter().map(|&c| *rng.pick(&p[c])).collect();
        if word {
            check_w(&d, &cls, &s, &mut rng, &mut rep)
        } else {
            check_g(&d, &cls, &s, &mut rng, &mut rep)
        }
    }
    rep.done();
}
/// A walk of a few steps, each of which may be followed by a loop at the state it leads to.
fn walk(d: &Dfa, rng: &mut Rng) -> (Vec<usize>, Vec<usize>) {
    let (mut v, mut seams, mut st) = (vec![], vec![0], 0);
    for _ in 0..2 + rng.below(4) {
        let c = 1 + rng.below(d.classes);
        v.push(c);
        st = d.t[&(st, c)].2;
        let one: Vec<usize> = (1..=d.classes).filter(|&a| d.t[&(st, a)].2 == st).collect();
        let two: Vec<(usize, usize)> = (1..=d.classes)
            .flat_map(|a| (1..=d.classes).map(move |b| (a, b)))
            .filter(|&(a, b)| d.t[&(st, a)].2 != st && d.t[&(d.t[&(st, a)].2, b)].2 == st)
            .collect();
        let k = if rng.chance(1, 3) { 1 + rng.below(3) } else { 20 + rng.below(60) };
        if !one.is_empty() && rng.chance(2, 3) {
            let a = *rng.pick(&one);
            seams.push(v.len());
            for _ in 0..k { v.push(a); }
        } else if !two.is_empty() && rng.chance(1, 2) {
            let (a, b) = *rng.pick(&two);
            seams.push(v.len());
            for _ in 0..k / 2 { v.push(a); v.push(b); }
        }
        seams.push(v.len());
    }
    (v, seams)
}
const G_OFTEN: [usize; 9] = [6, 4, 5, 14, 16, 7, 17, 15, 8]; // RI EX ZWJ EB EM PP GAZ EBG SM
const W_OFTEN: [usize; 13] = [6, 4, 5, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17];

fn iter(kind: &str, dfa: &str, seed: u64, len: usize, random: usize, sub: &str) {
    let d = load(dfa);
    let word = kind == "w";
    let p = if word { wpools() } else { gpools() };
    let mut rng = Rng::new(seed);
    let mut rep = Report::new();
    let alpha = alphabet(&d, sub);
    let mut one = |cls: &[usize], rng: &mut Rng, rep: &mut Report| {
        let s: String = cls.iter().map(|&c| *rng.pick(&p[c])).collect();
        if word {
            check_w(&d, cls, &s, rng, rep)
        } else {
            check_g(&d, cls, &s, rng, rep)
        }
    };
    {
        let mut r2 = Rng::new(seed ^ 77);
        enumerate(&alpha, len, &mut |cls| one(cls, &mut r2, &mut rep));
    }
    for _ in 0..random {
        let cls = random_cls(&mut rng, d.classes, 40);
        one(&cls, &mut rng, &mut rep);
    }
    for _ in 0..random / 25 {
        let cls = pumped(&mut rng, d.classes, if word { &W_OFTEN } else { &G_OFTEN }, 500).0;
        one(&cls, &mut rng, &mut rep);
    }
    rep.done();
}
/// Every character of every class in `ctx` random contexts: before, around and after it.
fn chars(kind: &str, dfa: &str, seed: u64, ctx: usize) {
    let d = load(dfa);
    let word = kind == "w";
    let p = if word { wpools() } else { gpools() };
    let mut rng = Rng::new(seed);
    let mut rep = Report::new();
    for k in 1..p.len() {
        for &c in &p[k] {
            let many = if word { k != 22 && k != 10 } else { k < 18 && k != 12 && k != 13 };
            for _ in 0..if many { 12 * ctx } else { ctx } {
                let (a, b) = (rng.below(3), rng.below(3));
                let mut cls: Vec<usize> = (0..a + b + 1).map(|_| 1 + rng.below(d.classes)).collect();
                cls[a] = k;
                if rng.chance(1, 4) {
                    for x in cls.iter_mut() { *x = k; }
                }
                let s: String = cls.iter().enumerate().map(|(i, &x)| if i == a { c } else { *rng.pick(&p[x]) }).collect();
                let o = offs(&s);
                rep.n += 1;
                let pairs: Vec<(Vec<usize>, Result<Vec<usize>, String>)> = if word {
                    vec![(bytes(&o, &d.words(&cls)), guarded(|| ends(WordBounds::new(&s), s.len() + 2)))]
                } else {
                    vec![(bytes(&o, &d.graphemes(&cls, true)), guarded(|| ends(Graphemes::new(&s), s.len() + 2))),
                         (bytes(&o, &d.graphemes(&cls, false)), guarded(|| ends(Graphemes::new_legacy(&s), s.len() + 2)))]
                };
                for (want, got) in pairs {
                    if got.as_ref() != Ok(&want) {
                        rep.bad(format!("{{\"what\":\"forward\",\"cps\":{},\"classes\":{},\"expected\":{},\"got\":{}}}", jarr(&cps(&s)), jarr(&cls), jarr(&want), jstr(&format!("{:?}", got))));
                    }
                }
            }
        }
    }
    rep.done();
}

// ---------------------------------------------------------------- chunked cursor
#[derive(Clone, Copy)]
enum Op {
    Set(usize),
    Is,
    Next,
    Prev,
    SetMid(usize), // reposition when the first request arrives, instead of answering it
}
struct Dialogue<'a> {
    s: &'a str,
    o: &'a [usize],      // char position -> byte
    cuts: Vec<usize>,    // chunk boundaries (char positions), including 0 and n
    log: Vec<String>,
}
impl<'a> Dialogue<'a> {
    fn n(&self) -> usize {
        self.o.len() - 1
    }
    fn chunk(&self, a: usize, b: usize) -> (&'a str, usize) {
        (&self.s[self.o[a]..self.o[b]], self.o[a])
    }
    fn pos(&self, byte: usize) -> usize {
        self.o.binary_search(&byte).unwrap_or(999_999)
    }
    /// chunk containing the character after `c` (or ending at the end of the text)
    fn at(&self, c: usize) -> (usize, usize) {
        for w in self.cuts.windows(2) {
            if w[0] <= c && (c < w[1] || w[1] == self.n()) {
                return (w[0], w[1]);
            }
        }
        (0, self.n())
    }
    fn ev(&mut self, op: &str, c: (usize, usize), kind: &str, val: i64) {
        self.log.push(format!("[\"{}\",{},{},\"{}\",{}]", op, c.0, c.1, kind, val));
    }
}
/// Asks with a chunk that lies away from the position: rejected (or answered, if known), without effect.
fn misplaced(d: &mut Dialogue<'_>, cur: &mut GraphemeCursor, truth: &[bool], at: usize, pending: bool, rng: &mut Rng) -> Result<(), String> {
    let n = d.n();
    let before = at >= 2 && (at + 2 > n || rng.chance(1, 2));
    let c = if before {
        let a = rng.below(at - 1);
        (a, a + 1 + rng.below(at - 1 - a))
    } else if at + 2 <= n {
        let a = at + 1 + rng.below(n - at - 1);
        (a, a + 1 + rng.below(n - a))
    } else {
        return Ok(());
    };
    let (text, cs) = d.chunk(c.0, c.1);
    match cur.is_boundary(text, cs) {
        Err(GraphemeIncomplete::InvalidOffset) => d.ev("far", c, "invalid", 0),
        Ok(b) if !pending && b == truth[at] => d.ev("far", c, "ok", b as i64),
        r => {
            d.ev("far", c, "other", 0);
            return Err(format!("chunk {:?} away from {} gave {:?}", c, at, r));
        }
    }
    Ok(())
}
/// Runs ops on a cursor; returns an error description when an answer is wrong.
fn dialogue(d: &mut Dialogue<'_>, truth: &[bool], ext: bool, start: usize, ops: &[Op], rng: &mut Rng) -> Result<(), String> {
    let n = d.n();
    let mut cur = if ext { GraphemeCursor::new(d.o[start], d.s.len()) } else { GraphemeCursor::new_legacy(d.o[start], d.s.len()) };
    let mut at = start;
    let mut abandon: Option<usize> = None;
    'ops: for op in ops {
        let name = match op {
            Op::Set(k) => {
                cur.set_cursor(d.o[*k]);
                at = *k;
                d.ev("set", (0, 0), "ok", *k as i64);
                if cur.cur_cursor() != d.o[at] {
                    return Err("cur_cursor after set_cursor".into());
                }
                continue;
            }
            Op::SetMid(k) => {
                abandon = Some(*k);
                continue;
            }
            Op::Is => "is",
            Op::Next => "next",
            Op::Prev => "prev",
        };
        if rng.chance(1, 8) {
            misplaced(d, &mut cur, truth, at, false, rng)?;
        }
        let mut c = d.at(at);
        if name == "prev" && c.0 == at && at > 0 && rng.chance(2, 3) {
            c = d.at(at - 1);
        }
        if rng.chance(1, 6) && n > 0 {
            // a caller may pass any chunk that contains the character after the cursor
            let lo = if name == "prev" && at > 0 { at } else { at.min(n - 1) };
            c = (rng.below(lo.min(n - 1) + 1), 0);
            c.1 = (lo + 1 + rng.below(n - lo + 1)).min(n).max(c.0 + 1).max(lo);
        }
        let mut asked = 0;
        loop {
            let (text, cs) = d.chunk(c.0, c.1);
            let r: Result<Option<i64>, GraphemeIncomplete> = match op {
                Op::Is => cur.is_boundary(text, cs).map(|b| Some(b as i64)),
                Op::Next => cur.next_boundary(text, cs).map(|x| x.map(|b| d.pos(b) as i64)),
                _ => cur.prev_boundary(text, cs).map(|x| x.map(|b| d.pos(b) as i64)),
            };
            asked += 1;
            if asked > 4 * n + 8 {
                return Err("endless requests".into());
            }
            match r {
                Ok(v) => {
                    match v {
                        None => d.ev(name, c, "none", 0),
                        Some(x) => d.ev(name, c, "ok", x),
                    }
                    let exp = match op {
                        Op::Is => Some(truth[at] as i64),
                        Op::Next => (at + 1..=n).find(|&i| truth[i]).map(|x| x as i64),
                        _ => (0..at).rev().find(|&i| truth[i]).map(|x| x as i64),
                    };
                    if v != exp {
                        return Err(format!("{} at {} gave {:?}, expected {:?}", name, at, v, exp));
                    }
                    if name != "is" {
                        if let Some(x) = v {
                            at = x as usize;
                        }
                    }
                    if cur.cur_cursor() != d.o[at] {
                        return Err(format!("cursor at byte {}, expected {}", cur.cur_cursor(), d.o[at]));
                    }
                    abandon = None;
                    continue 'ops;
                }
                Err(GraphemeIncomplete::PreContext(k)) => {
                    let k = d.pos(k);
                    d.ev(name, c, "ctx", k as i64);
                    if k == 0 || k > c.0 {
                        return Err(format!("context requested at {} for chunk {:?}", k, c));
                    }
                    if let Some(x) = abandon.take() {
                        cur.set_cursor(d.o[x]);
                        at = x;
                        d.ev("set", (0, 0), "ok", x as i64);
                        continue 'ops;
                    }
                    if name == "is" && rng.chance(1, 3) {
                        misplaced(d, &mut cur, truth, at, true, rng)?;
                    }
                    let from = match rng.below(3) {
                        0 => d.at(k - 1).0,
                        1 => k - 1,
                        _ => rng.below(k),
                    };
                    let (t, s0) = d.chunk(from, k);
                    cur.provide_context(t, s0);
                    d.ev("ctx", (from, k), "ok", 0);
                    if name == "is" && rng.chance(1, 4) {
                        misplaced(d, &mut cur, truth, at, false, rng)?;
                    }
                }
                Err(GraphemeIncomplete::NextChunk) => {
                    d.ev(name, c, "next", 0);
                    if name != "next" || c.1 >= n || (at + 1..c.1).any(|i| truth[i]) {
                        return Err(format!("{} at {} asked for the chunk after {:?}", name, at, c));
                    }
                    if let Some(x) = abandon.take() {
                        cur.set_cursor(d.o[x]);
                        at = x;
                        d.ev("set", (0, 0), "ok", x as i64);
                        continue 'ops;
                    }
                    let e = d.cuts.iter().cloned().find(|&x| x > c.1).unwrap_or(n);
                    c = (c.1, e);
                }
                Err(GraphemeIncomplete::PrevChunk) => {
                    d.ev(name, c, "prev", 0);
                    if name != "prev" || c.0 == 0 || (c.0 + 1..at).any(|i| truth[i]) {
                        return Err(format!("{} at {} asked for the chunk before {:?}", name, at, c));
                    }
                    if let Some(x) = abandon.take() {
                        cur.set_cursor(d.o[x]);
                        at = x;
                        d.ev("set", (0, 0), "ok", x as i64);
                        continue 'ops;
                    }
                    let b = d.cuts.iter().rev().cloned().find(|&x| x < c.0).unwrap_or(0);
                    c = (b, c.0);
                }
                Err(GraphemeIncomplete::InvalidOffset) => {
                    d.ev(name, c, "invalid", 0);
                    return Err(format!("{} at {} rejected the valid chunk {:?}", name, at, c));
                }
            }
        }
    }
    Ok(())
}
fn random_ops(rng: &mut Rng, n: usize, count: usize) -> Vec<Op> {
    (0..count)
        .map(|_| match rng.below(9) {
            0 => Op::Set(rng.below(n + 1)),
            1 | 2 => Op::Is,
            3 | 4 | 5 => Op::Next,
            6 | 7 => Op::Prev,
            _ => Op::SetMid(rng.below(n + 1)),
        })
        .collect()
}
fn cursor(dfa: &str, seed: u64, len: usize, random: usize, sub: &str) {
    let dfa = load(dfa);
    let p = gpools();
    let alpha = alphabet(&dfa, sub);
    let mut rng = Rng::new(seed);
    let mut rep = Report::new();
    let mut one = |cls: &[usize], all: bool, rng: &mut Rng| {
        let s: String = cls.iter().map(|&c| *rng.pick(&p[c])).collect();
        let o = offs(&s);
        let n = cls.len();
        for ext in &[true, false] {
            if !*ext && !rng.chance(1, 3) {
                continue;
            }
            let truth = dfa.graphemes(cls, *ext);
            // every chunking of a short text, three random ones of a long text
            let masks: Vec<u64> = if all && n <= 8 { (0..1u64 << n.saturating_sub(1)).collect() } else { (0..3).map(|_| rng.next()).collect() };
            for m in masks {
                let mut cuts = vec![0];
                for i in 1..n {
                    if m >> ((i - 1) % 60) & 1 == 1 {
                        cuts.push(i);
                    }
                }
                if n > 0 {
                    cuts.push(n);
                }
                let mut plans: Vec<(usize, Vec<Op>)> = vec![];
                if all {
                    for st in 0..=n {
                        plans.push((st, vec![Op::Is, Op::Next, Op::Next, Op::Next, Op::Next]));
                        plans.push((st, vec![Op::Prev, Op::Prev, Op::Prev, Op::Prev]));
                    }
                }
                for _ in 0..2 {
                    let k = 2 + rng.below(7);
                    plans.push((rng.below(n + 1), random_ops(rng, n, k)));
                }
                for (st, ops) in plans {
                    let mut d = Dialogue { s: &s, o: &o, cuts: cuts.clone(), log: vec![] };
                    rep.n += 1;
                    let r = guarded(|| dialogue(&mut d, &truth, *ext, st, &ops, rng));
                    let msg = match r {
                        Ok(Ok(())) => continue,
                        Ok(Err(m)) => m,
                        Err(m) => format!("panic: {}", m),
                    };
                    rep.bad(format!(
                        "{{\"what\":\"cursor\",\"ext\":{},\"cps\":{},\"classes\":{},\"start\":{},\"cuts\":{},\"events\":[{}],\"message\":{}}}",
                        *ext as u8, jarr(&cps(&s)), jarr(cls), st, jarr(&cuts), d.log.join(","), jstr(&msg)
                    ));
                }
            }
        }
    };
    let mut r2 = Rng::new(seed ^ 99);
    enumerate(&alpha, len, &mut |cls| one(cls, true, &mut r2));
    for _ in 0..random {
        let cls = random_cls(&mut rng, dfa.classes, 14);
        one(&cls, false, &mut rng);
    }
    // long texts, cut and questioned around the places where one run ends and another begins
    let ls = loops(&dfa);
    for k in 0..random / 2 {
        let (cls, seams) = match k % 3 {
            0 => pumped(&mut rng, dfa.classes, &G_OFTEN, 400),
            1 => walk(&dfa, &mut rng),
            _ => {
                let (mut v, w) = ls[k / 3 % ls.len()].clone();
                let mut seams = vec![0, v.len()];
                for _ in 0..20 + rng.below(60) { v.extend(&w); }
                seams.push(v.len());
                for _ in 0..rng.below(3) { v.push(1 + rng.below(dfa.classes)); }
                (v, seams)
            }
        };
        let s: String = cls.iter().map(|&c| *rng.pick(&p[c])).collect();
        let o = offs(&s);
        let n = cls.len();
        let ext = rng.chance(2, 3);
        let truth = dfa.graphemes(&cls, ext);
        let near = |rng: &mut Rng| (*rng.pick(&seams) + rng.below(4)).saturating_sub(1).min(n);
        for _ in 0..4 {
            let mut cuts = vec![0, n];
            for _ in 0..rng.below(6) {
                cuts.push(if rng.chance(2, 3) { near(&mut rng) } else { rng.below(n + 1) });
            }
            cuts.sort();
            cuts.dedup();
            let st = near(&mut rng);
            let ops: Vec<Op> = (0..6)
                .map(|_| match rng.below(7) {
                    0 => Op::Set(near(&mut rng)),
                    1 | 2 => Op::Is,
                    3 | 4 => Op::Next,
                    5 => Op::Prev,
                    _ => Op::SetMid(near(&mut rng)),
                })
                .collect();
            let mut d = Dialogue { s: &s, o: &o, cuts: cuts.clone(), log: vec![] };
            rep.n += 1;
            let r = guarded(|| dialogue(&mut d, &truth, ext, st, &ops, &mut rng));
            let msg = match r {
                Ok(Ok(())) => continue,
                Ok(Err(m)) => m,
                Err(m) => format!("panic: {}", m),
            };
            rep.bad(format!(
                "{{\"what\":\"cursor\",\"ext\":{},\"cps\":{},\"classes\":{},\"start\":{},\"cuts\":{},\"events\":[{}],\"message\":{}}}",
                ext as u8, jarr(&cps(&s)), jarr(&cls), st, jarr(&cuts), d.log.join(","), jstr(&msg)
            ));
        }
    }
    rep.done();
}

fn record(seed: u64, ncur: usize, niter: usize, out: &str, gd: &str) {
    let gdfa = load(gd);
    let gp = gpools();
    let wp = wpools();
    let mut rng = Rng::new(seed);
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    for _ in 0..ncur {
        let cls = random_cls(&mut rng, 18, 12);
        let s: String = cls.iter().map(|&c| *rng.pick(&gp[c])).collect();
        let o = offs(&s);
        let n = cls.len();
        let ext = rng.chance(2, 3);
        let mut cuts = vec![0];
        for i in 1..n {
            if rng.chance(1, 3) {
                cuts.push(i);
            }
        }
        if n > 0 {
            cuts.push(n);
        }
        let st = rng.below(n + 1);
        let ops = random_ops(&mut rng, n, 8);
        let mut d = Dialogue { s: &s, o: &o, cuts, log: vec![] };
        let truth = gdfa.graphemes(&cls, ext);
        rep.n += 1;
        // whatever happens, the specification judges the events; a panic is an event it rejects
        if let Err(m) = guarded(|| dialogue(&mut d, &truth, ext, st, &ops, &mut rng)) {
            let m: String = m.chars().filter(|c| c.is_ascii_alphanumeric() || *c == ' ').collect();
            d.log.push(format!("[\"panic\",0,0,{},0]", jstr(&m)));
        }
        writeln!(f, "{{\"kind\":\"cursor\",\"ext\":{},\"at\":{},\"s\":{},\"cps\":{},\"ev\":[{}]}}", ext as u8, st, jarr(&cls), jarr(&cps(&s)), d.log.join(",")).unwrap();
    }
    for k in 0..niter {
        let word = k % 2 == 1;
        let cls = random_cls(&mut rng, if word { 22 } else { 18 }, 16);
        let s: String = cls.iter().map(|&c| *rng.pick(if word { &wp[c] } else { &gp[c] })).collect();
        let o = offs(&s);
        let pos = |b: usize| o.binary_search(&b).map(|x| x as i64).unwrap_or(-7);
        let ext = word || rng.chance(1, 2);
        let mut log: Vec<String> = vec![];
        let base = s.as_ptr() as usize;
        let bias = rng.below(5);
        let r = guarded(|| {
            let mut a = WordBoundIndices::new(&s);
            let mut b = if ext { GraphemeIndices::new(&s) } else { GraphemeIndices::new_legacy(&s) };
            let it: &mut dyn Both<'_> = if word { &mut a } else { &mut b };
            for _ in 0..cls.len() + 3 {
                let front = rng.below(4) < bias;
                let got = if front { it.next() } else { it.next_back() };
                let rest = it.rest();
                let (x, y) = match got {
                    None => (-1, -1),
                    Some((i, p)) => (pos(i), pos(i + p.len())),
                };
                let rs = if rest.is_empty() && got.is_none() { 0 } else { rest.as_ptr() as usize - base };
                log.push(format!("[\"{}\",{},{},{},{}]", if front { "f" } else { "b" }, x, y, pos(rs), pos(rs + rest.len())));
                if got.is_none() {
                    break;
                }
            }
        });
        if let Err(m) = r {
            let m: String = m.chars().filter(|c| c.is_ascii_alphanumeric() || *c == ' ').collect();
            log.push(format!("[\"panic\",0,0,{},0]", jstr(&m)));
        }
        rep.n += 1;
        writeln!(f, "{{\"kind\":\"{}\",\"ext\":{},\"at\":0,\"s\":{},\"cps\":{},\"ev\":[{}]}}", if word { "word" } else { "grapheme" }, ext as u8, jarr(&cls), jarr(&cps(&s)), log.join(",")).unwrap();
    }
    rep.done();
}

fn main() {
    if std::env::var("LOUD").is_err() { quiet_panics(); }
    match arg(1).as_str() {
        "iter" => iter(&arg(2), &arg(3), argn(4) as u64, argn(5), argn(6), &arg(7)),
        "pump" => pump(&arg(2), &arg(3), argn(4) as u64, argn(5), argn(6)),
        "chars" => chars(&arg(2), &arg(3), argn(4) as u64, argn(5)),
        "cursor" => cursor(&arg(2), argn(3) as u64, argn(4), argn(5), &arg(6)),
        "record" => record(argn(2) as u64, argn(3), argn(4), &arg(5), &arg(6)),
        _ => panic!("usage"),
    }
}
