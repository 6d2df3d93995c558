// Conformance driver for character ranges, their iteration and property tables.
//   ranges         replay behaviours of CharRange.tla from stdin
//   splits SEED    replay the split schedules of ParSplit.tla from stdin on real ranges
//   tables SEED    replay the tables of CharTable.tla from stdin
//   record SEED NRANGES NPAR NTABLES OUT   record iterations / lookups for TraceChars.tla
#[path = "../../common/util.rs"]
mod util;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::prelude::*;
use std::collections::Bound;
use std::io::Write;
use unic_char_property::tables::CharDataTable;
use unic_char_range::*;
use util::*;

const MAX: char = std::char::MAX;
fn ch(u: i64) -> char {
    std::char::from_u32(u as u32).unwrap()
}
/// Every way to build the range the kind denotes.
fn build(kind: i64, x: char, y: char) -> Vec<CharRange> {
    let b = |k: i64, c: char| match k {
        0 => Bound::Unbounded,
        1 => Bound::Included(c),
        _ => Bound::Excluded(c),
    };
    let mut v = vec![];
    if kind == 99 {
        v.push(CharRange::all());
        v.push(chars!(..));
        v.push(CharRange::closed('\0', MAX));
    } else if kind == 98 {
        v.push(CharRange::assigned_normal_planes());
    } else {
        v.push(CharRange::bound(b(kind / 10, x), b(kind % 10, y)));
    }
    match kind {
        11 => v.extend(vec![CharRange::closed(x, y), chars!(x..=y), CharRange { low: x, high: y }]),
        12 => v.extend(vec![CharRange::open_right(x, y), chars!(x..y)]),
        21 => v.push(CharRange::open_left(x, y)),
        22 => v.push(CharRange::open(x, y)),
        _ => {}
    }
    v
}
fn same(v: &[CharRange]) -> bool {
    v.iter().all(|r| v.iter().all(|s| r == s))
}

// ------------------------------------------------------------------ R01 R02: replay
fn ranges() {
    let mut rep = Report::new();
    let mut seen: Vec<((i64, i64), Vec<CharRange>)> = vec![];
    for l in stdin_lines() {
        let v = match tlc_line(&l) { Some(v) => v, None => continue };
        rep.n += 1;
        let t = v.t();
        let (kind, x, y) = (t[1].i(), t[2].i(), t[3].i());
        let rs = match guarded(|| build(kind, ch(x), ch(y))) {
            Ok(r) => r,
            Err(m) => { rep.bad(format!("{{\"what\":\"R01\",\"kind\":{},\"x\":{},\"y\":{},\"panic\":{}}}", kind, x, y, jstr(&m))); continue }
        };
        if t[0].i() == 0 {
            let (a, b, size) = (t[4].i(), t[5].i(), t[6].i());
            let mut bad: Vec<String> = vec![];
            if !same(&rs) { bad.push("constructors differ".into()); }
            for r in &rs {
                let n = guarded(|| r.len());
                if n != Ok(size as usize) { bad.push(format!("len {:?}", n)); }
                if r.is_empty() != (size == 0) { bad.push("is_empty".into()); }
                for p in t[7].t() {
                    let (c, member, cmp) = (ch(p.t()[0].i()), p.t()[1].i() == 1, p.t()[2].i());
                    if r.contains(c) != member { bad.push(format!("contains {:?}", c)); }
                    let got = guarded(|| r.cmp_char(c));
                    let ok = if cmp == 9 { got != Ok(std::cmp::Ordering::Equal) } else { got == Ok(match cmp { -1 => std::cmp::Ordering::Less, 0 => std::cmp::Ordering::Equal, _ => std::cmp::Ordering::Greater }) };
                    if !ok { bad.push(format!("cmp_char {:?} {:?}", c, got)); }
                }
                // never a surrogate, never outside the code space (bounds of non-empty ranges)
                if size > 0 && !(std::char::from_u32(r.low as u32).is_some() && std::char::from_u32(r.high as u32).is_some()) { bad.push("invalid bound".into()); }
            }
            if !bad.is_empty() {
                rep.bad(format!("{{\"what\":\"R01\",\"kind\":{},\"x\":{},\"y\":{},\"bad\":{}}}", kind, x, y, jstr(&bad.join("; "))));
            }
            let id = if size == 0 { (1, 0) } else { (a, b) };
            for (jd, ss) in &seen {
                let eq = *jd == id;
                rep.n += 1;
                if (rs[0] == ss[0]) != eq || (ss[0] == rs[0]) != eq || (rs[0] != ss[0]) == eq {
                    rep.bad(format!("{{\"what\":\"R01\",\"kind\":{},\"x\":{},\"y\":{},\"bad\":\"equality with {:?}\"}}", kind, x, y, jd));
                }
            }
            if size <= 6 {
                let want: Vec<char> = if size == 0 { vec![] } else { (a..=b).map(|u| ch(if u < 0xD800 { u } else { u + 0x800 })).collect() };
                for r in &rs {
                    let e = guarded(|| {
                        laws_de(&|| r.iter(), &|c| c, &want)?;
                        // sized exactly, ordered
                        if r.iter().rev().len() != want.len() || !r.iter().eq(want.iter().cloned()) || r.iter().max() != want.last().cloned() || r.iter().min() != want.first().cloned() { return Err("len, eq, min or max".to_string()); }
                        Ok(())
                    }).unwrap_or_else(Err);
                    if let Err(e) = e { rep.bad(format!("{{\"what\":\"R02\",\"kind\":{},\"x\":{},\"y\":{},\"bad\":{}}}", kind, x, y, jstr(&e))); }
                }
            }
            seen.push((id, rs));
        } else {
            let (size, lo, hi) = (t[5].i(), t[6].i(), t[7].i());
            for (ri, r) in rs.iter().enumerate() {
                if ri > 1 { continue; }
                let res = guarded(|| {
                    let mut it = if ri == 0 { r.iter() } else { r.into_iter() };
                    for (k, h) in t[4].t().iter().enumerate() {
                        let (n, want, left) = (h.t()[0].i(), h.t()[1].i(), h.t()[2].i());
                        let got = match n {
                            1 => it.next(),
                            -1 => it.next_back(),
                            n if n > 0 => it.nth(n as usize - 1),
                            n => it.by_ref().rev().nth((-n) as usize - 1),
                        };
                        let want = if want < 0 { None } else { Some(ch(want)) };
                        if got != want { return Err(format!("step {} of {}: {:?} not {:?}", k, n, got, want)); }
                        if it.len() != left as usize || it.size_hint() != (left as usize, Some(left as usize)) { return Err(format!("len {} hint {:?} not {}", it.len(), it.size_hint(), left)); }
                    }
                    let rest: CharRange = it.clone().into();
                    let none = CharRange::open(ch(lo.max(0)), ch(lo.max(0)));
                    if (rest == none) != (size == 0) || (none == rest) != (size == 0) { return Err("remaining range and the empty range".into()); }
                    if rest.is_empty() != (size == 0) || rest.len() != size as usize { return Err("remaining range".into()); }
                    if size > 0 {
                        if rest != CharRange::closed(ch(lo), ch(hi)) { return Err("remaining range bounds".into()); }
                        if it.clone().next() != Some(ch(lo)) || it.clone().next_back() != Some(ch(hi)) || it.clone().last() != Some(ch(hi)) || it.clone().max() != Some(ch(hi)) || it.clone().min() != Some(ch(lo)) { return Err("min/max/last".into()); }
                    } else {
                        if it.clone().last().is_some() || it.clone().max().is_some() || it.clone().min().is_some() { return Err("min/max/last of finished".into()); }
                        for _ in 0..3 {
                            if it.next().is_some() || it.next_back().is_some() || it.len() != 0 { return Err("restarted".into()); }
                        }
                    }
                    Ok(())
                });
                let e = match res { Ok(Ok(())) => continue, Ok(Err(e)) => e, Err(e) => format!("panic {}", e) };
                if e.starts_with("remaining") { rep.bad(format!("{{\"what\":\"R01\",\"kind\":{},\"x\":{},\"y\":{},\"bad\":{}}}", kind, x, y, jstr(&e))); }
                rep.bad(format!("{{\"what\":\"R02\",\"kind\":{},\"x\":{},\"y\":{},\"ops\":{},\"bad\":{}}}", kind, x, y, jarr(&t[4].t().iter().map(|h| h.t()[0].i()).collect::<Vec<_>>()), jstr(&e)));
            }
        }
    }
    rep.done();
}

// ------------------------------------------------------------------ parallel iteration
/// Split as told (piece number, position), then read each piece (true: from the back).
struct SplitCb<'a> {
    hist: &'a [(usize, usize)],
    back: Vec<bool>,
}
impl<'a> ProducerCallback<char> for SplitCb<'a> {
    type Output = Vec<Vec<char>>;
    fn callback<P: Producer<Item = char>>(self, p: P) -> Self::Output {
        let mut v: Vec<Option<P>> = vec![Some(p)];
        for &(i, at) in self.hist {
            let (l, r) = v[i].take().unwrap().split_at(at);
            v[i] = Some(l);
            v.insert(i + 1, Some(r));
        }
        v.into_iter()
            .enumerate()
            .map(|(i, p)| {
                let it = p.unwrap().into_iter();
                let n = it.len();
                let out: Vec<char> = if self.back.get(i).cloned().unwrap_or(false) { it.rev().collect() } else { it.collect() };
                assert_eq!(n, out.len(), "length of a piece");
                out
            })
            .collect()
    }
}
fn split(r: CharRange, hist: &[(usize, usize)], back: Vec<bool>) -> Result<Vec<Vec<char>>, String> {
    guarded(|| r.into_par_iter().with_producer(SplitCb { hist, back }))
}
/// Maximal runs of consecutive code points.
fn runs(v: &[char]) -> Vec<(u32, u32)> {
    let mut o: Vec<(u32, u32)> = vec![];
    for &c in v {
        let u = c as u32;
        match o.last_mut() {
            Some((_, hi)) if *hi + 1 == u => *hi = u,
            _ => o.push((u, u)),
        }
    }
    o
}
/// The same, descending.
fn druns(v: &[char]) -> Vec<(u32, u32)> {
    let mut o: Vec<(u32, u32)> = vec![];
    for &c in v {
        let u = c as u32;
        match o.last_mut() {
            Some((_, hi)) if *hi == u + 1 => *hi = u,
            _ => o.push((u, u)),
        }
    }
    o
}
fn jruns(v: &[(u32, u32)]) -> String {
    let v: Vec<_> = v.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect();
    format!("[{}]", v.iter().take(40).cloned().collect::<Vec<_>>().join(","))
}
fn succ(c: char, n: usize) -> Option<char> {
    let r = c as u32 - if c as u32 >= 0xE000 { 0x800 } else { 0 } + n as u32;
    std::char::from_u32(if r >= 0xD800 { r + 0x800 } else { r })
}
fn splits(seed: u64) {
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    for l in stdin_lines() {
        let v = match tlc_line(&l) { Some(v) => v, None => continue };
        let n = v.t()[0].i() as usize;
        let hist: Vec<(usize, usize)> = v.t()[1].t().iter().map(|h| (h.t()[0].i() as usize - 1, h.t()[1].i() as usize)).collect();
        let pieces: Vec<(usize, usize)> = v.t()[2].t().iter().map(|h| (h.t()[0].i() as usize, h.t()[1].i() as usize)).collect();
        // the elements: ranges of n characters at interesting places
        for &start in &['\0', 'a', '\u{D7FF}', '\u{D7FE}', '\u{D7FD}', '\u{D7FC}', '\u{E000}', '\u{E001}', '\u{F000}', '\u{10000}', '\u{10FFFA}'] {
            let r = if n == 0 { CharRange::open(start, start) } else { match succ(start, n - 1) { Some(e) => CharRange::closed(start, e), None => continue } };
            rep.n += 1;
            let all: Vec<char> = (0..n).map(|k| succ(start, k).unwrap()).collect();
            let back: Vec<bool> = (0..pieces.len()).map(|_| rng.chance(1, 2)).collect();
            let want: Vec<Vec<char>> = pieces.iter().zip(&back).map(|(p, &b)| { let mut s = all[p.0..p.1].to_vec(); if b { s.reverse() } s }).collect();
            let got = split(r, &hist, back);
            if got.as_ref() != Ok(&want) {
                rep.bad(format!("{{\"what\":\"R02par\",\"start\":{},\"n\":{},\"splits\":{:?},\"got\":{}}}", start as u32, n, jstr(&format!("{:?}", hist)), jstr(&format!("{:?}", got))));
            }
        }
    }
    rep.done();
}

// ------------------------------------------------------------------ T02: replay
fn layouts(n: usize, rng: &mut Rng) -> Vec<Vec<char>> {
    let mut out = vec![];
    let seq = |s: char| -> Option<Vec<char>> { (0..n).map(|k| succ(s, k)).collect() };
    out.push(seq('\0').unwrap());
    out.push(seq(succ('\0', 0x10FFFF - 0x800 + 1 - n).unwrap()).unwrap());
    out.push(seq(succ('\0', 0xD800 - n / 2).unwrap()).unwrap());
    out.push(seq('a').unwrap());
    // spread: positions are blocks of characters; a position's character is the first of its block
    let mut v: Vec<u32> = vec![];
    while v.len() < n {
        let c = match rng.below(4) { 0 => rng.below(0x250), 1 => 0xD700 + rng.below(0x100), 2 => 0xE000 + rng.below(0x100), _ => rng.below(0x110000) } as u32;
        if std::char::from_u32(c).is_some() && !v.contains(&c) { v.push(c); }
    }
    v.sort();
    out.push(v.into_iter().map(|c| std::char::from_u32(c).unwrap()).collect());
    out
}
fn tables(seed: u64) {
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let mut lays: Vec<Vec<Vec<char>>> = vec![];
    for l in stdin_lines() {
        let v = match tlc_line(&l) { Some(v) => v, None => continue };
        let direct = v.t()[0].i() == 1;
        let t: Vec<(usize, usize, i64)> = v.t()[1].t().iter().map(|e| (e.t()[0].i() as usize - 1, e.t()[1].i() as usize - 1, e.t()[2].i())).collect();
        let want: Vec<usize> = v.t()[2].ints().iter().map(|&x| x as usize).collect();
        let n = want.len();
        while lays.len() <= n { let k = lays.len(); lays.push(if k == 0 { vec![] } else { layouts(k, &mut rng) }); }
        for (li, lay) in lays[n].iter().enumerate() {
            rep.n += 1;
            let entries: Vec<(CharRange, i64)> = t.iter().map(|&(lo, hi, val)| (CharRange::closed(lay[lo], lay[hi]), val)).collect();
            let table: CharDataTable<i64> = if direct {
                CharDataTable::Direct(Box::leak(t.iter().map(|&(lo, _, val)| (lay[lo], val)).collect::<Vec<_>>().into_boxed_slice()))
            } else {
                CharDataTable::Range(Box::leak(entries.clone().into_boxed_slice()))
            };
            let r = guarded(|| {
                for (p, &e) in want.iter().enumerate() {
                    let c = lay[p];
                    let val = if e == 0 { None } else { Some(t[e - 1].2) };
                    if table.contains(c) != (e != 0) { return Err(format!("contains {:?}", c)); }
                    if table.find(c) != val { return Err(format!("find {:?} = {:?}", c, table.find(c))); }
                    if table.find_or_default(c) != val.unwrap_or(0) { return Err(format!("find_or_default {:?}", c)); }
                    let wr = if direct || e == 0 { None } else { Some(entries[e - 1]) };
                    if table.find_with_range(c) != wr { return Err(format!("find_with_range {:?} = {:?}", c, table.find_with_range(c))); }
                }
                // characters of no position: before, after and inside the blocks
                for &c in &['\0', '\u{7f}', '\u{D7FF}', '\u{E000}', MAX] {
                    let e = entries.iter().find(|x| x.0.low <= c && c <= x.0.high).map(|x| x.1);
                    if table.find(c) != e || table.contains(c) != e.is_some() { return Err(format!("find {:?} = {:?}", c, table.find(c))); }
                }
                let it: Vec<(CharRange, i64)> = table.iter().collect();
                if it != entries { return Err(format!("iter {:?}", it)); }
                let mut i = table.iter();
                for _ in 0..entries.len() { i.next(); }
                if i.next().is_some() || i.next().is_some() { return Err("iterator restarted".into()); }
                laws(&|| table.iter(), &|e| e, &entries)?;
                Ok(())
            });
            let e = match r { Ok(Ok(())) => continue, Ok(Err(e)) => e, Err(e) => format!("panic {}", e) };
            rep.bad(format!("{{\"what\":\"T02\",\"direct\":{},\"table\":{},\"layout\":{},\"bad\":{}}}", direct, jstr(&format!("{:?}", entries)), li, jstr(&e)));
        }
    }
    let d: CharDataTable<u8> = Default::default();
    if d.contains('a') || d.find('a').is_some() || d.iter().next().is_some() || d.find_or_default('\0') != 0 {
        rep.bad("{\"what\":\"T02\",\"bad\":\"default table\"}".into());
    }
    rep.done();
}

// ------------------------------------------------------------------ recording
fn rnd(rng: &mut Rng) -> char {
    loop {
        let u = match rng.below(7) {
            0 => rng.below(300),
            1 => 0xD7F0 + rng.below(16),
            2 => 0xE000 + rng.below(16),
            3 => 0x10FFF0 + rng.below(16),
            4 => 0xDFF0 + rng.below(0x1000),
            5 => rng.below(0x3000),
            _ => rng.below(0x110000),
        };
        if let Some(c) = std::char::from_u32(u as u32) {
            return c;
        }
    }
}
fn record(seed: u64, nr: usize, np: usize, nt: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let kinds = [11i64, 12, 21, 22, 10, 1, 20, 2, 0, 99];
    for k in 0..nr + np {
        let kind = kinds[if k < 40 { k % 10 } else { rng.below(4) }];
        let x = rnd(&mut rng);
        let mut y = rnd(&mut rng);
        if rng.chance(1, 2) {
            if let Some(c) = succ(x, rng.below(40)) { y = c; }
        }
        let start = if kind == 99 || kind / 10 == 0 { '\0' } else { x };
        let stop = if kind == 99 || kind % 10 == 0 { '\0' } else { y };
        let r = build(kind, x, y).pop().unwrap();
        rep.n += 1;
        let id = format!("\"kind\":{},\"x\":{},\"y\":{}", kind, start as u32, stop as u32);
        if k < nr {
            let nf = if rng.chance(1, 3) { rng.below(0x20000) } else { rng.below(50) };
            let g = guarded(|| {
                let fwd: Vec<char> = r.iter().collect();
                let back: Vec<char> = r.iter().rev().collect();
                // nf from the front, the others from the back, interleaved
                let mut it = r.iter();
                let (mut mf, mut mb) = (vec![], vec![]);
                let tot = it.len();
                let (mut f, mut b) = (nf.min(tot), tot - nf.min(tot));
                while f + b > 0 {
                    if f > 0 && (b == 0 || rng.chance(1, 2)) { if let Some(c) = it.next() { mf.push(c); } f -= 1; } else { if let Some(c) = it.next_back() { mb.push(c); } b -= 1; }
                }
                if it.next().is_some() { mf.push('!'); }
                (fwd, back, mf, mb, r.len(), r.iter().count())
            });
            match g {
                Ok((fwd, back, mf, mb, len, count)) => {
                    let len = if len == count && len == fwd.len() { len as i64 } else { -1 };
                    writeln!(o, "{{\"kind2\":\"range\",{},\"nf\":{},\"len\":{},\"fwd\":{},\"back\":{},\"mixf\":{},\"mixb\":{}}}", id, nf, len, jruns(&runs(&fwd)), jruns(&druns(&back)), jruns(&runs(&mf)), jruns(&druns(&mb))).unwrap();
                }
                Err(m) => rep.bad(format!("{{\"what\":\"R02\",{},\"bad\":{}}}", id, jstr(&m))),
            }
        } else {
            let g = guarded(|| {
                let mut par: Vec<char> = vec![];
                match rng.below(3) {
                    0 => par = r.into_par_iter().collect(),
                    1 => (&r).into_par_iter().with_max_len(1 + rng.below(500)).collect_into_vec(&mut par),
                    _ => par = r.par_iter().filter(|_| true).collect(),
                }
                let prev: Vec<char> = r.par_iter().with_min_len(1 + rng.below(64)).rev().collect();
                let plen = r.par_iter().len();
                // random splits
                let mut hist = vec![];
                let mut ps = vec![(0usize, plen)];
                for _ in 0..rng.below(9) {
                    let i = rng.below(ps.len());
                    let (s, e) = ps[i];
                    let at = match rng.below(4) { 0 => 0, 1 => e - s, 2 => (e - s) / 2, _ => rng.below(e - s + 1) };
                    hist.push((i, at));
                    ps[i] = (s, s + at);
                    ps.insert(i + 1, (s + at, e));
                }
                let back: Vec<bool> = ps.iter().map(|_| rng.chance(1, 2)).collect();
                (par, prev, plen, split(r, &hist, back.clone()), ps, back)
            });
            match g {
                Ok((par, prev, plen, Ok(got), ps, back)) => {
                    let plen = if plen == r.par_iter().filter(|_| true).count() { plen as i64 } else { -1 };
                    let pieces: Vec<String> = ps.iter().zip(&got).zip(&back).map(|((p, g), &b)| format!("[{},{},{},{}]", p.0, p.1, g.len(), b as u8)).collect();
                    let rr: Vec<String> = got.iter().zip(&back).map(|(g, &b)| jruns(&if b { druns(g) } else { runs(g) })).collect();
                    writeln!(o, "{{\"kind2\":\"par\",{},\"par\":{},\"prev\":{},\"plen\":{},\"pieces\":[{}],\"runs\":[{}]}}", id, jruns(&runs(&par)), jruns(&druns(&prev)), plen, pieces.join(","), rr.join(",")).unwrap();
                }
                Ok((_, _, _, Err(m), _, _)) | Err(m) => rep.bad(format!("{{\"what\":\"R02par\",{},\"bad\":{}}}", id, jstr(&m))),
            }
        }
    }
    for _ in 0..nt {
        // a random well-formed table; values are entry numbers
        let n = match rng.below(4) { 0 => rng.below(4), 1 => rng.below(20), _ => rng.below(120) };
        let mut pts: Vec<char> = (0..2 * n).map(|_| rnd(&mut rng)).collect();
        pts.sort();
        let direct = rng.chance(1, 3);
        let mut t: Vec<(char, char)> = vec![];
        let mut i = 0;
        while i + 1 < pts.len() {
            let (lo, hi) = if direct || rng.chance(1, 3) { (pts[i], pts[i]) } else { (pts[i], pts[i + 1]) };
            if t.last().map_or(true, |e| e.1 < lo) { t.push((lo, hi)); }
            i += 1 + rng.below(2);
        }
        let table: CharDataTable<usize> = if direct {
            CharDataTable::Direct(Box::leak(t.iter().enumerate().map(|(i, e)| (e.0, i + 1)).collect::<Vec<_>>().into_boxed_slice()))
        } else {
            CharDataTable::Range(Box::leak(t.iter().enumerate().map(|(i, e)| (CharRange::closed(e.0, e.1), i + 1)).collect::<Vec<_>>().into_boxed_slice()))
        };
        let mut probes: Vec<char> = vec!['\0', MAX, '\u{D7FF}', '\u{E000}'];
        for e in &t {
            for &c in &[e.0, e.1] {
                probes.push(c);
                if let Some(d) = succ(c, 1) { probes.push(d); }
                if c != '\0' { probes.push(CharRange::closed('\0', c).iter().rev().nth(1).unwrap()); }
            }
        }
        for _ in 0..20 { probes.push(rnd(&mut rng)); }
        let mut js = vec![];
        for &c in &probes {
            rep.n += 1;
            let g = guarded(|| (table.find(c), table.contains(c), table.find_or_default(c), table.find_with_range(c)));
            let e = match g {
                Ok((f, con, d, fr)) => {
                    let wr = if direct { None } else { f.and_then(|e| t.get(e.wrapping_sub(1)).map(|x| (CharRange::closed(x.0, x.1), e))) };
                    if con != f.is_some() || d != f.unwrap_or(0) || fr != wr { 9999 } else { f.unwrap_or(0) }
                }
                Err(_) => 9999,
            };
            let g = t.iter().filter(|x| x.1 < c).count();
            if e > t.len() { rep.bad(format!("{{\"what\":\"table\",\"bad\":\"lookup forms disagree\",\"char\":{}}}", c as u32)); continue; }
            js.push(format!("[{},{},{}]", c as u32, e, g));
        }
        let ok = guarded(|| table.iter().map(|x| (x.0.low, x.0.high)).collect::<Vec<_>>() == t && table.iter().enumerate().all(|(i, x)| x.1 == i + 1));
        if ok != Ok(true) { rep.bad("{\"what\":\"table\",\"bad\":\"iter\"}".into()); }
        let ts: Vec<String> = t.iter().map(|e| format!("[{},{}]", e.0 as u32, e.1 as u32)).collect();
        writeln!(o, "{{\"kind2\":\"table\",\"t\":[{}],\"probes\":[{}]}}", ts.join(","), js.join(",")).unwrap();
    }
    rep.done();
}

fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "ranges" => ranges(),
        "splits" => splits(argn(2) as u64),
        "tables" => tables(argn(2) as u64),
        "record" => record(argn(2) as u64, argn(3), argn(4), argn(5), &arg(6)),
        _ => panic!("usage"),
    }
}
