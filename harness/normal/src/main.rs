// Conformance driver for normalization.
//   replay SEED              behaviours of MCNormal.tla from stdin
//   chars OUT                every scalar value: inert ranges and normalized single characters
//   pairs OUT SEED RND       every composition found, and random pairs
//   syllables OUT            Hangul syllables
//   record SEED N MAXLEN OUT random texts
//   contexts SEED K H OUT    every scalar value among other characters: K texts for each that takes
//                            part in normalization (one in H of the Hangul syllables), and fixed
//                            contexts that must treat all the others alike
#[path = "../../common/util.rs"]
mod util;
use std::io::Write;
use unic_normal::StrNormalForm;
use unic_ucd_hangul as hangul;
use unic_ucd_normal as un;
use util::*;

fn scalars() -> impl Iterator<Item = char> {
    (0..=0x10FFFFu32).filter_map(std::char::from_u32)
}
/// Consume the iterator in one of several ways.
fn drain<I: Iterator<Item = char> + Clone + std::fmt::Display>(it: I, how: usize, rng: &mut Rng) -> String {
    match how {
        0 => it.collect(),
        1 => {
            let mut o = String::new();
            for c in it { o.push(c); }
            o
        }
        2 => {
            // a few steps, a clone finishes
            let mut it = it;
            let mut o = String::new();
            for _ in 0..rng.below(6) {
                match it.next() { Some(c) => o.push(c), None => break }
            }
            let rest: String = it.clone().collect();
            // what is printed is what is left, and printing takes nothing
            if it.to_string() != rest || format!("{}", it) != rest { o.push('\u{FFFD}'); }
            let rest2: String = it.by_ref().collect();
            if rest != rest2 { o.push('\u{FFFF}'); }
            for _ in 0..2 { if it.next().is_some() { o.push('\u{FFFF}'); } }
            o + &rest
        }
        3 => {
            let mut it = it;
            let mut o = String::new();
            loop {
                let (lo, hi) = it.size_hint();
                // the hint must not exclude what comes
                let left = it.clone().count();
                if hi.map_or(false, |h| h < left) || lo > left { o.push('\u{FFFE}'); }
                match it.next() { Some(c) => o.push(c), None => return o }
            }
        }
        _ => it.fold(String::new(), |mut o, c| { o.push(c); o }),
    }
}
/// The four forms, by every entry point; Err says which disagree.
fn forms(s: &str, rng: &mut Rng) -> Result<[String; 4], String> {
    let base = [s.nfd().collect::<String>(), s.nfkd().collect(), s.nfc().collect(), s.nfkc().collect()];
    let v: Vec<char> = s.chars().collect();
    let how = rng.below(5);
    let alt = [drain(s.nfd(), how, rng), drain(s.nfkd(), how, rng), drain(s.nfc(), how, rng), drain(s.nfkc(), how, rng)];
    if alt != base { return Err(format!("consumption {}", how)); }
    let disp = [s.nfd().to_string(), s.nfkd().to_string(), s.nfc().to_string(), s.nfkc().to_string()];
    if disp != base { return Err("display".into()); }
    let it = [v.iter().cloned().nfd().collect::<String>(), v.iter().cloned().nfkd().collect(), v.iter().cloned().nfc().collect(), v.iter().cloned().nfkc().collect()];
    if it != base { return Err("iterator".into()); }
    let rev = s.chars().rev().collect::<String>();
    let it = [rev.chars().rev().nfd().to_string(), rev.chars().rev().nfkd().to_string(), rev.chars().rev().nfc().to_string(), rev.chars().rev().nfkc().to_string()];
    if it != base { return Err("reversed iterator".into()); }
    if base[1].len() < 60 && rng.chance(1, 12) {
        let want: Vec<Vec<char>> = base.iter().map(|b| b.chars().collect()).collect();
        laws(&|| s.nfd(), &|c| c, &want[0]).map_err(|e| format!("nfd: {}", e))?;
        laws(&|| s.nfkd(), &|c| c, &want[1]).map_err(|e| format!("nfkd: {}", e))?;
        laws(&|| s.nfc(), &|c| c, &want[2]).map_err(|e| format!("nfc: {}", e))?;
        laws(&|| s.nfkc(), &|c| c, &want[3]).map_err(|e| format!("nfkc: {}", e))?;
    }
    Ok(base)
}
fn text(v: &V) -> String {
    v.ints().iter().map(|&c| std::char::from_u32(c as u32).unwrap()).collect()
}
fn replay(seed: u64) {
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    for l in stdin_lines() {
        let v = match tlc_line(&l) { Some(v) => v, None => continue };
        rep.n += 1;
        let s = text(&v.t()[0]);
        let want: Vec<String> = v.t()[1..].iter().map(text).collect();
        let got = guarded(|| forms(&s, &mut rng)).unwrap_or_else(|e| Err(format!("panic {}", e)));
        match got {
            Err(e) => {
                for w in &["N01", "N02"] { rep.bad(format!("{{\"what\":\"{}\",\"text\":{},\"bad\":{}}}", w, jstr(&s), jstr(&e))); }
            }
            Ok(g) => {
                for i in 0..4 {
                    if g[i] != want[i] {
                        rep.bad(format!("{{\"what\":\"{}\",\"form\":\"{}\",\"text\":{},\"got\":{},\"want\":{}}}", if i < 2 { "N01" } else { "N02" }, ["nfd", "nfkd", "nfc", "nfkc"][i], jstr(&s), jstr(&g[i]), jstr(&want[i])));
                    }
                }
            }
        }
    }
    rep.done();
}
fn line(o: &mut impl Write, s: &str, rng: &mut Rng, rep: &mut Report) {
    rep.n += 1;
    match guarded(|| {
        let f = forms(s, rng)?;
        // normalizing again changes nothing
        let again = f[0].nfd().eq(f[0].chars()) && f[1].nfkd().eq(f[1].chars()) && f[2].nfc().eq(f[2].chars()) && f[3].nfkc().eq(f[3].chars());
        Ok((f, again))
    }) {
        Ok(Ok((f, again))) => writeln!(o, "{{\"kind\":\"text\",\"s\":{},\"nfd\":{},\"nfkd\":{},\"nfc\":{},\"nfkc\":{},\"again\":{}}}", jarr(&cps(s)), jarr(&cps(&f[0])), jarr(&cps(&f[1])), jarr(&cps(&f[2])), jarr(&cps(&f[3])), again as u8).unwrap(),
        Ok(Err(e)) | Err(e) => {
            for w in &["N01", "N02"] { rep.bad(format!("{{\"what\":\"{}\",\"text\":{},\"bad\":{}}}", w, jstr(s), jstr(&e))); }
        }
    }
}
fn chars(out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(1);
    let mut run: Option<(u32, u32)> = None;
    for c in scalars() {
        let mut b = [0; 4];
        let s: &str = c.encode_utf8(&mut b);
        let inert = guarded(|| {
            let mut d = vec![];
            un::decompose_canonical(c, |x| d.push(x));
            un::decompose_compatible(c, |x| d.push(x));
            d.len() == 2 && d[0] == c && d[1] == c && s.nfd().eq(s.chars()) && s.nfkd().eq(s.chars()) && s.nfc().eq(s.chars()) && s.nfkc().eq(s.chars())
        })
        .unwrap_or(false);
        let u = c as u32;
        if inert {
            match &mut run {
                Some((_, hi)) if *hi + 1 == u => *hi = u,
                _ => {
                    if let Some((lo, hi)) = run { writeln!(o, "{{\"kind\":\"inert\",\"lo\":{},\"hi\":{}}}", lo, hi).unwrap(); }
                    run = Some((u, u));
                }
            }
        } else {
            line(&mut o, s, &mut rng, &mut rep);
        }
        rep.n += 1;
    }
    if let Some((lo, hi)) = run { writeln!(o, "{{\"kind\":\"inert\",\"lo\":{},\"hi\":{}}}", lo, hi).unwrap(); }
    rep.done();
}
fn compose(a: char, b: char) -> Option<char> {
    // composition through the text interface, when b is adjacent to a
    un::compose(a, b)
}
fn pairs(out: &str, seed: u64, rnd: usize) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    // second characters: everything that is reordered, everything a decomposition contains after
    // its first character, the jamo with their neighbours
    let mut bs: Vec<char> = vec![];
    for c in scalars() {
        if un::CanonicalCombiningClass::of(c).is_reordered() { bs.push(c); }
        if let Some(d) = un::canonical_decomposition(c) { bs.extend(d.iter().skip(1)); }
    }
    for (lo, hi, v) in reference("ccc") { if v != "0" { bs.extend((lo..=hi).filter_map(std::char::from_u32)); } }
    for (_, _, v) in reference("canon") { bs.extend(v.split(' ').skip(1).map(|x| std::char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap())); }
    bs.extend((0x10F0..0x1210u32).filter_map(std::char::from_u32));
    bs.extend("aA\u{0}\u{AC00}\u{AC01}\u{D7A3}\u{10FFFF}".chars());
    bs.sort();
    bs.dedup();
    let cs: Vec<char> = scalars().collect();
    let parts: Vec<Vec<(char, Vec<(u32, u32)>)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = cs.chunks(cs.len() / 8 + 1).map(|ch| {
            let bs = &bs;
            sc.spawn(move || {
                let mut v = vec![];
                for &a in ch {
                    let m: Vec<(u32, u32)> = bs.iter().filter_map(|&b| compose(a, b).map(|c| (b as u32, c as u32))).collect();
                    if !m.is_empty() { v.push((a, m)); }
                }
                v
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    rep.n = (cs.len() * bs.len()) as u64;
    let mut n = 0;
    for (a, m) in parts.into_iter().flatten() {
        n += 1;
        let v: Vec<String> = m.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect();
        writeln!(o, "{{\"kind\":\"comps\",\"a\":{},\"cs\":[{}]}}", a as u32, v.join(",")).unwrap();
    }
    writeln!(o, "{{\"kind\":\"starts\",\"starts\":{}}}", n).unwrap();
    for _ in 0..rnd {
        let pick = |rng: &mut Rng| match rng.below(6) {
            0 => *rng.pick(&cs),
            1 => *rng.pick(&bs),
            2 => cs[0x10F0 + rng.below(0x120)],
            3 => cs[0xABF0 + rng.below(100)],
            4 => cs[0xD780 + rng.below(100)],
            _ => cs[rng.below(0x3000)],
        };
        let (a, b) = (pick(&mut rng), pick(&mut rng));
        let got = guarded(|| compose(a, b)).map_or(-2, |c| c.map_or(-1, |c| c as i64));
        if got != -1 || rng.chance(1, 200) {
            writeln!(o, "{{\"kind\":\"rnd\",\"a\":{},\"b\":{},\"got\":{}}}", a as u32, b as u32, got).unwrap();
        }
        rep.n += 1;
    }
    rep.done();
}
fn syllables(out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    for c in scalars() {
        let u = c as u32;
        let syl = u >= 0xAC00 && u < 0xAC00 + 11172;
        rep.n += 1;
        if hangul::is_syllable(c) != syl {
            rep.bad(format!("{{\"what\":\"N03\",\"bad\":\"is_syllable\",\"char\":{}}}", u));
        }
        if !syl { continue; }
        let g = guarded(|| {
            let mut d = vec![];
            hangul::decompose_syllable(c, &mut |x| d.push(x));
            let mut e = vec![];
            un::decompose_canonical(c, |x| e.push(x));
            let mut k = vec![];
            un::decompose_compatible(c, |x| k.push(x));
            let mut back = hangul::compose_syllable(d[0], d[1]).map_or(-1, |x| x as i64);
            let mut back2 = un::compose(d[0], d[1]).map_or(-1, |x| x as i64);
            if d.len() > 2 {
                let lv = std::char::from_u32(back as u32).unwrap_or('\0');
                back = hangul::compose_syllable(lv, d[2]).map_or(-1, |x| x as i64);
                back2 = un::compose(lv, d[2]).map_or(-1, |x| x as i64);
            }
            let s: String = d.iter().collect();
            let nfc: Vec<char> = s.nfc().collect();
            if d != e || d != k || back2 != back || nfc != vec![c] { back = -3; }
            (d.iter().map(|&x| x as u32).collect::<Vec<_>>(), back)
        });
        match g {
            Ok((d, back)) => writeln!(o, "{{\"kind\":\"syl\",\"c\":{},\"dec\":{},\"back\":{}}}", u, jarr(&d), back).unwrap(),
            Err(e) => rep.bad(format!("{{\"what\":\"N03\",\"char\":{},\"bad\":{}}}", u, jstr(&e))),
        }
    }
    // no other pair makes a syllable
    let seconds: Vec<char> = (0x10F0..0x1210u32).chain(0xABF0..0xAC40).chain(0xD780..0xD7FF).chain(0xA950..0xA990).chain(0x3130..0x3190).filter_map(std::char::from_u32).collect();
    for c in scalars().filter(|&c| (c as u32) < 0x1300 || ((c as u32) >= 0xA900 && (c as u32) < 0xD800) || (c as u32) % 97 == 0) {
        for &b in &seconds {
            rep.n += 1;
            let (a, v) = (c as u32, b as u32);
            let lv = (0x1100..0x1113).contains(&a) && (0x1161..0x1176).contains(&v);
            let lvt = a >= 0xAC00 && a < 0xAC00 + 11172 && (a - 0xAC00) % 28 == 0 && v > 0x11A7 && v < 0x11C3;
            match guarded(|| hangul::compose_syllable(c, b)) {
                Ok(r) if r.is_some() == (lv || lvt) => {}
                r => rep.bad(format!("{{\"what\":\"N03\",\"bad\":\"compose_syllable\",\"a\":{},\"b\":{},\"got\":{}}}", a, v, jstr(&format!("{:?}", r)))),
            }
        }
    }
    rep.done();
}
fn record(seed: u64, n: usize, maxlen: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let expand = |p: &str, f: &dyn Fn(&str) -> bool| -> Vec<char> {
        reference(p).iter().filter(|x| f(&x.2)).flat_map(|x| (x.0..=x.1).filter_map(std::char::from_u32).collect::<Vec<_>>()).collect()
    };
    let marks = expand("ccc", &|v| v != "0");
    let canon = expand("canon", &|v| v != "-");
    let compat = expand("compat", &|v| v != "-");
    let parts: Vec<char> = reference("canon").iter().filter(|x| x.2 != "-").flat_map(|x| x.2.split(' ').map(|h| std::char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect::<Vec<_>>()).collect();
    let jamo: Vec<char> = (0x1100..0x1113u32).chain(0x1161..0x1176).chain(0x11A6..0x11C4).filter_map(std::char::from_u32).collect();
    let few: Vec<char> = "\u{300}\u{301}\u{323}\u{327}\u{31b}\u{345}\u{f71}\u{f72}\u{f80}\u{334}\u{5bf}".chars().collect();
    for k in 0..n {
        let len = if k % 50 == 0 { maxlen * 8 } else { rng.below(maxlen + 1) };
        let style = rng.below(5);
        let mut s = String::new();
        if k % 16 == 9 {
            // long runs of one or two marks after a base, and long runs of bases
            for _ in 0..1 + rng.below(3) {
                s.push(if rng.chance(1, 2) { *rng.pick(&['a', 'e', 'o', 'A', 'u', '\u{3b1}']) } else { *rng.pick(&parts) });
                for _ in 0..1 + rng.below(3) {
                    let a = if rng.chance(2, 3) { *rng.pick(&few) } else { *rng.pick(&marks) };
                    let b = if rng.chance(2, 3) { a } else { *rng.pick(&few) };
                    for i in 0..1 + rng.below(70) {
                        s.push(if i % 2 == 0 { a } else { b });
                    }
                }
                for _ in 0..rng.below(3) {
                    s.push(*rng.pick(&few));
                }
            }
            line(&mut o, &s, &mut rng, &mut rep);
            continue;
        }
        for _ in 0..len {
            let c = match (style, rng.below(12)) {
                (0, _) => *rng.pick(&marks),
                (1, 0..=2) => *rng.pick(&jamo),
                (1, 3) => std::char::from_u32(0xAC00 + rng.below(11172) as u32).unwrap(),
                (1, 4) => std::char::from_u32(0xAC00 + 28 * rng.below(399) as u32).unwrap(),
                (_, 0..=2) => *rng.pick(&few),
                (_, 3..=5) => *rng.pick(&marks),
                (_, 6) => *rng.pick(&canon),
                (_, 7) => *rng.pick(&compat),
                (_, 8..=9) => *rng.pick(&parts),
                (_, 10) => *rng.pick(&['a', 'e', 'o', 'A', 'u', '\u{3b1}', ' ', 'd']),
                _ => std::char::from_u32(rng.below(0x30000) as u32).unwrap_or('x'),
            };
            s.push(c);
        }
        line(&mut o, &s, &mut rng, &mut rep);
    }
    rep.done();
}
/// Contexts for characters that take no part in normalization; the snowman is one.
const PLAIN: [&str; 6] = [
    "a\u{301}\u{323}\u{2603}\u{308}\u{323}\u{e9}",
    "\u{2603}\u{315}\u{300}\u{2603}\u{323}\u{1e69}",
    "\u{1100}\u{2603}\u{1161}\u{AC00}\u{2603}\u{11A8}\u{1100}\u{1161}",
    "\u{212B}\u{2603}\u{2603}\u{FB01}\u{301}\u{2603}\u{9C7}\u{9BE}",
    "\u{344}\u{2603}\u{F73}\u{F71}\u{2603}\u{345}",
    "q\u{307}\u{323}\u{2603}\u{11099}\u{110BA}\u{2603}\u{2ADC}",
];
fn contexts(seed: u64, each: usize, hang: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let mut part = vec![false; 0x110000];
    let mut parts: Vec<char> = vec![];
    for (lo, hi, v) in reference("ccc") { if v != "0" { for u in lo..=hi { part[u as usize] = true; } } }
    for p in &["canon", "compat"] {
        for (lo, hi, v) in reference(p) {
            if v == "-" { continue; }
            for u in lo..=hi { part[u as usize] = true; }
            for x in v.split(' ') {
                let u = u32::from_str_radix(x, 16).unwrap();
                part[u as usize] = true;
                parts.extend(std::char::from_u32(u));
            }
        }
    }
    for u in (0x1100..0x1200).chain(0xAC00..0xD7A4) { part[u] = true; }
    let want: Vec<[String; 4]> = PLAIN.iter().map(|t| {
        line(&mut o, t, &mut rng, &mut rep);
        [t.nfd().collect(), t.nfkd().collect(), t.nfc().collect(), t.nfkc().collect()]
    }).collect();
    let few: Vec<char> = "\u{300}\u{301}\u{323}\u{327}\u{31b}\u{345}\u{f71}\u{f72}\u{334}\u{5bf}\u{3099}\u{94d}\u{338}\u{35c}".chars().collect();
    let base: Vec<char> = "aeoAu\u{3b1}\u{2603}\u{1100}\u{1161}\u{11A8}\u{AC00}\u{AC01}\u{e9}\u{1e69}\u{212b}\u{fb01}\u{344}".chars().collect();
    let mut run: Option<(u32, u32)> = None;
    let mut flush = |o: &mut std::io::BufWriter<std::fs::File>, r: &mut Option<(u32, u32)>| {
        if let Some((lo, hi)) = r.take() { writeln!(o, "{{\"kind\":\"plain\",\"lo\":{},\"hi\":{}}}", lo, hi).unwrap(); }
    };
    for c in scalars() {
        let u = c as u32;
        if !part[u as usize] {
            match &mut run {
                Some((_, hi)) if *hi + 1 == u => *hi = u,
                _ => { flush(&mut o, &mut run); run = Some((u, u)); }
            }
            let i = rng.below(PLAIN.len());
            let mut b = [0; 4];
            let cs: &str = c.encode_utf8(&mut b);
            let s = PLAIN[i].replace('\u{2603}', cs);
            let same = |w: &str, g: &mut dyn Iterator<Item = char>| { let mut w = w.chars().map(|x| if x == '\u{2603}' { c } else { x }); loop { let (a, b) = (w.next(), g.next()); if a != b { return false; } if a.is_none() { return true; } } };
            rep.n += 1;
            let ok = guarded(|| [same(&want[i][0], &mut s.nfd()), same(&want[i][1], &mut s.nfkd()), same(&want[i][2], &mut s.nfc()), same(&want[i][3], &mut s.nfkc())]);
            for (j, w) in ["N01", "N01", "N02", "N02"].iter().enumerate() {
                if !ok.as_ref().map_or(false, |o| o[j]) {
                    rep.bad(format!("{{\"what\":\"{}\",\"form\":\"{}\",\"text\":{},\"bad\":\"unlike its context with U+2603\"}}", w, ["nfd", "nfkd", "nfc", "nfkc"][j], jarr(&cps(&s))));
                }
            }
            continue;
        }
        let syl = u >= 0xAC00 && u <= 0xD7A3;
        if syl && (u as usize + seed as usize) % hang != 0 && (u - 0xAC00) % 28 > 1 { continue; }
        if syl && (u as usize + seed as usize) % 3 != 0 && hang > 1 { continue; }
        for _ in 0..each {
            let mut s = String::new();
            let some = |s: &mut String, n: usize, rng: &mut Rng| for _ in 0..rng.below(n) {
                s.push(match rng.below(9) { 0..=3 => *rng.pick(&few), 4..=6 => *rng.pick(&base), 7 => *rng.pick(&parts), _ => c });
            };
            some(&mut s, 4, &mut rng);
            s.push(c);
            some(&mut s, 4, &mut rng);
            line(&mut o, &s, &mut rng, &mut rep);
        }
    }
    flush(&mut o, &mut run);
    rep.done();
}
fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "replay" => replay(argn(2) as u64),
        "chars" => chars(&arg(2)),
        "pairs" => pairs(&arg(2), argn(3) as u64, argn(4)),
        "syllables" => syllables(&arg(2)),
        "contexts" => contexts(argn(2) as u64, argn(3), argn(4), &arg(5)),
        "record" => record(argn(2) as u64, argn(3), argn(4), &arg(5)),
        _ => panic!("usage"),
    }
}
