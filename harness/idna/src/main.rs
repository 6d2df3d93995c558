// Conformance driver for IDNA processing and Punycode.
//   puny                      behaviours of MCPunycode.tla from stdin
//   domains                   behaviours of MCIdna.tla from stdin
//   singles OUT               every scalar value in five contexts
//   record SEED N OUT         random domains
//   codec SEED N OUT          random texts encoded and encoded forms decoded
#[path = "../../common/util.rs"]
mod util;
use std::io::Write;
use unic_idna::{to_ascii, to_unicode, Flags};
use unic_idna_punycode as puny;
use util::*;

fn flags(std3: bool, trans: bool, dns: bool) -> Flags {
    Flags { use_std3_ascii_rules: std3, transitional_processing: trans, verify_dns_length: dns }
}
fn text(v: &V) -> String {
    v.ints().iter().map(|&c| std::char::from_u32(c as u32).unwrap()).collect()
}
/// All results: to_unicode without and with STD3 rules, then to_ascii for std3 x trans x dns.
fn results(s: &str) -> Result<Vec<(bool, String)>, String> {
    results_of(s, true)
}
fn results_of(s: &str, options: bool) -> Result<Vec<(bool, String)>, String> {
    let mut out = vec![];
    for &std3 in &[false, true] {
        let (t, e) = to_unicode(s, flags(std3, false, false));
        // the other options do not matter
        if !options { out.push((e.is_ok(), t)); continue; }
        for &(trans, dns) in &[(true, false), (true, true), (false, true)] {
            let (t2, e2) = to_unicode(s, flags(std3, trans, dns));
            if t2 != t || e2.is_ok() != e.is_ok() { return Err(format!("to_unicode depends on trans={} dns={}", trans, dns)); }
        }
        out.push((e.is_ok(), t));
    }
    for &std3 in &[false, true] {
        for &trans in &[false, true] {
            for &dns in &[false, true] {
                out.push(match to_ascii(s, flags(std3, trans, dns)) { Ok(t) => (true, t), Err(_) => (false, String::new()) });
            }
        }
    }
    Ok(out)
}
fn show(r: &[(bool, String)]) -> String {
    let v: Vec<String> = r.iter().map(|x| format!("[{},{}]", x.0 as u8, jarr(&cps(&x.1)))).collect();
    format!("[{}]", v.join(","))
}
/// Encode / decode by both entry points.
fn encode(s: &str) -> Option<String> {
    let v: Vec<char> = s.chars().collect();
    let a = puny::encode(&v);
    if puny::encode_str(s) != a { return Some("\u{FFFF}encode_str differs".into()); }
    a
}
fn decode(s: &str) -> Option<String> {
    let a: Option<String> = puny::decode(s).map(|v| v.into_iter().collect());
    if puny::decode_to_string(s) != a { return Some("\u{FFFF}decode_to_string differs".into()); }
    a
}
fn puny_replay() {
    let mut rep = Report::new();
    for l in stdin_lines() {
        let v = match tlc_line(&l) { Some(v) => v, None => continue };
        rep.n += 1;
        let f = v.t();
        let s = text(&f[1]);
        let want = if f[2].i() == 1 { Some(text(&f[3])) } else { None };
        let enc = f[0].i() == 1;
        let got = guarded(|| if enc { encode(&s) } else { decode(&s) });
        if got.as_ref() != Ok(&want) {
            rep.bad(format!("{{\"what\":\"D03\",\"op\":\"{}\",\"input\":{},\"got\":{},\"want\":{}}}", if enc { "encode" } else { "decode" }, jstr(&s), jstr(&format!("{:?}", got)), jstr(&format!("{:?}", want))));
        }
    }
    rep.done();
}
const NAMES: [&str; 10] = ["unicode", "unicode std3", "ascii", "ascii dns", "ascii trans", "ascii trans dns",
    "ascii std3", "ascii std3 dns", "ascii std3 trans", "ascii std3 trans dns"];
fn domains() {
    let mut rep = Report::new();
    for l in stdin_lines() {
        let v = match tlc_line(&l) { Some(v) => v, None => continue };
        rep.n += 1;
        let s = text(&v.t()[0]);
        match guarded(|| results(&s)).unwrap_or_else(|e| Err(format!("panic {}", e))) {
            Err(e) => for w in &["D01", "D02"] { rep.bad(format!("{{\"what\":\"{}\",\"domain\":{},\"bad\":{}}}", w, jstr(&s), jstr(&e))); },
            Ok(g) => {
                for i in 0..10 {
                    let w = v.t()[1 + i].t();
                    let want = (w[0].i() == 1, text(&w[1]));
                    if g[i] != want {
                        // ToUnicode belongs to D01; an ASCII result to D02, and to D01 when processing decides it
                        for p in if i < 2 { &["D01"][..] } else { &["D01", "D02"][..] } {
                            rep.bad(format!("{{\"what\":\"{}\",\"op\":\"{}\",\"domain\":{},\"got\":{},\"want\":{}}}", p, NAMES[i], jstr(&s), jstr(&format!("{:?}", g[i])), jstr(&format!("{:?}", want))));
                        }
                    }
                }
            }
        }
    }
    rep.done();
}
fn dom_line(o: &mut impl Write, s: &str, rep: &mut Report) {
    rep.n += 1;
    match guarded(|| results(s)).unwrap_or_else(|e| Err(format!("panic {}", e))) {
        Ok(r) => writeln!(o, "{{\"kind\":\"dom\",\"s\":{},\"r\":{}}}", jarr(&cps(s)), show(&r)).unwrap(),
        Err(e) => for w in &["D01", "D02"] { rep.bad(format!("{{\"what\":\"{}\",\"domain\":{},\"bad\":{}}}", w, jstr(s), jstr(&e))); },
    }
}
fn label_ascii(l: &str) -> String {
    if l.is_ascii() { l.into() } else { format!("xn--{}", puny::encode_str(l).unwrap_or_default()) }
}
fn singles(out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let cs: Vec<char> = (0..=0x10FFFFu32).filter_map(std::char::from_u32).collect();
    // per character: Ok(signature) if it stands for itself everywhere, else the contexts to record
    let parts: Vec<Vec<(char, Result<String, Vec<String>>)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = cs.chunks(cs.len() / 8 + 1).map(|ch| sc.spawn(move || ch.iter().map(|&c| {
            let ctx = vec![c.to_string(), format!("a{}", c), format!("\u{5d0}{}", c), format!("{}.\u{5d0}", c),
                format!("xn--{}", guarded(|| puny::encode_str(&c.to_string())).ok().flatten().unwrap_or_default())];
            let mut sig = String::from("[");
            let mut plain = c != '.';
            for (i, x) in ctx.iter().enumerate() {
                let p = if i == 4 { c.to_string() } else { x.clone() };
                match guarded(|| results_of(x, i == 0)) {
                    Ok(Ok(r)) => {
                        let a: Vec<String> = p.split('.').map(label_ascii).collect();
                        let a = a.join(".");
                        for (j, y) in r.iter().enumerate() {
                            let w = if j < 2 { &p[..] } else if y.0 { &a[..] } else { "" };
                            plain &= y.1 == w;
                        }
                        let b: Vec<u8> = r.iter().map(|y| y.0 as u8).collect();
                        if i > 0 { sig.push(','); }
                        sig.push_str(&jarr(&b));
                    }
                    _ => plain = false,
                }
            }
            sig.push(']');
            (c, if plain { Ok(sig) } else { Err(ctx) })
        }).collect::<Vec<_>>())).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut run: Option<(u32, u32, String)> = None;
    let put = |o: &mut std::io::BufWriter<std::fs::File>, r: &Option<(u32, u32, String)>| {
        if let Some((lo, hi, s)) = r { writeln!(o, "{{\"kind\":\"single\",\"lo\":{},\"hi\":{},\"sig\":{}}}", lo, hi, s).unwrap(); }
    };
    for (c, r) in parts.into_iter().flatten() {
        rep.n += 1;
        let u = c as u32;
        match r {
            Ok(s) => match &mut run {
                Some((lo, hi, t)) if *hi + 1 == u && *t == s && u - *lo < 8192 => *hi = u,
                _ => { put(&mut o, &run); run = Some((u, u, s)); }
            },
            Err(ctx) => for x in ctx { dom_line(&mut o, &x, &mut rep); },
        }
    }
    put(&mut o, &run);
    rep.done();
}
struct Pools {
    by_bc: Vec<Vec<char>>,
    marks: Vec<char>,
    mapped: Vec<char>,
    valid: Vec<char>,
    other: Vec<char>,
}
const BC: [&str; 23] = ["L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "NSM", "BN", "B", "S", "WS", "ON",
    "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"];
fn pools() -> Pools {
    let idna = reference("idna");
    let sel = |f: &dyn Fn(&str) -> bool| -> Vec<char> {
        idna.iter().filter(|x| f(&x.2)).flat_map(|x| (x.0..=x.1).filter_map(std::char::from_u32).collect::<Vec<_>>()).collect()
    };
    let valid = sel(&|v| v == "V");
    let all = ref_pools("bc", &BC);
    let by_bc = all.into_iter().map(|p| p.into_iter().filter(|c| valid.binary_search(c).is_ok()).collect()).collect();
    let marks = reference("mark").iter().filter(|x| x.2 == "Y").flat_map(|x| (x.0..=x.1).filter_map(std::char::from_u32).collect::<Vec<_>>()).collect();
    Pools { by_bc, marks, mapped: sel(&|v| v.starts_with('M')), valid, other: sel(&|v| !v.starts_with('M') && v != "V" && v != "X") }
}
fn label(p: &Pools, rng: &mut Rng) -> String {
    let mut s = String::new();
    let style = rng.below(9);
    let n = match rng.below(8) { 0 => 0, 1..=4 => 1 + rng.below(5), 5 | 6 => 1 + rng.below(12), _ => 50 + rng.below(16) };
    for i in 0..n {
        let c = match style {
            0 => *rng.pick(&['a', 'b', 'z', '0', '9', '-', 'm', 'x', 'n']),
            1 => *rng.pick(&['\u{e9}', '\u{fc}', 'a', 'b', '\u{153}', '\u{4e00}', '\u{4e01}', '\u{10400}', '\u{ac00}']),
            // right-to-left labels of various classes
            2 | 3 => {
                let k = if i == 0 { 2 + rng.below(2) } else { *rng.pick(&[2, 3, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, if style == 2 { 2 } else { 1 }]) };
                if p.by_bc[k].is_empty() { 'a' } else { *rng.pick(&p.by_bc[k]) }
            }
            4 => {
                let k = *rng.pick(&[1, 1, 1, 4, 6, 7, 8, 9, 9, 14]);
                if p.by_bc[k].is_empty() { 'a' } else { *rng.pick(&p.by_bc[k]) }
            }
            5 => *rng.pick(&p.valid),
            6 => if rng.chance(1, 2) { *rng.pick(&p.mapped) } else { *rng.pick(&p.valid) },
            7 => match rng.below(4) { 0 => *rng.pick(&p.other), 1 => *rng.pick(&p.marks), 2 => *rng.pick(&p.mapped), _ => 'k' },
            _ => match rng.below(12) {
                0 => std::char::from_u32(rng.below(0x110000) as u32).unwrap_or('q'),
                1 => *rng.pick(&['\u{3002}', '\u{ff0e}', '\u{ff61}', '\u{ad}', '\u{200d}', '\u{df}', '\u{3c2}', '_', 'A', '\u{2260}', '\u{37a}', '\u{2488}']),
                2 => *rng.pick(&p.marks),
                3 => *rng.pick(&p.mapped),
                _ => *rng.pick(&p.valid),
            },
        };
        s.push(c);
    }
    if rng.chance(1, 4) {
        // the encoded form, now and then damaged
        let mut e: Vec<char> = guarded(|| puny::encode_str(&s)).ok().flatten().unwrap_or_default().chars().collect();
        if rng.chance(1, 4) {
            for _ in 0..1 + rng.below(2) {
                let at = rng.below(e.len() + 1);
                match rng.below(3) {
                    0 if at < e.len() => { e.remove(at); }
                    1 if at < e.len() => e[at] = *rng.pick(&['a', 'z', '0', '9', '-', 'Z', '\u{e9}']),
                    _ => e.insert(at, *rng.pick(&['a', 'z', '0', '9', '-', 'q', '\u{5d0}'])),
                }
            }
        }
        s = format!("{}{}", if rng.chance(1, 8) { "Xn--" } else { "xn--" }, e.into_iter().collect::<String>());
    }
    s
}
fn record(seed: u64, n: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let p = pools();
    // labels whose encoding is at the edge of what Punycode can express: converted exactly when it can
    for k in 0..40usize {
        let c = *rng.pick(&['\u{2ebe0}', '\u{20000}', '\u{e9}', '\u{4e00}', '\u{10300}']);
        // the first overflow of the delta, and around it
        let edge = (std::u32::MAX / (c as u32 - 0x80)) as usize;
        let b = if edge > 200_000 { 1 + rng.below(300) } else { (edge + 2).saturating_sub(k % 6) };
        let l = "a".repeat(b) + &c.to_string();
        let s = ["", "b.", "\u{e9}.c."][k % 3].to_string() + &l + ["", ".", ".d"][k / 3 % 3];
        rep.n += 1;
        let f = flags(rng.chance(1, 2), rng.chance(1, 2), false);
        let r = guarded(|| {
            let want = puny::encode_str(&l).map(|x| format!("xn--{}", x));
            let got = to_ascii(&s, f);
            if got.is_ok() != want.is_some() { return Err(format!("to_ascii ok: {}, encodable: {}", got.is_ok(), want.is_some())); }
            if let (Ok(g), Some(w)) = (&got, &want) {
                if g.split('.').nth([0, 1, 2][k % 3]) != Some(w) { return Err("not the encoding".to_string()); }
                let (t, e) = to_unicode(g, f);
                if t != s || e.is_err() { return Err("does not convert back".to_string()); }
            }
            if to_ascii(&s, flags(f.use_std3_ascii_rules, f.transitional_processing, true)).is_ok() && b > 60 { return Err("too long for DNS".to_string()); }
            Ok(())
        }).unwrap_or_else(Err);
        if let Err(m) = r { rep.bad(format!("{{\"what\":\"D02\",\"long\":{},\"char\":{},\"bad\":{}}}", b, c as u32, jstr(&m))); }
    }
    for k in 0..n {
        let mut s = String::new();
        if k % 12 == 0 {
            // lengths around the limits
            let total = *rng.pick(&[1, 62, 63, 64, 65, 126, 127, 128, 191, 252, 253, 254, 255]);
            let mut left: usize = total;
            while left > 0 {
                let m = left.min(*rng.pick(&[63, 63, 63, 62, 64, 1, 30]));
                s.push_str(&"abcdefgh0".repeat(8)[..m]);
                left -= m;
                if left > 0 { s.push('.'); left -= 1; }
            }
            if rng.chance(1, 3) { s.push('.'); }
            if rng.chance(1, 5) { s.insert(0, '\u{e9}'); }
        } else if k % 12 == 5 {
            // many short labels, most of them harmless
            let m = 3 + rng.below(45);
            let at = rng.below(m);
            for i in 0..m {
                if i > 0 { s.push('.'); }
                if i == at { s.push_str(&label(&p, &mut rng)); }
                else if rng.chance(1, 20) { s.push_str(*rng.pick(&["1", "a-", "xn--4dbc", "xn--tda", "\u{5d0}\u{5d1}", "1\u{e9}", "-", ""])); }
                else { s.push_str(*rng.pick(&["a", "b1", "\u{e9}", "c", "x2y"])); }
            }
            if rng.chance(1, 5) { s.push_str(*rng.pick(&[".1", ".1a", ".\u{661}", ".xn--4dbc"])); }
        } else if k % 12 == 7 {
            // labels with long runs of one character
            for i in 0..1 + rng.below(3) {
                if i > 0 { s.push('.'); }
                let rtl = rng.chance(2, 3);
                for j in 0..1 + rng.below(4) {
                    let bc = if rtl { *rng.pick(&[2, 3, 4, 5, 6, 7, 8, 9, 9, 9, 10, 14]) } else { *rng.pick(&[1, 1, 4, 6, 7, 8, 9, 9, 14]) };
                    let bc = if j == 0 { if rtl { 2 } else { 1 } } else { bc };
                    let c = if p.by_bc[bc].is_empty() { 'a' } else { *rng.pick(&p.by_bc[bc]) };
                    let n = if rng.chance(1, 2) { 1 } else { 1 + rng.below(40) };
                    for _ in 0..n { s.push(c); }
                }
            }
        } else {
            let m = 1 + rng.below(4);
            for i in 0..m {
                if i > 0 { s.push(*rng.pick(&['.', '.', '.', '.', '\u{3002}', '\u{ff0e}'])); }
                s.push_str(&label(&p, &mut rng));
            }
            if rng.chance(1, 10) { s.push('.'); }
        }
        dom_line(&mut o, &s, &mut rep);
        // and what it converts to
        if rng.chance(1, 4) {
            let a = guarded(|| to_ascii(&s, flags(rng.chance(1, 2), rng.chance(1, 4), false)));
            if let Ok(Ok(a)) = a { dom_line(&mut o, &a, &mut rep); }
        }
    }
    rep.done();
}
fn codec_line(o: &mut impl Write, kind: &str, s: &str, rep: &mut Report) -> Option<String> {
    rep.n += 1;
    match guarded(|| if kind == "enc" { encode(s) } else { decode(s) }) {
        Ok(r) => {
            writeln!(o, "{{\"kind\":\"{}\",\"s\":{},\"ok\":{},\"t\":{}}}", kind, jarr(&cps(s)), r.is_some() as u8, jarr(&cps(r.as_ref().map_or("", |x| x)))).unwrap();
            r
        }
        Err(e) => {
            rep.bad(format!("{{\"what\":\"D03\",\"op\":\"{}\",\"input\":{},\"bad\":{}}}", kind, jstr(s), jstr(&e)));
            None
        }
    }
}
/// three texts of every scalar value in one of `parts` interleaved shares of the code space
fn every(seed: u64, parts: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let mine = seed as usize % parts;
    let mut lo = 0x80u32;
    let mut k = 0;
    while lo <= 0x10FFFF {
        let hi = if lo == 0xD7C0 { 0xD7FF } else { (lo | 63).min(0x10FFFF) };
        // around the plane ends and the surrogate gap always
        if k % parts == mine || (lo & 0xFFFF) < 0x100 || (lo & 0xFFFF) >= 0xFF00 || (lo >= 0xD780 && lo < 0xE080) || lo < 0x1000 {
            let other = std::char::from_u32(rng.below(0x110000) as u32).unwrap_or('z');
            let mut ts = vec![];
            for c in lo..=hi {
                let s = if c == 0xD7FF { 0xE000 } else if c == 0x10FFFF { 128 } else { c + 1 };
                let (c, s) = (std::char::from_u32(c).unwrap(), std::char::from_u32(s).unwrap());
                for t in vec![vec![c, 'a', s], vec![s, other, c, c], vec![c]] {
                    rep.n += 1;
                    let t: String = t.into_iter().collect();
                    match guarded(|| encode(&t)) {
                        Ok(Some(e)) => {
                            match guarded(|| decode(&e)) {
                                Ok(Some(ref d)) if *d == t => {}
                                g => rep.bad(format!("{{\"what\":\"D03\",\"op\":\"round\",\"input\":{},\"encoded\":{},\"got\":{}}}", jarr(&cps(&t)), jstr(&e), jstr(&format!("{:?}", g)))),
                            }
                            ts.push(jarr(&cps(&e)));
                        }
                        g => {
                            rep.bad(format!("{{\"what\":\"D03\",\"op\":\"enc\",\"input\":{},\"got\":{}}}", jarr(&cps(&t)), jstr(&format!("{:?}", g))));
                            ts.push("[]".to_string());
                        }
                    }
                }
            }
            writeln!(o, "{{\"kind\":\"enc3\",\"lo\":{},\"other\":{},\"t\":{}}}", lo, other as u32, jarr(&ts)).unwrap();
        }
        k += 1;
        lo = if hi == 0xD7FF { 0xE000 } else { hi + 1 };
    }
    rep.done();
}
fn codec(seed: u64, n: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    for k in 0..n {
        let len = if k % 100 == 0 { 200 + rng.below(400) } else { rng.below(24) };
        let style = rng.below(6);
        let base = rng.below(0x10F000) as u32;
        let s: String = (0..len).map(|_| match style {
            0 => std::char::from_u32(rng.below(0x110000) as u32).unwrap_or('\u{e000}'),
            1 => std::char::from_u32(base + rng.below(200) as u32).unwrap_or('\u{d7ff}'),
            2 => if rng.chance(1, 12) { std::char::from_u32(rng.below(0x110000) as u32).unwrap_or('-') } else { (33 + rng.below(94)) as u8 as char },
            3 => *rng.pick(&['\u{80}', '\u{81}', '\u{10ffff}', 'a', '\u{d7ff}', '\u{e000}', '\u{7f}', '-']),
            4 => (rng.below(128)) as u8 as char,
            _ => std::char::from_u32(base).unwrap_or('\u{e000}'),
        }).collect();
        let e = codec_line(&mut o, "enc", &s, &mut rep);
        // damaged or random encoded forms
        let mut e: Vec<char> = if rng.chance(2, 3) { e.unwrap_or_default().chars().collect() } else {
            (0..rng.below(30)).map(|_| *rng.pick(&['a', 'b', 'h', 'z', '0', '5', '9', '-', 'A', 'Z', 'q'])).collect()
        };
        if rng.chance(3, 4) {
            for _ in 0..1 + rng.below(3) {
                let at = rng.below(e.len() + 1);
                match rng.below(3) {
                    0 if at < e.len() => { e.remove(at); }
                    1 if at < e.len() => e[at] = if rng.chance(1, 6) { std::char::from_u32(rng.below(0x500) as u32).unwrap() } else { *rng.pick(&['a', 'z', '0', '9', '-', 'A', 'Z', '@', '[', '`', '{', '/', ':', '\u{e9}', '\u{212a}']) },
                    _ => e.insert(at, *rng.pick(&['a', 'z', '0', '9', '-', 'b', 'A', '\u{ff41}'])),
                }
            }
        }
        let e: String = e.into_iter().collect();
        codec_line(&mut o, "dec", &e, &mut rep);
    }
    // around the 32-bit limits: texts too long for the specification's integers.  Encoding gives a
    // form that decodes to the text or fails, and must not fail while no delta can reach 2^32.
    for &len in &[1800usize, 3000, 3852, 3853, 3854, 3855, 3856, 4000, 5000] {
        for &last in &['\u{10ffff}', '\u{10ff70}', '\u{e000}', '\u{10fffe}', '\u{80}'] {
            for &tail in &[0, 1, 700] {
                let s: String = std::iter::repeat('a').take(len - 1).chain(Some(last)).chain(std::iter::repeat('\u{10ffff}').take(tail)).collect();
                rep.n += 1;
                let total = (len + tail) as u64;
                let g = guarded(|| encode(&s).map(|e| decode(&e)));
                let fits = 0x10FFFF * (total + 1) + total < 1 << 32;
                let ok = match &g { Err(_) => false, Ok(None) => !fits, Ok(Some(d)) => d.as_ref() == Some(&s) };
                if !ok { rep.bad(format!("{{\"what\":\"D03\",\"op\":\"long\",\"len\":{},\"tail\":{},\"last\":{},\"got\":{}}}", len, tail, last as u32, jstr(&format!("{:?}", g.map(|x| x.map(|y| y.map(|z| z.len()))))))); }
            }
        }
    }
    // long or huge encoded forms never panic
    for k in 0..n / 4 {
        let len = rng.below(if k % 50 == 0 { 5000 } else { 40 });
        let s: String = (0..len).map(|_| if rng.chance(9, 10) { *rng.pick(&['9', '8', 'z']) } else { *rng.pick(&['a', '-', '0', 'Z']) }).collect();
        rep.n += 1;
        if let Err(e) = guarded(|| decode(&s)) { rep.bad(format!("{{\"what\":\"D03\",\"op\":\"decode\",\"input\":{},\"bad\":{}}}", jstr(&s), jstr(&e))); }
    }
    rep.done();
}
fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "puny" => puny_replay(),
        "domains" => domains(),
        "singles" => singles(&arg(2)),
        "record" => record(argn(2) as u64, argn(3), &arg(4)),
        "every" => every(argn(2) as u64, argn(3), &arg(4)),
        "codec" => codec(argn(2) as u64, argn(3), &arg(4)),
        _ => panic!("usage"),
    }
}
