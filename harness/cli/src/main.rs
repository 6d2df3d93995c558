// Conformance driver for the notations of the command-line tools.
//   replay                  behaviours of MCNotation.tla from stdin
//   blocks OUT SLICE OF     scalar values in blocks, one slice and the edges
//   record SEED N OUT       random texts
//   lists SEED N OUT        lists in many spellings, well-formed or not
//   echo SEED N OUT         the unic-echo program on random arguments
#[path = "../../common/util.rs"]
mod util;
use std::io::Write;
use unic_char_basics::unicode_notation;
use unic_cli::{parsers, writers};
use util::*;

fn text(v: &V) -> String {
    v.ints().iter().map(|&c| std::char::from_u32(c as u32).unwrap()).collect()
}
type Wr = fn(&mut Vec<u8>, std::str::Chars) -> std::io::Result<()>;
fn w(f: Wr, s: &str) -> String {
    let mut v = vec![];
    match guarded(|| f(&mut v, s.chars())) {
        Ok(Ok(())) => String::from_utf8(v).unwrap_or_else(|_| "<ill-formed>".into()),
        Ok(Err(_)) => "<error>".into(),
        Err(_) => "<panic>".into(),
    }
}
/// Code points, UTF-8, UTF-16, escaped, escaped all, escaped control.
fn forms(s: &str) -> [String; 6] {
    [
        w(writers::write_as_codepoints, s),
        w(writers::write_as_utf8_hex, s),
        w(writers::write_as_utf16_hex, s),
        w(writers::write_with_control_n_unicode_braces_escape, s),
        w(writers::write_with_all_braces_escape, s),
        w(writers::write_with_control_braces_escape, s),
    ]
}
fn parse(k: usize, s: &str) -> Option<String> {
    guarded(|| match k { 1 => parsers::codepoints(s), 2 => parsers::utf8_hex(s), _ => parsers::utf16_hex(s) }).ok()
}
fn replay() {
    let mut rep = Report::new();
    for l in stdin_lines() {
        let v = match tlc_line(&l) { Some(v) => v, None => continue };
        rep.n += 1;
        let f = v.t();
        let s = text(&f[1]);
        if f[0].i() == 0 {
            let g = forms(&s);
            for i in 0..5 {
                let want = text(&f[2 + i]);
                if g[i] != want { rep.bad(format!("{{\"what\":\"L01\",\"text\":{},\"form\":{},\"got\":{},\"want\":{}}}", jstr(&s), i, jstr(&g[i]), jstr(&want))); }
                if i < 3 && parse(i + 1, &want).as_ref() != Some(&s) {
                    rep.bad(format!("{{\"what\":\"L01\",\"text\":{},\"parse\":{},\"got\":{}}}", jstr(&s), jstr(&want), jstr(&format!("{:?}", parse(i + 1, &want)))));
                }
            }
        } else {
            let want = if f[2].i() == 1 { Some(text(&f[3])) } else { None };
            let got = parse(f[0].i() as usize, &s);
            if got != want { rep.bad(format!("{{\"what\":\"L01\",\"list\":{},\"kind\":{},\"got\":{},\"want\":{}}}", jstr(&s), f[0].i(), jstr(&format!("{:?}", got)), jstr(&format!("{:?}", want)))); }
        }
    }
    rep.done();
}
fn fields(s: &str) -> String {
    let f = forms(s);
    let back = (1..=3).all(|i| parse(i, &f[i - 1]).as_ref().map(|x| &x[..]) == Some(s));
    format!("\"cp\":{},\"u8\":{},\"u16\":{},\"esc\":{},\"all\":{},\"ctl\":{},\"back\":{}",
        jarr(&cps(&f[0])), jarr(&cps(&f[1])), jarr(&cps(&f[2])), jarr(&cps(&f[3])), jarr(&cps(&f[4])), jarr(&cps(&f[5])), back as u8)
}
fn blocks(out: &str, slice: u32, of: u32) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut lo = 0u32;
    while lo < 0x110000 {
        let hi = lo + 31;
        let s: String = (lo..=hi).filter_map(std::char::from_u32).collect();
        let edge = lo < 0x1000 || lo & 0xFFFF == 0 || hi & 0xFFFF == 0xFFFF || hi == 0xD7FF || lo == 0xE000;
        if !s.is_empty() && (edge || (lo / 32) % of == slice % of) {
            let note: Vec<String> = s.chars().map(|c| unicode_notation(c).to_string()).collect();
            writeln!(o, "{{\"kind\":\"block\",\"lo\":{},\"hi\":{},\"note\":{},{}}}", lo, hi, jarr(&cps(&note.join(" "))), fields(&s)).unwrap();
            rep.n += 32;
        }
        lo = hi + 1;
    }
    rep.done();
}
fn rnd(rng: &mut Rng, n: usize, nul: bool) -> String {
    (0..n).map(|_| {
        let c = match rng.below(7) {
            0 => rng.below(0x80) as u32,
            1 => rng.below(0x800) as u32,
            2 => rng.below(0x10000) as u32,
            3 => 0xD700 + rng.below(0x1000) as u32,
            4 => 0x10000 + rng.below(0x100000) as u32,
            5 => *rng.pick(&[9, 10, 13, 32, 34, 39, 92, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x301, 0x200b, 0x2028]),
            _ => 0x20 + rng.below(0x60) as u32,
        };
        std::char::from_u32(c).filter(|&c| nul || c != '\0').unwrap_or('x')
    }).collect()
}
fn record(seed: u64, n: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    for _ in 0..n {
        let len = rng.below(12);
        let s = rnd(&mut rng, len, true);
        rep.n += 1;
        writeln!(o, "{{\"kind\":\"text\",\"s\":{},{}}}", jarr(&cps(&s)), fields(&s)).unwrap();
    }
    rep.done();
}
/// A list of numbers, each spelled in one of the ways the parsers read, or spoilt.
fn spell(rng: &mut Rng, kind: usize) -> String {
    let len = rng.below(7);
    let t = rnd(rng, len, true);
    let mut units: Vec<u32> = match kind {
        1 => t.chars().map(|c| c as u32).collect(),
        2 => t.bytes().map(u32::from).collect(),
        _ => t.encode_utf16().map(u32::from).collect(),
    };
    if !units.is_empty() && rng.chance(1, 4) {
        let k = rng.below(units.len());
        match rng.below(4) {
            0 => { units.remove(k); }
            1 => { let x = units[k]; units.insert(k, x); }
            2 => units[k] = *rng.pick(&[0, 1, 9, 0x10, 0x80, 0xBF, 0xC0, 0xF4, 0xFF, 0x100, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF]),
            _ => { let j = rng.below(units.len()); units.swap(j, k); }
        }
    }
    const SEPS: [&str; 14] = [" ", ",", ";", "\t", "-", "/", ".", ":", "\n", "\u{A0}", "\u{3000}", "\u{2014}", "\u{1F600}", "\\"];
    let style = (rng.below(4), rng.below(4), rng.below(3), rng.pick(&SEPS).to_string());
    let mut s = String::new();
    for (i, u) in units.iter().enumerate() {
        if i > 0 || rng.chance(1, 6) {
            for _ in 0..1 + if rng.chance(1, 4) { rng.below(3) } else { 0 } {
                s.push_str(if rng.chance(1, 3) { *rng.pick(&SEPS) } else { &style.3 });
            }
        }
        let each = rng.chance(1, 4);
        let pre = if each { rng.below(4) } else { style.0 };
        s.push_str(match (kind, pre) { (1, 0) => "U+", (1, 1) => "u+", (_, 0) if kind > 1 => "0x", (_, 1) if kind > 1 => "0X", _ => "" });
        let width = match if each { rng.below(4) } else { style.1 } { 0 => 0, 1 => 2 * kind.min(2), 2 => rng.below(7), _ => 4 + rng.below(12) };
        let case = if each { rng.below(3) } else { style.2 };
        for c in format!("{:0w$x}", u, w = width).chars() {
            s.push(if case == 1 || case == 2 && rng.chance(1, 2) { c.to_ascii_uppercase() } else { c });
        }
    }
    if rng.chance(1, 8) { s.push_str(*rng.pick(&[" ", ",", " 0x", " U+ 41", " _", " g", " 4_1", " 0x0x41", " U+U+41", " \u{e9}", " \u{660}", " 100000000", " fffffffff1"])); }
    s
}
fn lists(seed: u64, n: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    // every code unit and some code points alone, in all lengths and prefixes
    for kind in 1..=3usize {
        for u in (0..0x120u32).chain([0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0xFFFFF, 0x100000, 0x10FFFF, 0x110000].iter().cloned()) {
            let mut s = String::new();
            for w in [0usize, 1, 2, 3, 4, 5, 6, 8, 9, 17].iter() {
                for p in if kind == 1 { ["", "U+", "u+"] } else { ["", "0x", "0X"] }.iter() {
                    s = format!("{}{:0w$x}", p, u, w = *w);
                    if kind == 2 && u >= 0x80 { continue; }
                    list_line(&mut o, kind, &s, &mut rep);
                }
            }
            list_line(&mut o, kind, &s, &mut rep);
        }
    }
    for i in 0..n {
        let s = spell(&mut rng, 1 + i % 3);
        list_line(&mut o, 1 + i % 3, &s, &mut rep);
    }
    rep.done();
}
fn list_line(o: &mut impl Write, kind: usize, s: &str, rep: &mut Report) {
    let g = parse(kind, s);
    rep.n += 1;
    writeln!(o, "{{\"kind\":\"list\",\"p\":{},\"s\":{},\"ok\":{},\"got\":{}}}", kind, jarr(&cps(s)), g.is_some() as u8, jarr(&cps(&g.unwrap_or_default()))).unwrap();
}
const IN: [&[&str]; 4] = [&["plain"], &["codepoint", "codepoints"], &["utf8-hex"], &["utf16-hex"]];
const OUT: [&[&str]; 7] = [&["plain"], &["codepoint", "codepoints"], &["utf8-hex"], &["utf16-hex"],
    &["braces-escape", "js6-escape", "rust-escape"], &["braces-escape-all", "js6-escape-all", "rust-escape-all"],
    &["braces-escape-control", "js6-escape-control", "rust-escape-control"]];
fn echo(seed: u64, n: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let exe = std::env::current_exe().unwrap().with_file_name("conf-unic-echo");
    for k in 0..n {
        let i = k % 4;
        let q = (k / 4) % 7;
        let len = rng.below(7);
        let t = rnd(&mut rng, len, i != 0);
        let mut s = if i == 0 { t } else { forms(&t)[i - 1].clone() };
        if i > 0 && rng.chance(1, 2) {
            s = s.replace(' ', *rng.pick(&[",", "; ", "  ", "-", "\t"]));
            if rng.chance(1, 2) { s = s.to_lowercase(); }
            if rng.chance(1, 3) { s = s.replace("0x", "").replace("U+", ""); }
            if rng.chance(1, 6) { s.push_str(*rng.pick(&[" D800", " 110000", " 0x", " C3", " z"])); }
        }
        let mut cmd = std::process::Command::new(&exe);
        let nl = rng.chance(1, 2);
        if !nl { cmd.arg(*rng.pick(&["-n", "--no-newline"])); }
        if i > 0 || rng.chance(1, 2) { cmd.arg(*rng.pick(&["-i", "--input"])).arg(*rng.pick(IN[i])); }
        if q > 0 || rng.chance(1, 2) { cmd.arg(*rng.pick(&["-o", "--output"])).arg(*rng.pick(OUT[q])); }
        cmd.arg("--");
        // arguments are joined by single spaces
        let cut = s.char_indices().filter(|x| x.1 == ' ').map(|x| x.0).last();
        match cut {
            Some(c) if rng.chance(1, 2) => { cmd.arg(&s[..c]).arg(&s[c + 1..]); }
            _ => if !s.is_empty() { cmd.arg(&s); },
        }
        let r = cmd.stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).output();
        rep.n += 1;
        match r {
            Ok(r) => {
                let got = String::from_utf8_lossy(&r.stdout).into_owned();
                writeln!(o, "{{\"kind\":\"echo\",\"in\":{},\"out\":{},\"nl\":{},\"s\":{},\"ok\":{},\"got\":{}}}", i, q, nl as u8, jarr(&cps(&s)), r.status.success() as u8, jarr(&cps(&got))).unwrap();
            }
            Err(e) => panic!("conf-cli cannot run the tool: {}", e),
        }
    }
    rep.done();
}
/// Runs of the inspector on `args`, its table read back by rows.
fn inspect_line(o: &mut impl Write, exe: &std::path::Path, args: &[String], rep: &mut Report) {
    let r = std::process::Command::new(exe).arg("--").args(args).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).output();
    let r = r.unwrap_or_else(|e| panic!("conf-cli cannot run the tool: {}", e));
    let text = String::from_utf8_lossy(&r.stdout).into_owned();
    let mut rows = vec![];
    for l in text.split_terminator('\n') {
        let mut f: Vec<&str> = l.rsplitn(4, '|').map(|x| x.trim_matches(' ')).collect();
        f.reverse();
        let head = f.remove(0);
        rows.push(format!("[{},{}]", jarr(&cps(head)), f.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")));
        rep.n += 1;
    }
    let a: Vec<String> = args.iter().map(|x| jarr(&cps(x))).collect();
    writeln!(o, "{{\"kind\":\"inspect\",\"args\":[{}],\"ok\":{},\"rows\":[{}]}}", a.join(","), r.status.success() as u8, rows.join(",")).unwrap();
}
fn inspect(seed: u64, every: usize, n: usize, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let exe = std::env::current_exe().unwrap().with_file_name("conf-unic-inspector");
    // all characters below U+33FF and a share of the others, in pieces; NUL cannot be an argument
    let mut piece = String::new();
    let mut k = seed as usize;
    for u in 1..=0x10FFFFu32 {
        if let Some(c) = std::char::from_u32(u) {
            k += 1;
            if u < 0x3400 || k % every == 0 || (u & 0xFFFF) >= 0xFFF0 { piece.push(c); }
        }
        if piece.len() > 2000 || u == 0x10FFFF {
            inspect_line(&mut o, &exe, &[std::mem::replace(&mut piece, String::new())], &mut rep);
        }
    }
    for _ in 0..n {
        let m = rng.below(4);
        let args: Vec<String> = (0..m).map(|_| { let len = rng.below(6); rnd(&mut rng, len, true).replace('\0', "-") }).collect();
        inspect_line(&mut o, &exe, &args, &mut rep);
    }
    rep.done();
}
fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "replay" => replay(),
        "blocks" => blocks(&arg(2), argn(3) as u32, argn(4) as u32),
        "record" => record(argn(2) as u64, argn(3), &arg(4)),
        "lists" => lists(argn(2) as u64, argn(3), &arg(4)),
        "inspect" => inspect(argn(2) as u64, argn(3), argn(4), &arg(5)),
        "echo" => echo(argn(2) as u64, argn(3), &arg(4)),
        _ => panic!("usage"),
    }
}
