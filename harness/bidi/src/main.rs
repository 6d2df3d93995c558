// Conformance driver for unic-bidi.
//   replay SEED EVERY OF         replay specification behaviours (class strings with expected
//                                levels, reported classes and paragraphs) on the real code; then
//                                EVERY of them for each scalar value (one in OF of class L)
//   record SEED N DEEP OUT       run the code on generated texts and lines, record traces
//   level                        replay the specification of level arithmetic (stdin)
#[path = "../../common/util.rs"]
mod util;
use std::io::{BufRead, Write};
use unic_bidi::{BidiInfo, Level};
use unic_ucd_bidi::BidiClass;
use util::*;

const ABBR: [&str; 23] = [
    "L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "NSM", "BN", "B", "S", "WS", "ON", "LRE", "LRO",
    "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI",
];
fn code(c: BidiClass) -> usize {
    use unic_ucd_bidi::bidi_class::abbr_names as A;
    let all = [
        A::L, A::R, A::AL, A::EN, A::AN, A::ES, A::ET, A::CS, A::NSM, A::BN, A::B, A::S, A::WS,
        A::ON, A::LRE, A::LRO, A::RLE, A::RLO, A::PDF, A::LRI, A::RLI, A::FSI, A::PDI,
    ];
    all.iter().position(|&x| x == c).unwrap() + 1
}

/// All characters of each class (index 1..=23), grouped by encoded length.
fn pools() -> Vec<[Vec<char>; 4]> {
    let mut p: Vec<[Vec<char>; 4]> = (0..24).map(|_| Default::default()).collect();
    for u in 0..=0x10FFFFu32 {
        if let Some(c) = std::char::from_u32(u) {
            p[code(BidiClass::of(c))][c.len_utf8() - 1].push(c);
        }
    }
    p
}
fn pick(p: &[[Vec<char>; 4]], rng: &mut Rng, cls: usize) -> char {
    let lens: Vec<&Vec<char>> = p[cls].iter().filter(|v| !v.is_empty()).collect();
    let v = *rng.pick(&lens);
    *rng.pick(v)
}
fn dir_of(d: i64) -> Option<Level> {
    if d == 1000 {
        None
    } else {
        Some(Level::new(d as u8).unwrap())
    }
}

struct Analysis {
    clen: Vec<usize>,  // encoded length per char
    ocls: Vec<usize>,  // reported class per char
    lv: Vec<u8>,       // level per char
    uni: bool,         // all bytes of a char agree, vectors have the text's length
    paras: Vec<(usize, usize, u8)>, // char positions, 1-based inclusive
}
fn starts(text: &str) -> Vec<usize> {
    text.char_indices().map(|x| x.0).collect()
}
/// char position (0-based count of chars before byte b); usize::MAX/2 if not a boundary
fn cpos(st: &[usize], len: usize, b: usize) -> usize {
    if b == len {
        return st.len();
    }
    st.binary_search(&b).unwrap_or(9_999_999)
}
fn analyze(text: &str, info: &BidiInfo<'_>) -> Analysis {
    let st = starts(text);
    let mut uni = info.levels.len() == text.len() && info.original_classes.len() == text.len();
    let (mut clen, mut ocls, mut lv) = (vec![], vec![], vec![]);
    for (i, c) in text.char_indices() {
        clen.push(c.len_utf8());
        if !uni {
            continue;
        }
        ocls.push(code(info.original_classes[i]));
        lv.push(info.levels[i].number());
        for j in i..i + c.len_utf8() {
            if info.levels[j] != info.levels[i]
                || info.original_classes[j] != info.original_classes[i]
            {
                uni = false;
            }
        }
    }
    let paras = info
        .paragraphs
        .iter()
        .map(|p| {
            (
                cpos(&st, text.len(), p.range.start) + 1,
                cpos(&st, text.len(), p.range.end),
                p.level.number(),
            )
        })
        .collect();
    Analysis { clen, ocls, lv, uni, paras }
}

/// A behaviour of the specification: base direction, classes, and what it expects.
struct Want {
    dir: i64,
    cls: Vec<u8>,
    lv: Vec<u8>,
    ocls: Vec<usize>,
    paras: Vec<(usize, usize, u8)>,
}
fn one(rep: &mut Report, w: &Want, text: &str) {
    rep.n += 1;
    let head = || {
        let names: Vec<String> = w.cls.iter().map(|&c| jstr(ABBR[c as usize - 1])).collect();
        format!("\"dir\":{},\"classes\":{},\"text\":{}", w.dir, jarr(&names), jarr(&cps(text)))
    };
    match guarded(|| {
        let info = BidiInfo::new(text, dir_of(w.dir));
        let top = w.lv.iter().cloned().max().unwrap_or(0);
        let said = format!("{} paragraphs with a maximum bidirectional level of {}", w.paras.len(), top);
        let mut a = analyze(text, &info);
        // the summary and the question whether anything runs from right to left
        a.uni &= info.to_string() == said && info.has_rtl() == w.lv.iter().any(|x| x % 2 == 1);
        a
    }) {
        Err(m) => rep.bad(format!("{{\"what\":\"panic\",{},\"message\":{}}}", head(), jstr(&m))),
        Ok(a) => {
            if !a.uni || a.lv != w.lv {
                rep.bad(format!("{{\"what\":\"levels\",{},\"expected\":{},\"got\":{},\"uniform\":{}}}", head(), jarr(&w.lv), jarr(&a.lv), a.uni));
            }
            if a.ocls != w.ocls || a.paras != w.paras {
                rep.bad(format!("{{\"what\":\"paragraphs\",{},\"expected_classes\":{},\"got_classes\":{},\"expected_paras\":{},\"got_paras\":{}}}",
                    head(), jarr(&w.ocls), jarr(&a.ocls), jstr(&format!("{:?}", w.paras)), jstr(&format!("{:?}", a.paras))));
            }
        }
    }
}
/// For every scalar value, behaviours with its class somewhere: (which behaviour, text).
/// `sweep` is the number of behaviours per scalar value; of the large class L one in `of` is taken.
fn sweep(seed: u64, p: &[[Vec<char>; 4]], cls: &[&[u8]], sweep: usize, of: usize, mut f: impl FnMut(usize, String)) {
    let mut rng = Rng::new(seed ^ 0x5eed);
    let mut with: Vec<Vec<(u32, u8)>> = vec![vec![]; 24];
    for (i, c) in cls.iter().enumerate() {
        for (j, &x) in c.iter().enumerate() {
            with[x as usize].push((i as u32, j as u8));
        }
    }
    for u in 0..=0x10FFFFu32 {
        if let Some(c) = std::char::from_u32(u) {
            let k = code(BidiClass::of(c));
            if with[k].is_empty() || k == 1 && u > 0x3000 && (u as usize + seed as usize) % of != 0 { continue; }
            for _ in 0..sweep {
                let &(i, j) = rng.pick(&with[k]);
                let text: String = cls[i as usize].iter().enumerate()
                    .map(|(n, &x)| if n == j as usize || x as usize == k && rng.chance(1, 2) { c } else { pick(p, &mut rng, x as usize) }).collect();
                f(i as usize, text);
            }
        }
    }
}
fn replay(seed: u64, every: usize, of: usize) {
    let p = pools();
    let mut rng = Rng::new(seed);
    let mut rep = Report::new();
    let mut kept: Vec<Want> = vec![];
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let v = match tlc_line(&line) {
            Some(v) => v,
            None => continue,
        };
        let t = v.t();
        let w = Want {
            dir: t[0].i(),
            cls: t[1].ints().iter().map(|&x| x as u8).collect(),
            lv: t[2].ints().iter().map(|&x| x as u8).collect(),
            ocls: t[3].ints().iter().map(|&x| x as usize).collect(),
            paras: t[4].t().iter().map(|q| (q.t()[0].i() as usize, q.t()[1].i() as usize, q.t()[2].i() as u8)).collect(),
        };
        let text: String = w.cls.iter().map(|&c| pick(&p, &mut rng, c as usize)).collect();
        one(&mut rep, &w, &text);
        if every > 0 {
            kept.push(w);
        }
    }
    let n = rep.n;
    if every > 0 {
        let cls: Vec<&[u8]> = kept.iter().map(|w| &w.cls[..]).collect();
        sweep(seed, &p, &cls, every, of, |i, text| one(&mut rep, &kept[i], &text));
    }
    println!("INFO swept={}", rep.n - n);
    rep.n = n;
    rep.done();
}

fn record(seed: u64, n: usize, deep: usize, long: usize, out: &str) {
    let p = pools();
    let mut rng = Rng::new(seed);
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut made = 0;
    for k in 0..n + deep + long {
        let mut cls: Vec<usize> = vec![];
        // the special texts are spread evenly over the record
        let special = (k + 1) * (deep + long) / (n + deep + long) > k * (deep + long) / (n + deep + long);
        made += special as usize;
        if special && made > deep {
            // long runs: short patterns repeated up to eighty times, with single characters between
            let alpha: &[usize] = match rng.below(4) {
                0 => &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14],
                1 => &[1, 2, 5, 10, 13, 14, 12, 19, 23],
                2 => &[1, 2, 4, 15, 17, 18, 19, 20, 21, 22, 23],
                _ => &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23],
            };
            let goal = 40 + rng.below(160);
            while cls.len() < goal {
                for _ in 0..rng.below(3) {
                    cls.push(*rng.pick(alpha));
                }
                let size = if rng.chance(2, 3) { 1 } else { 2 + rng.below(3) };
                let pat: Vec<usize> = (0..size).map(|_| *rng.pick(alpha)).collect();
                for _ in 0..2 + rng.below(80) / size {
                    cls.extend(pat.iter());
                }
                cls.push(*rng.pick(&[1, 2, 4, 5]));
            }
        } else if !special {
            // mixed alphabets so that both dense rule interactions and all classes occur
            let alpha: &[usize] = match rng.below(6) {
                0 => &[1, 2, 3, 4, 5, 6, 7, 8, 9, 14],
                1 => &[1, 2, 4, 10, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23],
                2 => &[1, 2, 3, 11, 12, 13, 20, 21, 22, 23, 10],
                3 => &[2, 4, 5, 7, 8, 9, 10, 13, 12, 23, 20],
                _ => &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23],
            };
            let len = rng.below(22);
            for _ in 0..len {
                cls.push(*rng.pick(alpha));
            }
        } else if rng.chance(1, 3) {
            // isolates only, opened past every limit and closed again, sometimes twice over
            for _ in 0..1 + rng.below(2) {
                let target = if rng.chance(1, 2) { 110 + rng.below(40) } else { 50 + rng.below(110) };
                for _ in 0..target {
                    cls.push(*rng.pick(&[20, 21, 22, 22]));
                    if rng.chance(1, 60) {
                        cls.push(*rng.pick(&[4, 14, 10, 1, 2]));
                    }
                }
                if rng.chance(1, 2) {
                    cls.push(*rng.pick(&[1, 2, 4]));
                }
                let close = match rng.below(3) { 0 => target, 1 => target - rng.below(40), _ => target + rng.below(3) };
                let stop = rng.below(close);
                for i in 0..close {
                    cls.push(23);
                    if i == stop || rng.chance(1, 40) {
                        cls.push(*rng.pick(&[4, 14, 1, 2, 3]));
                    }
                }
                cls.push(*rng.pick(&[1, 2, 3, 4]));
            }
        } else {
            // deep nesting, overflow and recovery
            let openers: &[usize] = if rng.chance(1, 2) { &[15, 16, 17, 18, 20, 21, 22] } else { &[17, 21, 15] };
            let target = 55 + rng.below(110);
            for _ in 0..target {
                cls.push(*rng.pick(openers));
                if rng.chance(1, 20) {
                    cls.push(*rng.pick(&[1, 2, 4, 14, 10]));
                }
            }
            for _ in 0..rng.below(60) {
                cls.push(*rng.pick(&[1, 2, 4, 5, 14, 19, 19, 23, 23, 17, 21, 9]));
            }
        }
        let dir = match rng.below(5) {
            0 | 1 => 1000,
            2 => 0,
            3 => 1,
            _ => rng.below(126) as i64,
        };
        let text: String = cls.iter().map(|&c| pick(&p, &mut rng, c)).collect();
        rep.n += 1;
        let head = format!("\"dir\":{},\"cls\":{},\"cps\":{}", dir, jarr(&cls), jarr(&cps(&text)));
        let r = guarded(|| {
            let info = BidiInfo::new(&text, dir_of(dir));
            let a = analyze(&text, &info);
            let st = starts(&text);
            let bpos = |c: usize| if c == st.len() { text.len() } else { st[c] };
            let mut lines = vec![];
            for (pi, para) in info.paragraphs.iter().enumerate() {
                let (pf, pt) = (cpos(&st, text.len(), para.range.start), cpos(&st, text.len(), para.range.end));
                let mut want = vec![(pf, pt)];
                for _ in 0..3 {
                    let a = pf + rng.below(pt - pf + 1);
                    let b = pf + rng.below(pt - pf + 1);
                    want.push((a.min(b), a.max(b)));
                }
                for (a, b) in want {
                    let range = bpos(a)..bpos(b);
                    let (levels, runs) = info.visual_runs(para, range.clone());
                    let rl = info.reordered_levels(para, range.clone());
                    let rc = info.reordered_levels_per_char(para, range.clone());
                    let ro = info.reorder_line(para, range.clone());
                    let mut uni = levels == rl && rc.len() == st.len();
                    let mut lv = vec![];
                    let mut lvc = vec![];
                    for c in a..b {
                        lv.push(levels[bpos(c)].number());
                        if uni {
                            lvc.push(rc[c].number());
                        }
                        for j in bpos(c)..bpos(c + 1) {
                            uni &= levels[j] == levels[bpos(c)];
                        }
                    }
                    let rs: Vec<String> = runs
                        .iter()
                        .map(|r| format!("[{},{}]", cpos(&st, text.len(), r.start) + 1, cpos(&st, text.len(), r.end)))
                        .collect();
                    lines.push(format!(
                        "{{\"p\":{},\"from\":{},\"to\":{},\"lv\":{},\"lvc\":{},\"uni\":{},\"runs\":[{}],\"out\":{}}}",
                        pi + 1, a + 1, b, jarr(&lv), jarr(&lvc), uni as u8, rs.join(","), jarr(&cps(&ro))
                    ));
                }
            }
            let rtl = info.has_rtl();
            (a, lines, rtl)
        });
        match r {
            Err(m) => rep.bad(format!("{{\"what\":\"panic\",{},\"message\":{}}}", head, jstr(&m))),
            Ok((a, lines, rtl)) => {
                let ps: Vec<String> = a.paras.iter().map(|q| format!("[{},{},{}]", q.0, q.1, q.2)).collect();
                writeln!(
                    f,
                    "{{{},\"uni\":{},\"ocls\":{},\"lv\":{},\"rtl\":{},\"paras\":[{}],\"lines\":[{}]}}",
                    head, a.uni as u8, jarr(&a.ocls), jarr(&a.lv), rtl as u8, ps.join(","), lines.join(",")
                )
                .unwrap();
            }
        }
    }
    rep.done();
}

/// Lines: <<dir, classes, levels, <<<<paragraph, from, to, levels, order>>, ...>>>> from the specification.
fn line_case(rep: &mut Report, v: &V, text: &str) {
    rep.n += 1;
    let t = v.t();
    let dir = t[0].i();
    let chars: Vec<char> = text.chars().collect();
    let st = starts(text);
    let bpos = |c: usize| if c == st.len() { text.len() } else { st[c] };
    let info = match guarded(|| BidiInfo::new(text, dir_of(dir))) {
        Ok(i) => i,
        Err(_) => return, // B01 reports it
    };
    let base: Vec<u8> = t[2].ints().iter().map(|&x| x as u8).collect();
    if analyze(text, &info).lv != base {
        return; // B01 reports it
    }
    for l in t[3].t() {
        let l = l.t();
        let (k, a, b) = (l[0].i() as usize, l[1].i() as usize - 1, l[2].i() as usize);
        let lv: Vec<u8> = l[3].ints().iter().map(|&x| x as u8).collect();
        let want: String = l[4].ints().iter().map(|&x| chars[a + x as usize - 1]).collect();
        if k > info.paragraphs.len() {
            continue; // B02 reports it
        }
        let para = &info.paragraphs[k - 1];
        let range = bpos(a)..bpos(b);
        let r = guarded(|| {
            let per_char = info.reordered_levels_per_char(para, range.clone());
            let got: Vec<u8> = (a..b).map(|c| per_char[c].number()).collect();
            (got, info.reorder_line(para, range.clone()).into_owned())
        });
        let head = format!(
            "\"dir\":{},\"text\":{},\"line\":[{},{}],\"levels\":{}",
            dir,
            jarr(&cps(text)),
            a + 1,
            b,
            jarr(&lv)
        );
        match r {
            Err(m) => rep.bad(format!("{{\"what\":\"panic\",{},\"message\":{}}}", head, jstr(&m))),
            Ok((got, out)) => {
                if got != lv || out != want {
                    rep.bad(format!(
                        "{{\"what\":\"lines\",{},\"got_levels\":{},\"want\":{},\"got\":{}}}",
                        head,
                        jarr(&got),
                        jarr(&cps(&want)),
                        jarr(&cps(&out))
                    ));
                }
            }
        }
    }
}
fn lines(seed: u64, every: usize, of: usize) {
    let p = pools();
    let mut rng = Rng::new(seed);
    let mut rep = Report::new();
    let mut kept: Vec<V> = vec![];
    for line in std::io::stdin().lock().lines() {
        let v = match tlc_line(&line.unwrap()) {
            Some(v) => v,
            None => continue,
        };
        let text: String = v.t()[1].ints().iter().map(|&c| pick(&p, &mut rng, c as usize)).collect();
        line_case(&mut rep, &v, &text);
        if every > 0 {
            kept.push(v);
        }
    }
    let n = rep.n;
    if every > 0 {
        let cls: Vec<Vec<u8>> = kept.iter().map(|v| v.t()[1].ints().iter().map(|&x| x as u8).collect()).collect();
        let cls: Vec<&[u8]> = cls.iter().map(|v| &v[..]).collect();
        sweep(seed, &p, &cls, every, of, |i, text| line_case(&mut rep, &kept[i], &text));
    }
    println!("INFO swept={}", rep.n - n);
    rep.n = n;
    rep.done();
}

/// Level arithmetic: each line <<op, number, amount, ok, result>> from the specification.
fn level() {
    let mut rep = Report::new();
    for line in std::io::stdin().lock().lines() {
        let v = match tlc_line(&line.unwrap()) {
            Some(v) => v.ints(),
            None => continue,
        };
        let (op, n, k, ok, res) = (v[0], v[1] as u8, v[2] as u8, v[3] == 1, v[4]);
        rep.n += 1;
        let got = guarded(|| -> (bool, i64) {
            let mk = |r: Result<Level, _>| match r {
                Ok(l) => (true, Level::number(&l) as i64),
                Err::<Level, unic_bidi::level::Error>(_) => (false, -1),
            };
            let mutate = |f: &dyn Fn(&mut Level) -> bool| {
                let mut l = Level::new(n).unwrap();
                let ok = f(&mut l);
                (ok, l.number() as i64)
            };
            match op {
                1 => mk(Level::new(n)),
                2 => mk(Level::new_explicit(n)),
                3 => mutate(&|l| l.raise(k).is_ok()),
                4 => mutate(&|l| l.raise_explicit(k).is_ok()),
                5 => mutate(&|l| l.lower(k).is_ok()),
                6 => mk(Level::new(n).unwrap().new_explicit_next_ltr()),
                7 => mk(Level::new(n).unwrap().new_explicit_next_rtl()),
                8 => mk(Level::new(n).unwrap().new_lowest_ge_rtl()),
                9 => {
                    let l = Level::new(n).unwrap();
                    let parity = l.is_rtl();
                    let class = code(l.bidi_class()) as i64; // 1 = L, 2 = R
                    let into: u8 = l.into();
                    (
                        parity != l.is_ltr()
                            && unic_bidi::level::has_rtl(&[l]) == parity
                            && into == n
                            && format!("{}", l) == n.to_string()
                            && Level::vec(&[n])[0] == l
                            && !unic_bidi::level::has_rtl(&[])
                            && unic_bidi::level::has_rtl(&[Level::ltr(), l]) == parity,
                        class,
                    )
                }
                13 => mk(guarded(|| Level::from(n)).map_err(|_| unic_bidi::level::Error::OutOfRangeNumber)),
                14 => mk(guarded(|| Level::vec(&[0, n, n])).map(|x| if x.len() == 3 && x[0] == Level::ltr() && x[1] == x[2] { x[2] } else { Level::from(126) })
                    .map_err(|_| unic_bidi::level::Error::OutOfRangeNumber)),
                15 => {
                    let one: Result<Level, _> = serde_json::from_str(&v[1].to_string());
                    let many: Result<Vec<Level>, _> = serde_json::from_str(&format!("[0,{}]", v[1]));
                    match (one, many) {
                        (Ok(l), Ok(m)) => (serde_json::to_string(&l).ok() == Some(v[1].to_string()) && m == [Level::ltr(), l], l.number() as i64),
                        (Err(_), Err(_)) => (false, -1),
                        _ => (true, -2),
                    }
                }
                10 => match k {
                    0 => (true, Level::max_explicit_depth() as i64),
                    1 => (true, Level::max_implicit_depth() as i64),
                    2 => (Level::ltr().is_ltr(), Level::ltr().number() as i64),
                    _ => (Level::rtl().is_rtl(), Level::rtl().number() as i64),
                },
                11 => {
                    let (a, b) = (Level::new(n).unwrap(), Level::new(k).unwrap());
                    let c = a.cmp(&b);
                    ((a < b) == (c == std::cmp::Ordering::Less) && (a == b) == (n == k), c as i64)
                }
                12 => {
                    let l = Level::new(n).unwrap();
                    let t = k.to_string();
                    let eq = l == t.as_str();
                    let pair = Level::vec(&[n, k]);
                    let sane = l == "x"
                        && l == "x".to_string()
                        && (l == t) == eq
                        && !(l == format!("0{}", k))
                        && !(l == "")
                        && pair.len() == 2
                        && pair[0] == l
                        && pair[1] == Level::from(k)
                        && (pair[0] == pair[1]) == eq;
                    (unic_bidi::level::has_rtl(&pair), if sane { eq as i64 } else { -5 })
                }
                _ => panic!("op"),
            }
        });
        match got {
            Err(m) => rep.bad(format!("{{\"what\":\"panic\",\"case\":{},\"message\":{}}}", jarr(&v), jstr(&m))),
            Ok(g) => {
                if g != (ok, res) {
                    rep.bad(format!("{{\"what\":\"level\",\"op_n_k_ok_res\":{},\"got_ok\":{},\"got\":{}}}", jarr(&v), g.0 as u8, g.1));
                }
            }
        }
    }
    rep.done();
}

fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "replay" => replay(argn(2) as u64, argn(3), argn(4)),
        "record" => record(argn(2) as u64, argn(3), argn(4), argn(5), &arg(6)),
        "lines" => lines(argn(2) as u64, argn(3), argn(4)),
        "level" => level(),
        _ => panic!("usage"),
    }
}
