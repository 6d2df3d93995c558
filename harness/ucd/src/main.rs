// Conformance driver for the character property crates.
//   dump OUT [prop,..]     every property of every scalar value, as maximal runs (one JSON line per property)
#[path = "../../common/util.rs"]
mod util;
use std::fmt::Write as _;
use std::io::Write;
use unic_char_property::EnumeratedCharProperty as Enum;
use unic_char_property::{BinaryCharProperty, PartialCharProperty, TotalCharProperty};
use util::*;

fn scalars() -> impl Iterator<Item = char> {
    (0..=0x10FFFFu32).filter_map(std::char::from_u32)
}
/// Maximal runs of equal values; no run crosses the surrogate gap.
fn runs<T: PartialEq>(f: impl Fn(char) -> T, show: impl Fn(&T) -> String) -> Vec<(u32, u32, String)> {
    let mut out = vec![];
    let mut cur: Option<(u32, u32, T)> = None;
    for c in scalars() {
        let v = f(c);
        let u = c as u32;
        match &mut cur {
            Some((_, hi, w)) if *w == v && u != 0xE000 => *hi = u,
            _ => {
                if let Some((lo, hi, w)) = cur.take() {
                    out.push((lo, hi, show(&w)));
                }
                cur = Some((u, u, v));
            }
        }
    }
    let (lo, hi, w) = cur.unwrap();
    out.push((lo, hi, show(&w)));
    out
}
fn yn(f: impl Fn(char) -> bool) -> Vec<(u32, u32, String)> {
    runs(f, |&b| if b { "Y".into() } else { "N".into() })
}
fn hex(v: &[char]) -> String {
    let mut s = String::new();
    for c in v {
        if !s.is_empty() {
            s.push(' ');
        }
        write!(s, "{:04X}", *c as u32).unwrap();
    }
    s
}
fn hexs(v: &str) -> String {
    hex(&v.chars().collect::<Vec<_>>())
}
fn yq(f: impl Fn(char) -> (bool, bool)) -> Runs {
    runs(f, |&(a, b)| if a != b { "?".into() } else if a { "Y".into() } else { "N".into() })
}
/// Y / N when every way to ask agrees, else ?
fn bin<T: BinaryCharProperty + TotalCharProperty + Into<bool>>(f: fn(char) -> bool) -> Runs {
    runs(
        |c| {
            let t = <T as TotalCharProperty>::of(c);
            let p = <T as PartialCharProperty>::of(c).map(|x| x.as_bool());
            let b = f(c);
            if t.as_bool() == b && p == Some(b) && t.into() == b && t.human_name() == if b { "Yes" } else { "No" } { if b { 'Y' } else { 'N' } } else { '?' }
        },
        |b| b.to_string(),
    )
}
fn tot<T: Enum + TotalCharProperty>(f: fn(char) -> T) -> Runs {
    runs(
        |c| {
            let v = f(c);
            if <T as TotalCharProperty>::of(c) == v && <T as PartialCharProperty>::of(c) == Some(v) { Some(v) } else { None }
        },
        |v| v.map_or("?".into(), |v| v.abbr_name().to_string()),
    )
}
type Runs = Vec<(u32, u32, String)>;
fn props() -> Vec<(&'static str, fn() -> Runs)> {
    use unic_char_basics as basics;
    use unic_emoji_char as em;
    use unic_ucd_bidi as bidi;
    use unic_ucd_case as case;
    use unic_ucd_common as common;
    use unic_ucd_ident as ident;
    use unic_ucd_normal as normal;
    fn alias(ch: char, t: unic_ucd_name_aliases::NameAliasType) -> String {
        unic_ucd_name_aliases::name_aliases_of(ch, t).map_or("-".into(), |v| v.join(";"))
    }
    use unic_ucd_name_aliases::NameAliasType as A;
    vec![
        ("age", || runs(unic_ucd_age::Age::of, |a| a.map_or("-".into(), |a| { let v = a.actual(); format!("{}.{}.{}", v.major, v.minor, v.micro) }))),
        ("age_trait", || { use unic_ucd_age::CharAge; runs(|c| { let a = c.age(); if a == <unic_ucd_age::Age as PartialCharProperty>::of(c) { Ok(a) } else { Err(()) } }, |a| match a { Err(_) => "?".into(), Ok(a) => a.map_or("-".into(), |a| { let v = unic_char_property::CustomCharProperty::actual(&a); format!("{}.{}.{}", v.major, v.minor, v.micro) }) }) }),
        ("bc_trait", || { use bidi::CharBidiClass; runs(|c| c.bidi_class(), |v| v.abbr_name().into()) }),
        ("ltr", || { use bidi::{CharBidiClass, StrBidiClass}; yq(|c| { let mut b = [0; 4]; (c.is_ltr(), (*c.encode_utf8(&mut b)).has_ltr()) }) }),
        ("rtl", || { use bidi::{CharBidiClass, StrBidiClass}; yq(|c| { let mut b = [0; 4]; (c.is_rtl(), (*c.encode_utf8(&mut b)).has_rtl()) }) }),
        ("explicit", || { use bidi::StrBidiClass; yn(|c| { let mut b = [0; 4]; (*c.encode_utf8(&mut b)).has_bidi_explicit() }) }),
        ("bc", || tot(bidi::BidiClass::of)),
        ("Bidi_C", || bin::<bidi::BidiControl>(bidi::is_bidi_control)),
        ("Bidi_M", || bin::<bidi::BidiMirrored>(bidi::is_bidi_mirrored)),
        ("blk", || runs(|c| if unic_ucd_block::Block::of(c).is_some() != <unic_ucd_block::Block as PartialCharProperty>::of(c).is_some() { None } else { unic_ucd_block::Block::of(c) }.map(|b| (b.name, b.range.low, b.range.high)), |b| b.map_or("-".into(), |b| format!("{} {:04X}..{:04X}", b.0, b.1 as u32, b.2 as u32)))),
        ("Lower", || bin::<case::Lowercase>(case::is_lowercase)),
        ("Upper", || bin::<case::Uppercase>(case::is_uppercase)),
        ("Cased", || bin::<case::Cased>(case::is_cased)),
        ("CI", || bin::<case::CaseIgnorable>(case::is_case_ignorable)),
        ("CWL", || bin::<case::ChangesWhenLowercased>(case::changes_when_lowercased)),
        ("CWU", || bin::<case::ChangesWhenUppercased>(case::changes_when_uppercased)),
        ("CWT", || bin::<case::ChangesWhenTitlecased>(case::changes_when_titlecased)),
        ("CWCF", || bin::<case::ChangesWhenCasefolded>(case::changes_when_casefolded)),
        ("CWCM", || bin::<case::ChangesWhenCasemapped>(case::changes_when_casemapped)),
        ("gc", || tot(unic_ucd_category::GeneralCategory::of)),
        ("Alpha", || bin::<common::Alphabetic>(common::is_alphabetic)),
        ("alnum", || bin::<common::alphanumeric::Alphanumeric>(common::is_alphanumeric)),
        ("control", || bin::<common::control::Control>(common::is_control)),
        ("numeric", || bin::<common::numeric::Numeric>(common::is_numeric)),
        ("WSpace", || bin::<common::WhiteSpace>(common::is_white_space)),
        ("syllable", || yn(unic_ucd_hangul::is_syllable)),
        ("IDS", || bin::<ident::IdStart>(ident::is_id_start)),
        ("IDC", || bin::<ident::IdContinue>(ident::is_id_continue)),
        ("XIDS", || bin::<ident::XidStart>(ident::is_xid_start)),
        ("XIDC", || bin::<ident::XidContinue>(ident::is_xid_continue)),
        ("Pat_Syn", || bin::<ident::PatternSyntax>(ident::is_pattern_syntax)),
        ("Pat_WS", || bin::<ident::PatternWhitespace>(ident::is_pattern_whitespace)),
        ("name", || runs(unic_ucd_name::Name::of, |n| n.map_or("-".into(), |n| n.to_string()))),
        ("alias_correction", || runs(|c| alias(c, A::NameCorrections), |s| s.clone())),
        ("alias_control", || runs(|c| alias(c, A::ControlCodeNames), |s| s.clone())),
        ("alias_alternate", || runs(|c| alias(c, A::AlternateNames), |s| s.clone())),
        ("alias_figment", || runs(|c| alias(c, A::Figments), |s| s.clone())),
        ("alias_abbreviation", || runs(|c| alias(c, A::NameAbbreviations), |s| s.clone())),
        ("alias_types", || runs(|c| A::of(c).map(|v| format!("{:?}", v)), |s| s.clone().unwrap_or_else(|| "-".into()))),
        ("ccc", || runs(|c| (normal::CanonicalCombiningClass::of(c), <normal::CanonicalCombiningClass as TotalCharProperty>::of(c)), |c| if c.0 != c.1 || c.0.to_string() != c.0.number().to_string() { "?".into() } else { c.0.number().to_string() })),
        ("dt", || runs(|c| { let d = normal::DecompositionType::of(c); assert_eq!(d, <normal::DecompositionType as PartialCharProperty>::of(c)); d }, |d| d.map_or("-".into(), |d| d.abbr_name().into()))),
        ("canon", || runs(normal::canonical_decomposition, |d| d.map_or("-".into(), |d| hex(d)))),
        ("compat", || runs(normal::compatibility_decomposition, |d| d.map_or("-".into(), |d| hex(d)))),
        ("compose", || {
            // second characters and results of every listed composition starting with the character
            runs(
                |c| normal::canonical_composition(c).map(|t| {
                    let mut s = String::new();
                    for (r, v) in t.iter() {
                        for x in r {
                            write!(s, "{:04X}>{:04X} ", x as u32, v as u32).unwrap();
                        }
                    }
                    s
                }),
                |s| s.clone().unwrap_or_else(|| "-".into()),
            )
        }),
        ("mark", || yn(normal::is_combining_mark)),
        ("GCB", || tot(unic_ucd_segment::GraphemeClusterBreak::of)),
        ("SB", || tot(unic_ucd_segment::SentenceBreak::of)),
        ("WB", || tot(unic_ucd_segment::WordBreak::of)),
        ("Emoji", || bin::<em::Emoji>(em::is_emoji)),
        ("EPres", || bin::<em::EmojiPresentation>(em::is_emoji_presentation)),
        ("EMod", || bin::<em::EmojiModifier>(em::is_emoji_modifier)),
        ("EBase", || bin::<em::EmojiModifierBase>(em::is_emoji_modifier_base)),
        ("EComp", || bin::<em::EmojiComponent>(em::is_emoji_component)),
        ("nonchar", || yn(basics::is_noncharacter)),
        ("private", || yn(basics::is_private_use)),
        ("idna", || {
            use unic_idna_mapping::Mapping as M;
            runs(M::of, |m| match m {
                M::Valid => "V".into(),
                M::Ignored => "I".into(),
                M::Mapped(s) => format!("M {}", hexs(s)),
                M::Deviation(s) => format!("D {}", hexs(s)),
                M::Disallowed => "X".into(),
                M::DisallowedStd3Valid => "3V".into(),
                M::DisallowedStd3Mapped(s) => format!("3M {}", hexs(s)),
            })
        }),
    ]
}
fn dump(out: &str, only: &str, exclude: bool) {
    let want: Vec<&str> = only.split(',').filter(|x| !x.is_empty()).collect();
    let ps: Vec<_> = props().into_iter().filter(|p| want.is_empty() || want.contains(&p.0) != exclude).collect();
    let done: Vec<_> = ps
        .iter()
        .map(|&(name, f)| (name, std::thread::spawn(move || guarded(f))))
        .collect();
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    for (name, h) in done {
        match h.join().unwrap() {
            Ok(r) => {
                rep.n += r.len() as u64;
                let v: Vec<String> = r.iter().map(|x| format!("[{},{},{}]", x.0, x.1, jstr(&x.2))).collect();
                writeln!(o, "{{\"p\":\"{}\",\"runs\":[{}]}}", name, v.join(",")).unwrap();
            }
            Err(m) => rep.bad(format!("{{\"what\":\"panic\",\"property\":\"{}\",\"message\":{}}}", name, jstr(&m))),
        }
    }
    rep.done();
}


// ------------------------------------------------------------------ joint dump (T04)
/// Maximal runs on which all the given properties are constant, one JSON record per run.
fn joint(out: &str, only: &str) {
    let want: Vec<&str> = only.split(',').collect();
    let mut all = props();
    all.push(("nmkind", || {
        use unic_ucd_name::Name;
        runs(Name::of, |n| n.map_or("-".into(), |n| match n { Name::NR1(_) => "hangul".into(), Name::NR2(p, _) => p.to_string(), Name::NR3(_) => "listed".into() }))
            .into_iter()
            .fold(vec![], |mut v: Runs, r| {
                match v.last_mut() {
                    Some(l) if l.2 == r.2 && l.1 + 1 == r.0 => l.1 = r.1,
                    _ => v.push(r),
                }
                v
            })
    }));
    let mut cols = vec![];
    for w in &want {
        let f = all.iter().find(|p| p.0 == *w).expect("property").1;
        cols.push((*w, f()));
    }
    let mut starts: Vec<u32> = cols.iter().flat_map(|c| c.1.iter().map(|r| r.0)).collect();
    starts.sort_unstable();
    starts.dedup();
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut at = vec![0usize; cols.len()];
    let mut rep = Report::new();
    for (i, &lo) in starts.iter().enumerate() {
        let next = starts.get(i + 1).cloned().unwrap_or(0x110000);
        let hi = if next == 0xE000 { 0xD7FF } else { next - 1 };
        let mut line = format!("{{\"lo\":{},\"hi\":{}", lo, hi);
        for (k, (name, rs)) in cols.iter().enumerate() {
            while rs[at[k]].1 < lo {
                at[k] += 1;
            }
            line.push_str(&format!(",\"{}\":{}", name, jstr(&rs[at[k]].2)));
        }
        rep.n += 1;
        writeln!(o, "{}}}", line).unwrap();
    }
    rep.done();
}

// ------------------------------------------------------------------ value names (T03)
type Parse = fn(&str) -> Option<String>;
struct EnumInfo {
    prop: &'static str,
    head: Vec<String>,
    all: Vec<Vec<String>>, // abbr, long, human, displayed, predicates
    parse: Parse,
}
fn einfo<T: 'static + Enum + std::fmt::Display + std::str::FromStr>(prop: &'static str, pred: fn(&T) -> String) -> EnumInfo {
    EnumInfo {
        prop,
        head: vec![T::prop_abbr_name().into(), T::prop_long_name().into(), T::prop_human_name().into()],
        all: T::all_values().iter().map(|v| vec![v.abbr_name().into(), v.long_name().into(), v.human_name().into(), v.to_string(), pred(v)]).collect(),
        parse: |s| s.parse::<T>().ok().map(|v| v.abbr_name().to_string()),
    }
}
struct BinInfo {
    prop: &'static str,
    head: Vec<String>,
    shown: Vec<Vec<String>>, // of no, of yes: abbr, long, human, displayed
    parse: Parse,
}
fn binfo<T: BinaryCharProperty + TotalCharProperty + std::fmt::Display + std::str::FromStr>(prop: &'static str) -> BinInfo {
    let y: T = "y".parse().ok().unwrap();
    let n: T = "n".parse().ok().unwrap();
    BinInfo {
        prop,
        head: vec![T::prop_abbr_name().into(), T::prop_long_name().into(), T::prop_human_name().into()],
        shown: [n, y].iter().map(|v| vec![v.abbr_name().to_string(), v.long_name().into(), v.human_name().into(), v.to_string()]).collect(),
        parse: |s| s.parse::<T>().ok().map(|v| if v.as_bool() { "Y".into() } else { "N".into() }),
    }
}
fn flags(v: &[(&str, bool)]) -> String {
    v.iter().filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>().join(" ")
}
fn enums() -> Vec<EnumInfo> {
    use unic_ucd_bidi::BidiClass;
    use unic_ucd_category::GeneralCategory;
    vec![
        einfo::<GeneralCategory>("gc", |g| {
            flags(&[("LC", g.is_cased_letter()), ("L", g.is_letter()), ("M", g.is_mark()), ("N", g.is_number()), ("P", g.is_punctuation()), ("S", g.is_symbol()), ("Z", g.is_separator()), ("C", g.is_other())])
        }),
        einfo::<BidiClass>("bc", |b| format!("{:?} {}", b.category(), flags(&[("ltr", b.is_ltr()), ("rtl", b.is_rtl())])).trim().to_string()),
        einfo::<unic_ucd_segment::GraphemeClusterBreak>("GCB", |_| String::new()),
        einfo::<unic_ucd_segment::SentenceBreak>("SB", |_| String::new()),
        einfo::<unic_ucd_segment::WordBreak>("WB", |_| String::new()),
        einfo::<unic_ucd_normal::DecompositionType>("dt", |_| String::new()),
    ]
}
fn binaries() -> Vec<BinInfo> {
    use unic_emoji_char as em;
    use unic_ucd_bidi as bidi;
    use unic_ucd_case as case;
    use unic_ucd_common as common;
    use unic_ucd_ident as ident;
    vec![
        binfo::<bidi::BidiControl>("Bidi_C"),
        binfo::<bidi::BidiMirrored>("Bidi_M"),
        binfo::<case::Lowercase>("Lower"),
        binfo::<case::Uppercase>("Upper"),
        binfo::<case::Cased>("Cased"),
        binfo::<case::CaseIgnorable>("CI"),
        binfo::<case::ChangesWhenLowercased>("CWL"),
        binfo::<case::ChangesWhenUppercased>("CWU"),
        binfo::<case::ChangesWhenTitlecased>("CWT"),
        binfo::<case::ChangesWhenCasefolded>("CWCF"),
        binfo::<case::ChangesWhenCasemapped>("CWCM"),
        binfo::<common::Alphabetic>("Alpha"),
        binfo::<common::alphanumeric::Alphanumeric>("alnum"),
        binfo::<common::control::Control>("control"),
        binfo::<common::numeric::Numeric>("numeric"),
        binfo::<common::WhiteSpace>("WSpace"),
        binfo::<ident::IdStart>("IDS"),
        binfo::<ident::IdContinue>("IDC"),
        binfo::<ident::XidStart>("XIDS"),
        binfo::<ident::XidContinue>("XIDC"),
        binfo::<ident::PatternSyntax>("Pat_Syn"),
        binfo::<ident::PatternWhitespace>("Pat_WS"),
        binfo::<em::Emoji>("Emoji"),
        binfo::<em::EmojiPresentation>("EPres"),
        binfo::<em::EmojiModifier>("EMod"),
        binfo::<em::EmojiModifierBase>("EBase"),
        binfo::<em::EmojiComponent>("EComp"),
    ]
}
/// The properties and their values, and parses of many spellings of every name.
fn values(out: &str, seed: u64, spell: usize) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let arr = |v: &[String]| format!("[{}]", v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    let mut names: Vec<(&'static str, Parse, Vec<String>)> = vec![];
    for e in enums() {
        let all: Vec<String> = e.all.iter().map(|v| arr(v)).collect();
        writeln!(o, "{{\"kind\":\"enum\",\"prop\":\"{}\",\"head\":{},\"all\":[{}]}}", e.prop, arr(&e.head), all.join(",")).unwrap();
        rep.n += 1;
        let mut ns: Vec<String> = e.all.iter().flat_map(|v| v[..3].to_vec()).collect();
        ns.extend(e.head.clone());
        names.push((e.prop, e.parse, ns));
    }
    for b in binaries() {
        let all: Vec<String> = b.shown.iter().map(|v| arr(v)).collect();
        writeln!(o, "{{\"kind\":\"bin\",\"prop\":\"{}\",\"head\":{},\"all\":[{}]}}", b.prop, arr(&b.head), all.join(",")).unwrap();
        rep.n += 1;
        let ns = ["y", "yes", "t", "true", "n", "no", "f", "false", "Y", "YES", "1", "0", "on", "off", ""].iter().map(|x| x.to_string()).collect();
        names.push((b.prop, b.parse, ns));
    }
    let foreign: Vec<String> = names.iter().flat_map(|x| x.2.iter().take(20).cloned().collect::<Vec<_>>()).collect();
    for (prop, parse, ns) in &names {
        let mut texts: Vec<String> = vec!["".into(), " ".into(), "-".into()];
        for n in ns {
            for k in 0..3 + spell {
                let cs: Vec<char> = n.chars().collect();
                let mut t: Vec<char> = match k {
                    0 => cs.clone(),
                    1 => n.to_ascii_lowercase().chars().collect(),
                    2 => n.to_ascii_uppercase().chars().collect(),
                    _ => cs.iter().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                };
                if k >= 3 && rng.chance(1, 2) {
                    // a near miss
                    match rng.below(7) {
                        0 => { t.pop(); }
                        1 => t.push(*rng.pick(&['s', ' ', '_', 'x', '\u{0}'])),
                        2 => t.insert(0, *rng.pick(&[' ', 'a', '_'])),
                        3 => { if !t.is_empty() { let i = rng.below(t.len()); t[i] = *rng.pick(&['_', ' ', '-', 'q', '\u{17f}', '\u{212a}', '\u{0131}', '\u{e9}']); } }
                        4 => t = t.iter().map(|&c| match c { 'k' | 'K' => '\u{212a}', 's' | 'S' => '\u{17f}', 'i' => '\u{0131}', '_' => ' ', c => c }).collect(),
                        5 => { if !t.is_empty() { let i = rng.below(t.len()); let c = t.remove(i); t.push(c); } }
                        // same letter shifted out of its case pair (a bitwise fold would accept it)
                        _ => { if !t.is_empty() { let i = rng.below(t.len()); if let Some(c) = std::char::from_u32((t[i] as u32) ^ *rng.pick(&[0x20u32, 0x40, 0x60, 0x100])) { t[i] = c; } } }
                    }
                }
                texts.push(t.into_iter().collect());
            }
        }
        for _ in 0..12 { texts.push(rng.pick(&foreign).clone()); }
        for t in texts {
            rep.n += 1;
            let got = guarded(|| parse(&t)).unwrap_or_else(|m| Some(format!("panic {}", m)));
            writeln!(o, "{{\"kind\":\"parse\",\"prop\":\"{}\",\"text\":{},\"got\":{}}}", prop, jarr(&cps(&t)), jstr(&got.unwrap_or_else(|| "-".into()))).unwrap();
        }
    }
    use unic_ucd_normal::CanonicalCombiningClass as CCC;
    let named = [("NotReordered", CCC::NotReordered), ("Overlay", CCC::Overlay), ("Nukta", CCC::Nukta), ("KanaVoicing", CCC::KanaVoicing), ("Virama", CCC::Virama),
        ("AttatchedBelowLeft", CCC::AttatchedBelowLeft), ("AttachedBelow", CCC::AttachedBelow), ("AttachedBelowRight", CCC::AttachedBelowRight), ("AttachedLeft", CCC::AttachedLeft), ("AttachedRight", CCC::AttachedRight), ("AttachedAboveLeft", CCC::AttachedAboveLeft),
        ("AttatchedAbove", CCC::AttatchedAbove), ("AttatchedAboveRight", CCC::AttatchedAboveRight), ("BelowLeft", CCC::BelowLeft), ("Below", CCC::Below), ("BelowRight", CCC::BelowRight), ("Left", CCC::Left), ("Right", CCC::Right), ("AboveLeft", CCC::AboveLeft), ("Above", CCC::Above),
        ("AboveRight", CCC::AboveRight), ("DoubleBelow", CCC::DoubleBelow), ("DoubleAbove", CCC::DoubleAbove), ("IotaSubscript", CCC::IotaSubscript)];
    for (n, c) in named.iter() {
        rep.n += 1;
        let number = if <CCC as unic_char_property::NumericCharProperty<u8>>::number(c) == c.number() { c.number() } else { 255 };
        writeln!(o, "{{\"kind\":\"ccc\",\"prop\":\"{}\",\"number\":{},\"shown\":{},\"reordered\":{},\"notreordered\":{}}}", n, number, jstr(&c.to_string()), c.is_reordered() as u8, c.is_not_reordered() as u8).unwrap();
        for (m, d) in named.iter() {
            rep.n += 1;
            let got = match c.cmp(d) {
                x if c.partial_cmp(d) != Some(x) || (c == d) != (x == std::cmp::Ordering::Equal) || (c < d) != (x == std::cmp::Ordering::Less) => 9,
                x => x as i32,
            };
            writeln!(o, "{{\"kind\":\"cccpair\",\"prop\":\"{}\",\"other\":\"{}\",\"got\":{}}}", n, m, got).unwrap();
        }
    }
    {
        use unic_char_property::CharProperty;
        use unic_ucd_age::Age;
        writeln!(o, "{{\"kind\":\"head\",\"prop\":\"age\",\"head\":{}}}", arr(&[Age::prop_abbr_name().to_string(), Age::prop_long_name().into(), Age::prop_human_name().into()])).unwrap();
        writeln!(o, "{{\"kind\":\"head\",\"prop\":\"ccc\",\"head\":{}}}", arr(&[CCC::prop_abbr_name().to_string(), CCC::prop_long_name().into(), CCC::prop_human_name().into()])).unwrap();
        rep.n += 2;
    }
    // texts and their directionality
    {
        use unic_ucd_bidi::{BidiClass, StrBidiClass};
        let mut of: std::collections::BTreeMap<&'static str, Vec<char>> = Default::default();
        for c in scalars() {
            of.entry(BidiClass::of(c).abbr_name()).or_default().push(c);
        }
        let classes: Vec<&'static str> = of.keys().cloned().collect();
        // one text for each class in each 64 code points, between characters without direction
        let mut last = std::collections::BTreeSet::new();
        for c in scalars() {
            let b = BidiClass::of(c).abbr_name();
            if !last.insert((c as u32 >> 6, b)) { continue; }
            let (head, tail) = (rng.below(3), rng.below(3));
            let t = format!("{}{}{}", &" !"[..head], c, &"; "[..tail]);
            let cs: Vec<String> = t.chars().map(|c| BidiClass::of(c).abbr_name().to_string()).collect();
            rep.n += 1;
            writeln!(o, "{{\"kind\":\"text\",\"prop\":\"bc\",\"classes\":{},\"cps\":{},\"got\":[{},{},{}]}}", arr(&cs), jarr(&cps(&t)),
                t.has_bidi_explicit() as u8, t.has_ltr() as u8, t.has_rtl() as u8).unwrap();
        }
        for k in 0..2000 {
            let n = if k == 0 { 0 } else { 1 + rng.below(if k < 600 { 2 } else { 12 }) };
            // few classes per text, so that each answer is often no
            let some: Vec<&str> = (0..1 + rng.below(3)).map(|_| *rng.pick(&classes)).collect();
            let cs: Vec<&str> = (0..n).map(|_| *rng.pick(&some)).collect();
            let t: String = cs.iter().map(|c| *rng.pick(&of[c])).collect();
            rep.n += 1;
            writeln!(o, "{{\"kind\":\"text\",\"prop\":\"bc\",\"classes\":{},\"cps\":{},\"got\":[{},{},{}]}}", arr(&cs.iter().map(|x| x.to_string()).collect::<Vec<_>>()), jarr(&cps(&t)),
                t.has_bidi_explicit() as u8, t.has_ltr() as u8, t.has_rtl() as u8).unwrap();
        }
    }
    rep.done();
}

// ------------------------------------------------------------------ ages and blocks (T05)
fn order(out: &str) {
    use unic_ucd_age::Age;
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut ages: Vec<Age> = vec![];
    for c in scalars() {
        if let Some(a) = Age::of(c) {
            if !ages.iter().any(|b| b.actual() == a.actual()) {
                ages.push(a);
            }
        }
    }
    let v = |a: &Age| format!("[{},{},{}]", a.actual().major, a.actual().minor, a.actual().micro);
    let h = |a: &Age| { use std::hash::{Hash, Hasher}; let mut s = std::collections::hash_map::DefaultHasher::new(); a.hash(&mut s); s.finish() };
    let ord = |x: std::cmp::Ordering| x as i32;
    for a in &ages {
        for b in &ages {
            rep.n += 1;
            writeln!(o, "{{\"kind\":\"pair\",\"a\":{},\"b\":{},\"cmp\":{},\"partial\":{},\"ops\":[{},{},{},{},{},{}],\"max\":{},\"min\":{},\"hash\":{}}}",
                v(a), v(b), ord(a.cmp(b)), a.partial_cmp(b).map_or(9, ord), (a < b) as u8, (a <= b) as u8, (a > b) as u8, (a >= b) as u8, (a == b) as u8, (a != b) as u8,
                v(&std::cmp::max(*a, *b)), v(&std::cmp::min(*a, *b)), (h(a) == h(b)) as u8).unwrap();
        }
    }
    // clamping and the extremes of collections follow the order of pairs
    for a in &ages {
        for b in &ages {
            for c in ages.iter().filter(|c| b.cmp(c) != std::cmp::Ordering::Greater) {
                let want = if a.cmp(b) == std::cmp::Ordering::Less { b } else if a.cmp(c) == std::cmp::Ordering::Greater { c } else { a };
                if Ord::clamp(*a, *b, *c) != *want { rep.bad(format!("{{\"what\":\"clamp\",\"a\":{},\"b\":{},\"c\":{}}}", v(a), v(b), v(c))); }
                let all = [*a, *b, *c];
                let hi = all.iter().fold(*a, |m, x| if x.cmp(&m) == std::cmp::Ordering::Greater { *x } else { m });
                let lo = all.iter().fold(*a, |m, x| if x.cmp(&m) == std::cmp::Ordering::Less { *x } else { m });
                if all.iter().cloned().max() != Some(hi) || all.iter().max() != Some(&hi) || all.iter().cloned().min() != Some(lo) || all.iter().min() != Some(&lo) || all.iter().cloned().fold(*a, Ord::max) != hi || all.iter().cloned().fold(*a, Ord::min) != lo {
                    rep.bad(format!("{{\"what\":\"extremes\",\"a\":{},\"b\":{},\"c\":{}}}", v(a), v(b), v(c)));
                }
            }
        }
    }
    let mut sorted = ages.clone();
    sorted.sort();
    let mut set: std::collections::BTreeSet<Age> = ages.iter().cloned().collect();
    set.extend(ages.iter().cloned());
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    writeln!(o, "{{\"kind\":\"sorted\",\"ages\":{},\"set\":{},\"max\":{},\"min\":{}}}", list(sorted.iter().map(v).collect()), list(set.iter().map(v).collect()), v(ages.iter().max().unwrap()), v(ages.iter().min().unwrap())).unwrap();
    // blocks: the iteration, then the block of every character
    let bl = |b: &unic_ucd_block::Block| format!("[{},{},{}]", b.range.low as u32, b.range.high as u32, jstr(b.name));
    let it: Vec<String> = unic_ucd_block::BlockIter::new().map(|b| bl(&b)).collect();
    let it2: Vec<String> = unic_ucd_block::BlockIter::default().map(|b| bl(&b)).collect();
    writeln!(o, "{{\"kind\":\"blocks\",\"iter\":{},\"again\":{}}}", list(it), (it2.len() > 0 && it2 == unic_ucd_block::BlockIter::new().map(|b| bl(&b)).collect::<Vec<_>>()) as u8).unwrap();
    let all: Vec<String> = unic_ucd_block::BlockIter::new().map(|b| bl(&b)).collect();
    if let Err(m) = guarded(|| laws(&unic_ucd_block::BlockIter::new, &|b| bl(&b), &all)).unwrap_or_else(Err) {
        rep.bad(format!("{{\"what\":\"blocks\",\"message\":{}}}", jstr(&m)));
    }
    let of = runs(|c| unic_ucd_block::Block::of(c).map(|b| bl(&b)), |b| b.clone().unwrap_or_else(|| "[0,0,\"-\"]".into()));
    for (lo, hi, b) in of {
        rep.n += 1;
        writeln!(o, "{{\"kind\":\"of\",\"lo\":{},\"hi\":{},\"block\":{}}}", lo, hi, b).unwrap();
    }
    rep.done();
}

// ------------------------------------------------------------------ names (T06)
fn names(out: &str, pairs: usize, seed: u64) {
    use unic_ucd_name::Name;
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let mut v: Vec<(char, Name)> = scalars().filter_map(|c| Name::of(c).map(|n| (c, n))).collect();
    let r = guarded(|| v.sort_by(|a, b| a.1.cmp(&b.1)));
    if let Err(m) = r {
        rep.bad(format!("{{\"what\":\"sort\",\"message\":{}}}", jstr(&m)));
    }
    // the sorted order, in pieces that overlap by one; the specification derives the texts
    for w in 0..(v.len() + 99) / 100 {
        let part = &v[w * 100..(w * 100 + 101).min(v.len())];
        let cs: Vec<u32> = part.iter().map(|x| x.0 as u32).collect();
        let ls: Vec<usize> = part.iter().map(|x| x.1.len()).collect();
        writeln!(o, "{{\"kind\":\"sorted\",\"cs\":{},\"len\":{}}}", jarr(&cs), jarr(&ls)).unwrap();
        rep.n += part.len() as u64;
    }
    // comparisons agree with the positions in the sorted order
    let kind = |n: &Name| match n { Name::NR1(_) => 0, Name::NR2(p, _) => 1 + p.len(), Name::NR3(_) => 60 };
    let mut groups: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
    for (i, x) in v.iter().enumerate() {
        groups.entry(kind(&x.1)).or_default().push(i);
    }
    let gs: Vec<Vec<usize>> = groups.into_iter().map(|x| x.1).collect();
    let one = |i: usize, j: usize, rep: &mut Report| {
        rep.n += 1;
        let (a, b) = (v[i].1, v[j].1);
        let c = a.cmp(&b);
        let ok = c == i.cmp(&j) && a.partial_cmp(&b) == Some(c) && (a == b) == (i == j) && (a < b) == (i < j) && b.cmp(&a) == c.reverse()
            && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j) && (a != b) == (i != j)
            && std::cmp::max(a, b) == v[i.max(j)].1 && std::cmp::min(a, b) == v[i.min(j)].1;
        if !ok {
            rep.bad(format!("{{\"what\":\"compare\",\"a\":{},\"b\":{},\"cmp\":\"{:?}\",\"names\":[{},{}]}}", v[i].0 as u32, v[j].0 as u32, c, jstr(&a.to_string()), jstr(&b.to_string())));
        }
    };
    for k in 0..pairs {
        let i = *rng.pick(rng_pick(&gs, k));
        let j = match rng.below(4) {
            0 => (i + rng.below(40)).min(v.len() - 1),
            _ => { let g = rng.below(gs.len()); *rng.pick(&gs[g]) }
        };
        one(i, j, &mut rep);
    }
    rep.done();
}
fn rng_pick(gs: &[Vec<usize>], k: usize) -> &Vec<usize> {
    &gs[k % gs.len()]
}
// ------------------------------------------------------------------ versions (T07)
fn versions(out: &str, n: usize, seed: u64) {
    use unic_ucd_version::UnicodeVersion;
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rep = Report::new();
    let mut rng = Rng::new(seed);
    let v = |a: &UnicodeVersion| format!("[{},{},{}]", a.major, a.minor, a.micro);
    let h = |a: &UnicodeVersion| { use std::hash::{Hash, Hasher}; let mut s = std::collections::hash_map::DefaultHasher::new(); a.hash(&mut s); s.finish() };
    let ord = |x: std::cmp::Ordering| x as i32;
    let edge = [0u8, 1, 2, 9, 10, 127, 128, 255];
    let mut vs: Vec<UnicodeVersion> = vec![];
    for a in 0..3 { for b in 0..3 { for c in 0..3 { vs.push(UnicodeVersion { major: a, minor: b, micro: c }); } } }
    for _ in 0..n { vs.push(UnicodeVersion { major: *rng.pick(&edge), minor: *rng.pick(&edge), micro: *rng.pick(&edge) }); }
    for _ in 0..n { vs.push(UnicodeVersion { major: rng.below(256) as u8, minor: rng.below(256) as u8, micro: rng.below(256) as u8 }); }
    for a in &vs {
        rep.n += 1;
        let t: UnicodeVersion = (a.major, a.minor, a.micro).into();
        writeln!(o, "{{\"kind\":\"conv\",\"a\":{},\"fields\":{},\"shown\":{},\"literal\":{}}}", v(a), v(&t), jstr(&t.to_string()), (t == *a) as u8).unwrap();
    }
    for a in &vs {
        for b in &vs {
            rep.n += 1;
            writeln!(o, "{{\"kind\":\"pair\",\"a\":{},\"b\":{},\"cmp\":{},\"partial\":{},\"ops\":[{},{},{},{},{},{}],\"max\":{},\"min\":{},\"hash\":{}}}",
                v(a), v(b), ord(a.cmp(b)), a.partial_cmp(b).map_or(9, ord), (a < b) as u8, (a <= b) as u8, (a > b) as u8, (a >= b) as u8, (a == b) as u8, (a != b) as u8,
                v(&std::cmp::max(*a, *b)), v(&std::cmp::min(*a, *b)), (h(a) == h(b)) as u8).unwrap();
        }
    }
    vs.sort();
    writeln!(o, "{{\"kind\":\"sorted\",\"vs\":[{}]}}", vs.iter().map(v).collect::<Vec<_>>().join(",")).unwrap();
    let own = [("unic", unic::UNICODE_VERSION), ("ucd", unic::ucd::UNICODE_VERSION), ("bidi", unic::bidi::UNICODE_VERSION), ("normal", unic::normal::UNICODE_VERSION),
        ("idna", unic::idna::UNICODE_VERSION), ("segment", unic::segment::UNICODE_VERSION), ("emoji", unic::emoji::EMOJI_VERSION), ("emoji", unic_emoji_char::EMOJI_VERSION),
        ("version", unic_ucd_version::UNICODE_VERSION), ("age", unic_ucd_age::UNICODE_VERSION), ("ucdbidi", unic_ucd_bidi::UNICODE_VERSION),
        ("block", unic_ucd_block::UNICODE_VERSION), ("case", unic_ucd_case::UNICODE_VERSION), ("category", unic_ucd_category::UNICODE_VERSION),
        ("common", unic_ucd_common::UNICODE_VERSION), ("hangul", unic_ucd_hangul::UNICODE_VERSION), ("ident", unic_ucd_ident::UNICODE_VERSION),
        ("name", unic_ucd_name::UNICODE_VERSION), ("aliases", unic_ucd_name_aliases::UNICODE_VERSION), ("ucdnormal", unic_ucd_normal::UNICODE_VERSION),
        ("ucdsegment", unic_ucd_segment::UNICODE_VERSION), ("mapping", unic_idna_mapping::UNICODE_VERSION)];
    for (w, x) in own.iter() {
        rep.n += 1;
        writeln!(o, "{{\"kind\":\"own\",\"what\":\"{}\",\"v\":{}}}", w, v(x)).unwrap();
    }
    let newest = scalars().filter_map(unic_ucd_age::Age::of).map(|a| a.actual()).max().unwrap();
    writeln!(o, "{{\"kind\":\"newest\",\"age\":{}}}", v(&newest)).unwrap();
    // the tool that prints them; descriptions hold a dash outside ASCII, compared as text
    let exe = std::env::current_exe().unwrap().with_file_name("conf-unic-versions");
    let r = std::process::Command::new(&exe).output().expect("cannot run the tool");
    let text = String::from_utf8_lossy(&r.stdout).into_owned();
    let lines: Vec<String> = text.lines().map(jstr).collect();
    let ps = [("none", unic::char::PKG_DESCRIPTION, unic::char::PKG_NAME, unic::char::PKG_VERSION), ("unicode", unic::ucd::PKG_DESCRIPTION, unic::ucd::PKG_NAME, unic::ucd::PKG_VERSION),
        ("unicode", unic::bidi::PKG_DESCRIPTION, unic::bidi::PKG_NAME, unic::bidi::PKG_VERSION), ("unicode", unic::normal::PKG_DESCRIPTION, unic::normal::PKG_NAME, unic::normal::PKG_VERSION),
        ("unicode", unic::idna::PKG_DESCRIPTION, unic::idna::PKG_NAME, unic::idna::PKG_VERSION), ("emoji", unic::emoji::PKG_DESCRIPTION, unic::emoji::PKG_NAME, unic::emoji::PKG_VERSION)];
    let ps: Vec<String> = ps.iter().map(|p| format!("{{\"data\":\"{}\",\"desc\":{},\"name\":{},\"pkg\":{}}}", p.0, jstr(p.1), jstr(p.2), jstr(p.3))).collect();
    rep.n += 1;
    writeln!(o, "{{\"kind\":\"tool\",\"ok\":{},\"pkg\":{},\"packages\":[{}],\"lines\":[{}]}}", r.status.success() as u8, jstr(unic::PKG_VERSION), ps.join(","), lines.join(",")).unwrap();
    rep.done();
}
fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "dump" => dump(&arg(2), &arg(3), false),
        "joint" => joint(&arg(2), &arg(3)),
        "values" => values(&arg(2), argn(3) as u64, argn(4)),
        "order" => order(&arg(2)),
        "names" => names(&arg(2), argn(3), argn(4) as u64),
        "versions" => versions(&arg(2), argn(3), argn(4) as u64),
        "dumpnot" => dump(&arg(2), &arg(3), true),
        _ => panic!("usage"),
    }
}
