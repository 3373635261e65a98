//! C08: generated validators, compiled and run, against the facets themselves.
use crate::batch::*;
use crate::mc::*;
use std::collections::BTreeMap;

const NUM: [&str; 4] = ["minInclusive", "maxInclusive", "minExclusive", "maxExclusive"];
const LEN: [&str; 3] = ["length", "minLength", "maxLength"];

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// integers; smallest and largest value
    Int(Option<i128>, Option<i128>),
    Dec,
    Float,
    Str,
    Items,
}
struct Base {
    name: &'static str,
    kind: Kind,
    /// bounds of facets
    pool: &'static [&'static str],
    /// all ordered selections of three facets over the whole pool already in the quick tier
    main: bool,
    /// one bound of its own, with literals around it
    sized: bool,
}
const fn b(name: &'static str, kind: Kind, pool: &'static [&'static str], main: bool) -> Base {
    Base { name, kind, pool, main, sized: false }
}
const MAIN: &[Base] = &[
    b("int", Kind::Int(Some(-2147483648), Some(2147483647)), &["-2", "0", "3", "2147483647"], true),
    b("long", Kind::Int(Some(-9223372036854775808), Some(9223372036854775807)), &["-3", "0", "9223372036854775807", "-9223372036854775808"], false),
    b("short", Kind::Int(Some(-32768), Some(32767)), &["-2", "1", "32767", "-32768"], false),
    b("byte", Kind::Int(Some(-128), Some(127)), &["-128", "0", "127", "5"], false),
    b("unsignedLong", Kind::Int(Some(0), Some(18446744073709551615)), &["0", "3", "18446744073709551615", "5"], false),
    b("unsignedInt", Kind::Int(Some(0), Some(4294967295)), &["0", "3", "4294967295", "5"], false),
    b("unsignedShort", Kind::Int(Some(0), Some(65535)), &["0", "3", "65535", "5"], false),
    b("unsignedByte", Kind::Int(Some(0), Some(255)), &["0", "3", "255", "5"], false),
    b("integer", Kind::Int(None, None), &["-2", "0", "3", "100000000000000000000"], true),
    b("nonNegativeInteger", Kind::Int(Some(0), None), &["0", "2", "100000000000000000000", "7"], false),
    b("positiveInteger", Kind::Int(Some(1), None), &["1", "4", "100000000000000000000", "7"], false),
    b("nonPositiveInteger", Kind::Int(None, Some(0)), &["0", "-2", "-100000000000000000000", "-7"], false),
    b("negativeInteger", Kind::Int(None, Some(-1)), &["-1", "-4", "-100000000000000000000", "-7"], false),
    b("decimal", Kind::Dec, &["-1.5", "0", "2.25", "0.001"], true),
    b("double", Kind::Float, &["-1.5", "0", "3", "INF"], true),
    b("float", Kind::Float, &["-INF", "-1.5", "2.5", "1E2"], false),
    b("string", Kind::Str, &["0", "1", "3", "2"], true),
    b("token", Kind::Str, &["0", "1", "3", "2"], false),
    b("anyURI", Kind::Str, &["0", "1", "3", "5000000000"], false),
    b("NMTOKENS", Kind::Items, &["0", "1", "3", "2"], true),
    b("IDREFS", Kind::Items, &["0", "1", "2", "3"], false),
];
static BASES: std::sync::LazyLock<Vec<Base>> = std::sync::LazyLock::new(|| {
    let mut v: Vec<Base> = MAIN.iter().map(|b| Base { ..*b }).collect();
    let mut add = |b: &Base, bound: String| {
        let pool: &'static [&'static str] = Box::leak(vec![&*Box::leak(bound.into_boxed_str())].into_boxed_slice());
        v.push(Base { pool, main: false, sized: true, ..*b })
    };
    for b in MAIN {
        match b.kind {
            Kind::Str | Kind::Items if b.main => {
                for n in (4..=70).chain([99, 100, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1023, 1024, 1025, 4096]) {
                    add(b, n.to_string())
                }
            }
            Kind::Str | Kind::Items | Kind::Float => {}
            Kind::Dec => {
                for e in 1..=12usize {
                    add(b, format!("1{}", "0".repeat(e)));
                    add(b, format!("-{}.5", "9".repeat(e)));
                    add(b, format!("0.{}1", "0".repeat(e.min(5))));
                }
            }
            Kind::Int(lo, hi) => {
                let mut bounds: Vec<i128> = vec![];
                let (mut p, mut t) = (1i128, 1i128);
                for k in 0..70 {
                    if k % 4 == 3 || k < 8 {
                        bounds.extend([p, -p, p - 1]);
                    }
                    if k <= 24 && k % 3 == 1 {
                        bounds.extend([t + 1, -t - 1]);
                    }
                    p *= 2;
                    t = t.saturating_mul(10);
                }
                bounds.sort();
                bounds.dedup();
                bounds.retain(|v| lo.map_or(true, |l| *v >= l) && hi.map_or(true, |h| *v <= h));
                for v in bounds {
                    add(b, v.to_string())
                }
            }
        }
    }
    v
});
const ANON: usize = 1; // deviation: declared in an element

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Type {
    base: usize,
    /// facet, bound (index into the pool), spelling
    facets: Vec<(usize, usize, usize)>,
    noise: usize,
}

fn num(k: Kind) -> bool {
    !matches!(k, Kind::Str | Kind::Items)
}
fn facet_names(k: Kind) -> &'static [&'static str] {
    if num(k) {
        &NUM
    } else {
        &LEN
    }
}

/// A decimal literal scaled by 10^6 (floats: exponent allowed, infinities far outside).
fn value(s: &str) -> Option<i128> {
    match s {
        "INF" => return Some(i128::MAX),
        "-INF" => return Some(i128::MIN),
        _ => {}
    }
    let (m, e) = match s.split_once(['e', 'E']) {
        Some((m, e)) => (m, e.parse::<i32>().ok()?),
        None => (s, 0),
    };
    let neg = m.starts_with('-');
    let m = m.trim_start_matches(['-', '+']);
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let mut v = 0i128;
    for c in i.chars().chain(f.chars()) {
        v = v * 10 + c.to_digit(10)? as i128;
    }
    let mut p = 6 - f.len() as i32 + e;
    while p > 0 {
        v *= 10;
        p -= 1;
    }
    while p < 0 {
        if v % 10 != 0 {
            return None;
        }
        v /= 10;
        p += 1;
    }
    Some(if neg { -v } else { v })
}

/// Literals tried on a base: around every bound of its pool.
fn literals(b: &Base) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    match b.kind {
        Kind::Str | Kind::Items if b.sized => {
            let n: usize = b.pool[0].parse().unwrap();
            for k in [n - 1, n, n + 1] {
                for f in ["a", "é", "日1", "😀"] {
                    if b.kind == Kind::Str {
                        out.push(f.chars().cycle().take(k).collect());
                    } else {
                        out.push(vec![f; k].join(" "));
                    }
                }
            }
        }
        Kind::Dec if b.sized => {
            let v = b.pool[0];
            out.extend([v.to_string(), format!("{}0", if v.contains('.') { v.to_string() } else { format!("{}.", v) }), "0".into(), "-1000000000000.5".into(), "1000000000001".into()]);
            let more = if v.contains('.') { format!("{}001", v) } else { format!("{}.000001", v) };
            if value(&more).is_some() {
                out.push(more);
            }
        }
        Kind::Str => {
            for s in ["", "a", "é", "ab", "日本", "abc", "日é1", "abcd", "日本語字", "a b", "😀", "😀😀", "e\u{301}"] {
                out.push(s.into())
            }
        }
        Kind::Items => {
            for s in ["", "a", "é", "a b", "éé 日本", "a b c", "a b c d", "aaaa"] {
                out.push(s.into())
            }
        }
        Kind::Int(lo, hi) => {
            let mut vs: Vec<i128> = vec![];
            for p in b.pool {
                let v = value(p).unwrap() / 1_000_000;
                vs.extend([v - 1, v, v + 1]);
            }
            vs.extend(lo);
            vs.extend(hi);
            vs.sort();
            vs.dedup();
            vs.retain(|v| lo.map_or(true, |l| *v >= l) && hi.map_or(true, |h| *v <= h));
            out.extend(vs.iter().map(|v| v.to_string()));
            // other spellings of a number
            if vs.contains(&3) {
                out.push("+3".into());
                out.push("003".into());
            }
        }
        Kind::Dec => {
            for s in ["-100", "-1.501", "-1.5", "-1.50", "-1.499", "-0.001", "-0", "0", "0.0005", "0.001", "+.001", "0.002", "1", "2.2499", "2.25", "02.250", "2.2501", "12345678901234"] {
                out.push(s.into())
            }
        }
        Kind::Float => {
            for s in ["-INF", "-1E300", "-1.6", "-1.5", "-15E-1", "-1.4", "-0", "0", "0.001", "2.4", "2.5", "2.6", "3", "3.5", "99", "100", "1E2", "101", "1E300", "INF"] {
                out.push(s.into())
            }
        }
    }
    out
}

fn satisfies(b: &Base, facets: &[(usize, usize, usize)], lit: &str) -> bool {
    facets.iter().all(|f| {
        let bound = b.pool[f.1];
        if num(b.kind) {
            // 1E300 is beyond every finite bound
            let v = match lit {
                "1E300" => i128::MAX - 1,
                "-1E300" => i128::MIN + 1,
                l => value(l).unwrap(),
            };
            let w = value(bound).unwrap();
            match NUM[f.0] {
                "minInclusive" => v >= w,
                "maxInclusive" => v <= w,
                "minExclusive" => v > w,
                _ => v < w,
            }
        } else {
            let n = match b.kind {
                Kind::Str => lit.chars().count(),
                _ => lit.split(' ').filter(|s| !s.is_empty()).count(),
            };
            let w: usize = bound.parse().unwrap();
            match LEN[f.0] {
                "length" => n == w,
                "minLength" => n >= w,
                _ => n <= w,
            }
        }
    })
}

fn spelled(k: Kind, text: &str, how: usize) -> Option<String> {
    let digits = text.trim_start_matches('-');
    let neg = text.starts_with('-');
    Some(match how {
        0 => text.into(),
        1 => format!(" {} ", text),
        2 => format!("&#10;{}&#9;", text),
        3 if !neg && !text.contains("INF") => format!("+{}", text),
        4 if !text.contains("INF") => format!("{}00{}", if neg { "-" } else { "" }, digits),
        5 if matches!(k, Kind::Dec | Kind::Float) && !text.contains("INF") && !text.contains('E') && !text.contains('.') => format!("{}.0", text),
        _ => return None,
    })
}

const NOISES: usize = 9;
fn xml(t: &Type, name: &str) -> String {
    let b = &BASES[t.base];
    let mut fs = String::new();
    for (i, f) in t.facets.iter().enumerate() {
        let v = spelled(b.kind, b.pool[f.1], f.2).unwrap();
        let n = facet_names(b.kind)[f.0];
        fs += &match t.noise {
            3 if i == 0 => format!("<xs:{} value=\"{}\"><xs:annotation><xs:documentation>bound 7</xs:documentation></xs:annotation></xs:{}>", n, v, n),
            4 if i == 0 => format!("<xs:{} id=\"f{}\" fixed=\"true\" value=\"{}\"/>", n, name, v),
            4 => format!("<xs:{} value=\"{}\" fixed=\"false\"/>", n, v),
            _ => format!("<xs:{} value=\"{}\"/>", n, v),
        };
        if i == 0 {
            match t.noise {
                5 => fs = format!("<xs:pattern value=\"[0-9]*\"/>{}", fs),
                6 => fs += "<xs:whiteSpace value=\"collapse\"/>",
                7 => fs += "<!-- <xs:maxInclusive value=\"0\"/> -->",
                8 if num(b.kind) => fs += "<xs:totalDigits value=\"1\"/>",
                8 => fs += "<xs:pattern value=\"z+\"/>",
                _ => {}
            }
        }
    }
    let doc = if t.noise == 2 { "<xs:annotation><xs:documentation>some type</xs:documentation></xs:annotation>" } else { "" };
    let body = format!("{}<xs:restriction base=\"xs:{}\">{}</xs:restriction>", doc, b.name, fs);
    if t.noise == ANON {
        format!("<xs:complexType name=\"{}\"><xs:sequence><xs:element name=\"el\"><xs:simpleType>{}</xs:simpleType></xs:element></xs:sequence></xs:complexType>\n", name, body)
    } else {
        format!("<xs:simpleType name=\"{}\">{}</xs:simpleType>\n", name, body)
    }
}

fn construct(c: &mut Chooser, thorough: bool, varied: bool) -> Option<Type> {
    let base = c.choose(MAIN.len());
    let b = &BASES[base];
    let names = facet_names(b.kind);
    let full = b.main || thorough;
    let n = c.choose(if varied { 2 + (b.main as usize) } else if full { 4 } else { 3 });
    let mut left: Vec<usize> = (0..names.len()).collect();
    let mut facets = vec![];
    for _ in 0..n {
        let k = left.remove(c.choose(left.len()));
        let w = c.choose(match (thorough, varied) { (true, false) => 4, (true, true) | (false, false) => 3, _ => 2 });
        let s = c.dev(6);
        spelled(b.kind, b.pool[w], s)?;
        facets.push((k, w, s));
    }
    let noise = c.dev(NOISES);
    if n == 0 && noise > 2 {
        return None;
    }
    Some(Type { base, facets, noise })
}

/// One facet with a bound of every size.
fn sized(c: &mut Chooser, thorough: bool) -> Option<Type> {
    let base = MAIN.len() + c.choose(BASES.len() - MAIN.len());
    let names = facet_names(BASES[base].kind);
    let k = if thorough || !num(BASES[base].kind) { c.choose(names.len()) } else { base % names.len() };
    Some(Type { base, facets: vec![(k, 0, 0)], noise: 0 })
}

/// Sources with types of other kinds: no facet of theirs may refuse a value.
fn others() -> (String, Vec<(&'static str, &'static [&'static str])>) {
    let s = "<xs:simpleType name=\"OthEnum\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"aa\"/><xs:enumeration value=\"b\"/></xs:restriction></xs:simpleType>
<xs:simpleType name=\"OthUnion\"><xs:union memberTypes=\"xs:int xs:string\"/></xs:simpleType>
<xs:simpleType name=\"OthList\"><xs:list itemType=\"xs:int\"/></xs:simpleType>
<xs:simpleType name=\"OthItems\"><xs:list><xs:simpleType><xs:restriction base=\"xs:string\"><xs:minLength value=\"2\"/></xs:restriction></xs:simpleType></xs:list></xs:simpleType>
<xs:simpleType name=\"OthInts\"><xs:list><xs:simpleType><xs:restriction base=\"xs:int\"><xs:maxInclusive value=\"2\"/></xs:restriction></xs:simpleType></xs:list></xs:simpleType>
<xs:simpleType name=\"OthBool\"><xs:restriction base=\"xs:boolean\"><xs:pattern value=\"true\"/></xs:restriction></xs:simpleType>
<xs:simpleType name=\"OthDate\"><xs:restriction base=\"xs:date\"/></xs:simpleType>
<xs:simpleType name=\"OthWords\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"a b\"/><xs:enumeration value=\"c\"/></xs:restriction></xs:simpleType>
<xs:complexType name=\"OthStruct\"><xs:sequence><xs:element name=\"v\" minOccurs=\"0\"><xs:simpleType><xs:restriction base=\"xs:int\"><xs:maxInclusive value=\"2\"/></xs:restriction></xs:simpleType></xs:element></xs:sequence><xs:attribute name=\"a\" type=\"xs:string\"/></xs:complexType>
<xs:complexType name=\"OthChoice\"><xs:choice><xs:element name=\"v\" type=\"xs:int\"/><xs:element name=\"w\" type=\"xs:string\"/></xs:choice></xs:complexType>
<xs:complexType name=\"OthEmpty\"/>
".to_string();
    (
        s,
        vec![
            ("OthUnion", &["<a>5</a>", "<a>x</a>", "<a></a>"][..]),
            ("OthEnum", &["<a>aa</a>", "<a>b</a>"]),
            ("OthStruct", &["<OthStruct xmlns=\"urn:t\"><v>1</v></OthStruct>", "<OthStruct xmlns=\"urn:t\" a=\"x\"/>"]),
            ("OthChoice", &["<OthChoice xmlns=\"urn:t\"><v>1</v></OthChoice>", "<OthChoice xmlns=\"urn:t\"><w>1</w></OthChoice>"]),
            ("OthEmpty", &["<OthEmpty xmlns=\"urn:t\"/>"]),
            ("OthList", &["", "1", "1 2 3"]),
            ("OthItems", &["", "abc", "abc def", "abc def ghi"]),
            ("OthInts", &["1", "1 2", "2 2 1"]),
            ("OthBool", &["true", "false"]),
            ("OthDate", &["2020-01-01", "1999-12-31"]),
            ("OthWords", &["a b", "c", "d"]),
        ],
    )
}

struct Probe {
    key: &'static str,
    base: usize,
    lits: &'static [&'static str],
}

pub fn run(ctx: &Ctx) {
    let budget = if ctx.thorough() { 2 } else { 1 };
    ctx.bound(format!("ordered selections of up to three of minInclusive/maxInclusive/minExclusive/maxExclusive (numbers) or length/minLength/maxLength (strings, lists), {} bounds per base (bases {} with all selections of three{}), {} deviation(s) among: bound spelled with white space, sign, leading zeros or point; annotations, ids, fixed, comments, facets that are not checked beside the bounds; type declared inside an element",
        if ctx.thorough() { 4 } else { 3 },
        BASES.iter().filter(|b| b.main).map(|b| b.name).collect::<Vec<_>>().join(", "),
        if ctx.thorough() { ", as the others" } else { ", the others of two" }, budget));
    ctx.bound("values: both neighbours of every bound, the ends of the value range, other spellings of the same number; strings and items in one to four byte characters");
    ctx.assume("facets of the declared type itself (not of the types it restricts, which are checked where they are declared); base types for which the generated code offers an order or a length (numbers, strings, lists); bounds within the value range of the base, as XML Schema requires");
    let thorough = ctx.thorough();
    explore(ctx, "facets", 0, |c| construct(c, thorough, false), true);
    explore(ctx, "spellings", budget, |c| construct(c, thorough, true), false);
    ctx.bound(format!("bounds: {} bounds (lengths 4 to 70 and 15 up to 4096 of strings and items; powers of two and ten and their neighbours on every integer and decimal base) x every facet (numbers in the quick tier: one facet in turn) x values around the bound in one to four byte characters", BASES.len() - MAIN.len()));
    explore(ctx, "bounds", 0, |c| sized(c, thorough), false);
    findings(ctx);
}

fn explore(ctx: &Ctx, name: &str, budget: u32, construct: impl Fn(&mut Chooser) -> Option<Type>, with_others: bool) {
    let (mut cases, edges) = paths(budget, construct);
    // distinct types only
    let mut seen = std::collections::BTreeSet::new();
    cases.retain(|c| seen.insert(c.1.clone()));
    if let Some((n, ch)) = &ctx.replay {
        if n != name {
            return;
        }
        ctx.replay_hits.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        cases.retain(|c| &c.0 == ch);
    }
    let only = ctx.replay.is_some() || !with_others;
    let per = 60;
    let mut modules = vec![];
    let mut jobs: Vec<Job> = vec![];
    // job -> (case, literal, expected)
    let mut meta: Vec<(usize, String, bool)> = vec![];
    let lits: Vec<Vec<String>> = BASES.iter().map(literals).collect();
    let (other_xml, other_lits) = others();
    let mut other_jobs: BTreeMap<usize, (&str, &str)> = BTreeMap::new();
    for (g, chunk) in cases.chunks(per).enumerate() {
        let m = modules.len();
        let mut xsd = String::from("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:tns=\"urn:t\" targetNamespace=\"urn:t\">\n");
        let mut arms = String::new();
        for (i, (_, t)) in chunk.iter().enumerate() {
            xsd += &xml(t, &format!("T{}", i));
            arms += &format!("{} => crate::verdict::<{}>(text),\n", i, if t.noise == ANON { format!("t{}::ElType", i) } else { format!("T{}", i) });
            for l in &lits[t.base] {
                let expected = satisfies(&BASES[t.base], &t.facets, l);
                jobs.push(Job { module: m, sel: i, text: l.clone() });
                meta.push((g * per + i, l.clone(), expected));
            }
        }
        if g == 0 && !only {
            xsd += &other_xml;
            for (i, (n, ls)) in other_lits.iter().enumerate() {
                arms += &format!("{} => crate::verdict{}::<{}>(text),\n", 1000 + i, if ls[0].starts_with('<') { "_doc" } else { "" }, n);
                for l in ls.iter() {
                    other_jobs.insert(jobs.len(), (n, l));
                    jobs.push(Job { module: m, sel: 1000 + i, text: l.to_string() });
                    meta.push((usize::MAX, l.to_string(), true));
                }
            }
        }
        xsd += "</xs:schema>";
        let code = match generate(&xsd) {
            Ok(c) => c,
            Err(e) => {
                let mut v = viol("generator", xsd.clone(), "a module", e);
                v.explore = name.into();
                v.choices = chunk[0].0.clone();
                ctx.report(v);
                String::new()
            }
        };
        if code.is_empty() {
            // nothing to run
            jobs.retain(|j| j.module != m);
            meta.truncate(jobs.len());
            modules.push(Module { code: "pub fn run(_: usize, _: &str) -> String { String::new() }".into() });
            continue;
        }
        modules.push(Module { code: format!("{}{}\npub fn run(sel: usize, text: &str) -> String {{ match sel {{ {} _ => unreachable!() }} }}\n", HEADER, code, arms) });
    }
    if !modules.is_empty() {
        let out = crate::batch::run(ctx, name, &modules, &jobs);
        for (m, e) in &out.broken {
            let first = &cases[m * per];
            let mut v = viol("does not compile", format!("{} and the types after it", xml(&first.1, "T0")), "the validators compile", e.clone());
            v.explore = name.into();
            v.choices = first.0.clone();
            ctx.report(v);
        }
        let mut traces = 0;
        for (j, r) in out.results.iter().enumerate() {
            let Some(r) = r else { continue };
            traces += 1;
            let (case, lit, exp) = &meta[j];
            let want = if *exp { "valid" } else { "invalid" };
            if r == want {
                ctx.class(want, 1);
                continue;
            }
            if *case == usize::MAX {
                let (n, l) = other_jobs[&j];
                ctx.report(viol("no facets", format!("{} {:?}", n, l), want, r.clone()));
                continue;
            }
            let (ch, t) = &cases[*case];
            let mut v = viol(format!("{}/{}", BASES[t.base].name, if r == "valid" || r == "invalid" { "verdict" } else { r.as_str() }), format!("{} value {:?}", xml(t, "T").trim(), lit), want, r.clone());
            v.explore = name.into();
            v.choices = ch.clone();
            ctx.report(v);
        }
        ctx.sample(format!("{} {:?} -> valid={}", xml(&cases[meta[meta.len() / 2].0.min(cases.len() - 1)].1, "T").trim(), meta[meta.len() / 2].1, meta[meta.len() / 2].2));
        ctx.add(name, cases.len() as u64, edges, traces);
    }
}

/// Recorded findings: what the generated checks are known not to decide.
fn findings(ctx: &Ctx) {
    if ctx.replay.is_some() {
        return;
    }
    let probes = [Probe { key: "nan", base: 14, lits: &["NaN"] }];
    let mut modules = vec![];
    let mut jobs = vec![];
    let mut meta = vec![];
    for p in &probes {
        let mut xsd = String::from("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:tns=\"urn:t\" targetNamespace=\"urn:t\">\n");
        let mut arms = String::new();
        for k in 0..4 {
            xsd += &xml(&Type { base: p.base, facets: vec![(k, 2, 0)], noise: 0 }, &format!("T{}", k));
            arms += &format!("{0} => crate::verdict::<T{0}>(text),", k);
            for l in p.lits {
                jobs.push(Job { module: modules.len(), sel: k, text: l.to_string() });
                meta.push((p.key, format!("{} {}", NUM[k], l)));
            }
        }
        xsd += "</xs:schema>";
        let Ok(code) = generate(&xsd) else { continue };
        modules.push(Module { code: format!("{}{}\npub fn run(sel: usize, text: &str) -> String {{ match sel {{ {} _ => unreachable!() }} }}\n", HEADER, code, arms) });
    }
    let out = crate::batch::run(ctx, "findings", &modules, &jobs);
    for (r, (k, what)) in out.results.iter().zip(&meta) {
        match r.as_deref() {
            Some("invalid") => {}
            Some("valid") => ctx.report(viol(*k, what.clone(), "invalid", "valid")),
            r => ctx.report(viol(format!("{} without verdict", k), what.clone(), "invalid", format!("{:?}", r))),
        }
    }
    // orders and lengths the generated code does not have
    let no: [(&str, &str); 4] = [
        ("user base", "<xs:simpleType name=\"Age\"><xs:restriction base=\"xs:int\"/></xs:simpleType><xs:simpleType name=\"T\"><xs:restriction base=\"tns:Age\"><xs:maxInclusive value=\"3\"/></xs:restriction></xs:simpleType>"),
        ("user list base", "<xs:simpleType name=\"Ints\"><xs:list itemType=\"xs:int\"/></xs:simpleType><xs:simpleType name=\"T\"><xs:restriction base=\"tns:Ints\"><xs:maxLength value=\"3\"/></xs:restriction></xs:simpleType>"),
        ("date base", "<xs:simpleType name=\"T\"><xs:restriction base=\"xs:date\"><xs:minInclusive value=\"2020-01-01\"/></xs:restriction></xs:simpleType>"),
        ("octets", "<xs:simpleType name=\"T\"><xs:restriction base=\"xs:hexBinary\"><xs:maxLength value=\"2\"/></xs:restriction></xs:simpleType>"),
    ];
    let lits = ["3", "3", "2020-01-01", "0A0B"];
    let mut modules = vec![];
    let mut jobs = vec![];
    for (i, (_, x)) in no.iter().enumerate() {
        let code = generate(&format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:tns=\"urn:t\" targetNamespace=\"urn:t\">{}</xs:schema>", x)).unwrap_or_default();
        modules.push(Module { code: format!("{}{}\npub fn run(_: usize, text: &str) -> String {{ crate::verdict::<T>(text) }}\n", HEADER, code) });
        jobs.push(Job { module: i, sel: 0, text: lits[i].into() });
    }
    let out = crate::batch::run(ctx, "findings2", &modules, &jobs);
    for (i, (k, x)) in no.iter().enumerate() {
        if let Some(e) = out.broken.get(&i) {
            ctx.report(viol(*k, *x, "valid", format!("does not compile: {}", e)));
        } else if out.results[i].as_deref() != Some("valid") {
            ctx.report(viol(*k, *x, "valid", out.results[i].clone().unwrap_or_default()));
        }
    }
    ctx.add("known findings", (probes.len() * 4 + no.len()) as u64, 0, (jobs.len() + meta.len()) as u64);
}
