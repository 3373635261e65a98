//! C15: documents through generated code.
use crate::batch::*;
use crate::mc::*;
use crate::schema::*;
use std::collections::{BTreeMap, BTreeSet};

const LABELLED: &str = "schema and document";

fn module(xsd: &str, other: Option<&str>) -> Result<String, String> {
    let other = match other {
        Some(o) => format!("pub mod o {{\n{}{}\n}}\n", HEADER, generate(o)?),
        None => String::new(),
    };
    generate(xsd).map(|code| format!("{}{}{other}\npub fn run(_: usize, text: &str) -> String {{ crate::roundtrip::<Foo>(text) }}\n", HEADER, code))
}

/// A schema, what its Foo holds, and how many documents of it are tried.
pub struct Case {
    pub xsd: String,
    pub other: Option<String>,
    pub t: T,
    /// no target namespace
    pub bare: bool,
    pub deviations: u32,
    pub styles: usize,
}
impl Case {
    fn of(s: &Schema, deviations: u32) -> Case {
        Case { xsd: xsd(s), other: other_xsd(s), t: T::Complex(root(s)), bare: s.style == 3, deviations, styles: STYLES }
    }
}

pub fn run(ctx: &Ctx) {
    let sb = if ctx.thorough() { 3 } else { 2 };
    let db = if ctx.thorough() { 3 } else { 2 };
    ctx.bound(format!("schemas of one type, at most three particles and two attributes over {} kinds of content, {} deviations from the plainest schema; documents with {} deviations from the plainest document", KINDS.len(), sb, db));
    ctx.assume("outside: values not in canonical spelling, wildcards, mixed content, nillable, elements without type, substitution groups, unqualified local elements; what is known not to be carried through is excluded from the exploration and checked as known findings");
    carried(ctx, "documents", || {
        let (cases, edges) = paths(sb, |c| schema(c, NAMES));
        (cases.into_iter().map(|(ch, s)| (ch, Case::of(&s, db))).collect(), edges)
    });
    let centres = if ctx.thorough() { 12000 } else { 1200 };
    ctx.bound(format!("rich schemas: the schemas of the same grammar at {} fixed points where about half of all choices deviate, documents with one deviation", centres));
    carried(ctx, "rich schemas", || {
        let (cases, edges) = paths(0, |c| {
            let k = c.choose(centres);
            c.centre(k);
            schema(c, NAMES)
        });
        (cases.into_iter().map(|(ch, s)| (ch, Case::of(&s, 1))).collect(), edges)
    });
    crate::more::run(ctx);
    if ctx.replay.is_none() {
        findings(ctx);
    }
}

pub fn carried(ctx: &Ctx, name: &str, make: impl FnOnce() -> (Vec<(Vec<u32>, Case)>, u64)) {
    if let Some((n, _)) = &ctx.replay {
        if n != name {
            return;
        }
    }
    let (mut cases, edges) = make();
    let mut seen = BTreeSet::new();
    cases.retain(|c| seen.insert(c.1.xsd.clone()));
    if let Some((_, ch)) = &ctx.replay {
        ctx.replay_hits.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        cases.retain(|c| &c.0 == ch);
    }
    let mut modules = vec![];
    let mut owner = vec![];
    let mut jobs = vec![];
    let mut docs: Vec<(usize, E)> = vec![];
    let mut doc_edges = 0;
    for (i, (ch, s)) in cases.iter().enumerate() {
        running(0, name, ch.iter().copied(), now_ms());
        let generated = module(&s.xsd, s.other.as_deref());
        idle(0);
        match generated {
            Ok(code) => {
                let m = modules.len();
                modules.push(Module { code });
                owner.push(i);
                let (ds, e) = paths(s.deviations, |c| {
                    let e = element(c, T_NS, "Foo", &s.t);
                    let st = c.dev(s.styles);
                    Some((e, st))
                });
                doc_edges += e;
                let mut seen = BTreeSet::new();
                for (_, (mut e, st)) in ds {
                    if s.bare {
                        settle(&mut e);
                    }
                    let text = print(&e, st);
                    if seen.insert(text.clone()) {
                        jobs.push(Job { module: m, sel: 0, text });
                        docs.push((i, e));
                    }
                }
            }
            Err(e) => {
                let mut v = viol("generator", s.xsd.clone(), "a module", e);
                v.explore = name.into();
                v.choices = ch.clone();
                ctx.report(v);
            }
        }
    }
    let out = crate::batch::run(ctx, &name.replace(' ', "-"), &modules, &jobs);
    for (m, e) in &out.broken {
        let (ch, s) = &cases[owner[*m]];
        let mut v = viol("does not compile", s.xsd.clone(), "the module compiles", e.clone());
        v.explore = name.into();
        v.choices = ch.clone();
        ctx.report(v);
    }
    let mut traces = 0;
    let mut sizes: BTreeMap<&str, u64> = BTreeMap::new();
    for (j, r) in out.results.iter().enumerate() {
        let Some(r) = r else { continue };
        traces += 1;
        let (i, e) = &docs[j];
        let (ch, s) = &cases[*i];
        let expected = canon_doc(e);
        let verdict = match r.strip_prefix("ok ") {
            Some(x) => match canon_xml(x, e) {
                Ok(c) if c == expected => {
                    *sizes.entry(if e.kids.len() < 2 { "same, up to one child" } else { "same, several children" }).or_insert(0) += 1;
                    continue;
                }
                Ok(c) => ("differs", format!("{} from {}", c, x)),
                Err(e) => ("no XML", e),
            },
            None => ("fails", r.clone()),
        };
        if let Ok(f) = std::env::var("E2E_DUMP") {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(f).unwrap();
            writeln!(f, "{}\u{1}{}\u{1}{}\u{1}{}\u{1}{:?}", s.xsd.replace('\n', " "), jobs[j].text.replace('\n', " "), expected, format!("{} {}", verdict.0, verdict.1).replace('\n', " "), ch).unwrap();
        }
        let mut v = viol(format!("{}: {}", LABELLED, verdict.0), format!("{} document {}", s.xsd, jobs[j].text), expected, verdict.1);
        v.explore = name.into();
        v.choices = ch.clone();
        ctx.report(v);
    }
    for (k, n) in sizes {
        ctx.class(k, n);
    }
    if let Some(j) = jobs.get(jobs.len() / 2) {
        ctx.sample(format!("{} document {}", cases[docs[jobs.len() / 2].0].1.xsd, j.text));
    }
    ctx.add(name, (modules.len() + jobs.len()) as u64, edges + doc_edges, traces);
}

struct Probe {
    key: &'static str,
    xsd: &'static str,
    other: &'static str,
    root: &'static str,
    doc: &'static str,
}
const fn p(key: &'static str, xsd: &'static str, doc: &'static str) -> Probe {
    Probe { key, xsd, other: "", root: "Foo", doc }
}
/// What is known not to be carried through, each by the schema and document that show it.
/// {} stands for the attributes of the schema element, F( .. ) for a complex type Foo with a sequence.
const PROBES: &[Probe] = &[
    Probe { other: "<xs:simpleType name='Side'><xs:restriction base='xs:string'><xs:enumeration value='left'/></xs:restriction></xs:simpleType>", ..p("foreign enum", "<xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='o:Side'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a>left</a></Foo>") },
    Probe { other: "<xs:complexType name='Way'><xs:choice><xs:element name='num' type='xs:int'/><xs:element name='word' type='xs:string'/></xs:choice></xs:complexType>", ..p("foreign choice", "<xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='o:Way'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a><num xmlns='urn:o'>1</num></a></Foo>") },
    Probe { other: "<xs:element name='Pack'><xs:complexType><xs:sequence><xs:element name='g' type='xs:int'/></xs:sequence></xs:complexType></xs:element>", ..p("foreign alternative", "<xs:complexType name='Foo'><xs:choice><xs:element ref='o:Pack'/><xs:element name='b' type='xs:int'/></xs:choice></xs:complexType>", "<Foo xmlns='urn:t'><Pack xmlns='urn:o'><g>1</g></Pack></Foo>") },
    Probe { other: "<xs:complexType name='Box'><xs:sequence><xs:element name='a' type='xs:int' minOccurs='0'/></xs:sequence></xs:complexType>", ..p("foreign element with a child of its name", "<xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='o:Box'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a><a xmlns='urn:o'>1</a></a></Foo>") },
    p("element with a child of its name", "<xs:complexType name='Bar'><xs:sequence><xs:element name='a' type='xs:int' minOccurs='0'/></xs:sequence></xs:complexType><xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='tns:Bar'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a><a>1</a></a></Foo>"),
    p("repeated choice", "<xs:complexType name='Foo'><xs:choice maxOccurs='unbounded'><xs:element name='a' type='xs:int'/><xs:element name='b' type='xs:int'/></xs:choice></xs:complexType>", "<Foo xmlns='urn:t'><a>1</a><b>2</b></Foo>"),
    p("absent choice", "<xs:complexType name='Foo'><xs:choice minOccurs='0'><xs:element name='a' type='xs:int'/><xs:element name='b' type='xs:int'/></xs:choice></xs:complexType>", "<Foo xmlns='urn:t'/>"),
    p("attributes of an alternative", "<xs:complexType name='Foo'><xs:choice><xs:element name='a' type='tns:Bar'/><xs:element name='b' type='xs:int'/></xs:choice></xs:complexType><xs:complexType name='Bar'><xs:attribute name='k' type='xs:int'/></xs:complexType>", "<Foo xmlns='urn:t'><a k='1'/></Foo>"),
    p("anonymous type of an alternative", "<xs:complexType name='Foo'><xs:choice><xs:element name='a'><xs:complexType><xs:sequence><xs:element name='x' type='xs:int'/></xs:sequence></xs:complexType></xs:element><xs:element name='b' type='xs:int'/></xs:choice></xs:complexType>", "<Foo xmlns='urn:t'><a><x>1</x></a></Foo>"),
    p("choice after a structured element", "<xs:complexType name='Foo'><xs:sequence><xs:element name='d' type='xs:date'/><xs:choice><xs:element name='a' type='xs:int'/><xs:element name='b' type='xs:int'/></xs:choice></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><d>2020-01-01</d><a>1</a></Foo>"),
    p("two choices", "<xs:complexType name='Foo'><xs:sequence><xs:choice><xs:element name='a' type='xs:int'/><xs:element name='b' type='xs:int'/></xs:choice><xs:choice><xs:element name='c' type='xs:int'/><xs:element name='d' type='xs:int'/></xs:choice></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a>1</a><d>1</d></Foo>"),
    p("direct recursion", "<xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='tns:Foo' minOccurs='0'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a/></Foo>"),
    p("elements of a derived type", "<xs:complexType name='Bar'><xs:sequence><xs:element name='x' type='xs:int'/></xs:sequence></xs:complexType><xs:complexType name='Foo'><xs:complexContent><xs:extension base='tns:Bar'><xs:sequence><xs:element name='y' type='xs:int'/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>", "<Foo xmlns='urn:t'><x>1</x><y>2</y></Foo>"),
    p("simple content", "<xs:complexType name='Foo'><xs:simpleContent><xs:extension base='xs:int'><xs:attribute name='k' type='xs:int'/></xs:extension></xs:simpleContent></xs:complexType>", "<Foo xmlns='urn:t' k='1'>5</Foo>"),
    p("union member of a type", "<xs:simpleType name='U'><xs:union memberTypes='xs:int xs:string'/></xs:simpleType><xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='tns:U'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a>5</a></Foo>"),
    p("enumeration in a union", "<xs:simpleType name='E'><xs:restriction base='xs:string'><xs:enumeration value='x'/></xs:restriction></xs:simpleType><xs:simpleType name='Foo'><xs:union memberTypes='tns:E xs:int'/></xs:simpleType>", "<Foo>x</Foo>"),
    p("list of enumeration", "<xs:simpleType name='E'><xs:restriction base='xs:string'><xs:enumeration value='x'/></xs:restriction></xs:simpleType><xs:simpleType name='Foo'><xs:list itemType='tns:E'/></xs:simpleType>", "<Foo>x x</Foo>"),
    p("list of union", "<xs:simpleType name='U'><xs:union memberTypes='xs:int xs:string'/></xs:simpleType><xs:simpleType name='Foo'><xs:list itemType='tns:U'/></xs:simpleType>", "<Foo>1 x</Foo>"),
    p("list valued attribute", "<xs:complexType name='Foo'><xs:attribute name='k' type='xs:NMTOKENS' use='required'/></xs:complexType>", "<Foo xmlns='urn:t' k='a b'/>"),
    p("reference to a named type", "<xs:element name='g' type='xs:int'/><xs:complexType name='Foo'><xs:sequence><xs:element ref='tns:g'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><g>1</g></Foo>"),
    p("attribute and element of one name", "<xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='xs:string'/></xs:sequence><xs:attribute name='a' type='xs:string'/></xs:complexType>", "<Foo xmlns='urn:t' a='x'><a>y</a></Foo>"),
    p("values that differ in case only", "<xs:simpleType name='E'><xs:restriction base='xs:string'><xs:enumeration value='x'/><xs:enumeration value='X'/></xs:restriction></xs:simpleType><xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='tns:E'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a>X</a></Foo>"),
    Probe { root: "Bar", ..p("name of the root element", "<xs:complexType name='Bar'><xs:sequence><xs:element name='a' type='xs:string'/></xs:sequence></xs:complexType><xs:element name='root' type='tns:Bar'/>", "<root xmlns='urn:t'><a>y</a></root>") },
    p("empty string", "<xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='xs:string'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a></a></Foo>"),
    p("optional empty string", "<xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='xs:string' minOccurs='0'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a></a></Foo>"),
    p("empty list", "<xs:simpleType name='L'><xs:list itemType='xs:int'/></xs:simpleType><xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='tns:L' minOccurs='0'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a></a></Foo>"),
    p("markup in attributes", "<xs:complexType name='Foo'><xs:attribute name='k' type='xs:string'/></xs:complexType>", "<Foo xmlns='urn:t' k='a&lt;b&amp;c'/>"),
    p("repeated sequence", "<xs:complexType name='Foo'><xs:sequence maxOccurs='unbounded'><xs:element name='a' type='xs:int'/><xs:element name='b' type='xs:int'/></xs:sequence></xs:complexType>", "<Foo xmlns='urn:t'><a>1</a><b>1</b><a>2</a><b>2</b></Foo>"),
    p("unqualified elements", "<!--unqualified--><xs:complexType name='Foo'><xs:sequence><xs:element name='a' type='xs:int'/></xs:sequence></xs:complexType>", "<q:Foo xmlns:q='urn:t'><a>1</a></q:Foo>"),
    p("simple root wrapper", "<xs:element name='Foo'><xs:simpleType><xs:restriction base='xs:int'/></xs:simpleType></xs:element>", "<Foo xmlns='urn:t'>5</Foo>"),
    p("simple root enumeration", "<xs:element name='Foo'><xs:simpleType><xs:restriction base='xs:string'><xs:enumeration value='x'/></xs:restriction></xs:simpleType></xs:element>", "<Foo xmlns='urn:t'>x</Foo>"),
    p("attribute of another namespace", "<xs:complexType name='Foo'><xs:attribute name='k' type='xs:string' form='qualified'/></xs:complexType>", "<q:Foo xmlns:q='urn:t' q:k='1'/>"),
    p("enumeration attribute optional", "<xs:simpleType name='E'><xs:restriction base='xs:string'><xs:enumeration value='x y'/><xs:enumeration value='z'/></xs:restriction></xs:simpleType><xs:complexType name='Foo'><xs:attribute name='k' type='tns:E'/></xs:complexType>", "<Foo xmlns='urn:t' k='x y'/>"),
];

pub fn findings(ctx: &Ctx) {
    let mut modules = vec![];
    let mut jobs = vec![];
    let mut owner = vec![];
    let mut bad = |i: usize, actual: String| {
        let p: &Probe = &PROBES[i];
        if std::env::var("E2E_DUMP").is_ok() { eprintln!("PROBE {}: {:.400}", p.key, actual); }
        ctx.report(viol(p.key, format!("{} {}", p.xsd, p.doc), "the same document", actual));
    };
    for (i, p) in PROBES.iter().enumerate() {
        let form = if p.xsd.starts_with("<!--unqualified") { "unqualified" } else { "qualified" };
        let x = format!("<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema' xmlns:tns='urn:t' xmlns:o='urn:o' targetNamespace='urn:t' elementFormDefault='{}'>{}</xs:schema>", form, p.xsd);
        let other = if p.other.is_empty() { None } else { Some(format!("<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema' xmlns:o='urn:o' targetNamespace='urn:o' elementFormDefault='qualified'>{}</xs:schema>", p.other)) };
        match module(&x, other.as_deref()) {
            Ok(code) => {
                jobs.push(Job { module: modules.len(), sel: 0, text: p.doc.into() });
                modules.push(Module { code: code.replace("roundtrip::<Foo>", &format!("roundtrip::<{}>", p.root)) });
                owner.push(i);
            }
            Err(e) => bad(i, e),
        }
    }
    let out = crate::batch::run(ctx, "findings", &modules, &jobs);
    for (m, e) in &out.broken {
        bad(owner[*m], format!("does not compile: {}", e));
    }
    for (j, r) in out.results.iter().enumerate() {
        let i = owner[jobs[j].module];
        let Some(r) = r else { continue };
        match r.strip_prefix("ok ").map(canon) {
            Some(Ok(c)) if Ok(&c) == canon(PROBES[i].doc).as_ref() => {}
            _ => bad(i, r.clone()),
        }
    }
    ctx.add("known findings", PROBES.len() as u64, 0, jobs.len() as u64);
}

fn canon(text: &str) -> Result<String, String> {
    let d = roxmltree::Document::parse(text).map_err(|e| e.to_string())?;
    fn go(n: roxmltree::Node) -> String {
        if n.is_text() {
            return n.text().unwrap_or("").to_string();
        }
        let mut a: Vec<String> = n.attributes().map(|a| format!(" {{{}}}{}={:?}", a.namespace().unwrap_or(""), a.name(), a.value())).collect();
        a.sort();
        format!("<{{{}}}{}{}>{}</>", n.tag_name().namespace().unwrap_or(""), n.tag_name().name(), a.concat(), n.children().filter(|c| c.is_element() || c.is_text()).map(go).collect::<String>())
    }
    Ok(go(d.root_element()))
}
