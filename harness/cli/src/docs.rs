//! C18: WSDL documents with embedded schemas.
use crate::mc::*;
use crate::tree::*;
use crate::*;

/// An embedded schema: prefixes it needs with their namespaces (the first is XML Schema's), target namespace, own attributes, body.
struct Emb {
    what: &'static str,
    decls: &'static [(Option<&'static str>, &'static str)],
    target: Option<&'static str>,
    body: &'static str,
}
const XS: &str = "http://www.w3.org/2001/XMLSchema";
const EMB: &[Emb] = &[
    Emb {
        what: "elements",
        decls: &[(Some("xs"), XS), (Some("tds"), "http://example.com/device"), (Some("tt"), "http://example.com/types")],
        target: Some("http://example.com/device"),
        body: r#"<xs:import namespace="http://example.com/types" schemaLocation="types.xsd"/><xs:element name="GetThing"><xs:annotation><xs:documentation>Gets it.</xs:documentation></xs:annotation><xs:complexType><xs:sequence><xs:element name="kind" type="tt:Kind" minOccurs="0"/><xs:element name="name" type="xs:string"/></xs:sequence></xs:complexType></xs:element><xs:element name="GetThingResponse"><xs:complexType><xs:sequence><xs:element name="Thing" type="tds:Thing" maxOccurs="unbounded"/></xs:sequence></xs:complexType></xs:element><xs:complexType name="Thing"><xs:sequence><xs:element name="id" type="xs:int"/><xs:element name="owner" type="tds:Owner"/></xs:sequence></xs:complexType><xs:simpleType name="Owner"><xs:restriction base="xs:string"><xs:maxLength value="8"/></xs:restriction></xs:simpleType>"#,
    },
    Emb {
        what: "derivation",
        decls: &[(Some("xs"), XS), (Some("tt"), "http://example.com/types")],
        target: Some("http://example.com/types"),
        body: r#"<xs:complexType name="Derived"><xs:complexContent><xs:extension base="tt:Base"><xs:sequence><xs:element name="more" type="xs:boolean"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType><xs:attributeGroup name="Common"><xs:attribute name="code" type="xs:int" use="required"/></xs:attributeGroup><xs:complexType name="Base"><xs:sequence><xs:element name="first" type="xs:string"/></xs:sequence><xs:attributeGroup ref="tt:Common"/></xs:complexType><xs:simpleType name="Kind"><xs:restriction base="xs:string"><xs:enumeration value="A"/><xs:enumeration value="B"/></xs:restriction></xs:simpleType>"#,
    },
    Emb {
        what: "default namespace of XML Schema",
        decls: &[(None, XS), (Some("third"), "http://example.com/third")],
        target: Some("http://example.com/third"),
        body: r#"<simpleType name="Codes"><list itemType="int"/></simpleType><complexType name="Holder"><sequence><element name="codes" type="third:Codes"/></sequence><attribute name="mode" type="string"/></complexType>"#,
    },
    Emb {
        what: "no target namespace",
        decls: &[(Some("xs"), XS)],
        target: None,
        body: r#"<xs:complexType name="Plain"><xs:sequence><xs:element name="x" type="xs:int"/><xs:element name="y" type="Plainer"/></xs:sequence></xs:complexType><xs:simpleType name="Plainer"><xs:restriction base="xs:double"/></xs:simpleType>"#,
    },
    Emb {
        what: "another prefix of XML Schema",
        decls: &[(Some("xsd"), XS), (Some("tev"), "http://example.com/events")],
        target: Some("http://example.com/events"),
        body: r#"<xsd:element name="Notify"><xsd:complexType><xsd:choice><xsd:element name="a" type="xsd:int"/><xsd:element name="b" type="tev:Payload"/></xsd:choice></xsd:complexType></xsd:element><xsd:complexType name="Payload"><xsd:sequence><xsd:any minOccurs="0"/></xsd:sequence></xsd:complexType>"#,
    },
    Emb { what: "imports only", decls: &[(Some("xs"), XS)], target: None, body: r#"<xs:import namespace="http://example.com/types" schemaLocation="types.xsd"/>"# },
    Emb {
        what: "a prefix another schema uses otherwise",
        decls: &[(Some("xs"), XS), (Some("tds"), "http://example.com/other")],
        target: Some("http://example.com/other"),
        body: r#"<xs:complexType name="Same"><xs:sequence><xs:element name="again" type="tds:Same" minOccurs="0"/><xs:element name="v" type="xs:decimal"/></xs:sequence></xs:complexType>"#,
    },
    Emb {
        what: "the first namespace again",
        decls: &[(Some("xs"), XS), (Some("tds"), "http://example.com/device")],
        target: Some("http://example.com/device"),
        body: r#"<xs:complexType name="Second"><xs:sequence><xs:element name="thing" type="tds:Thing"/></xs:sequence></xs:complexType>"#,
    },
    Emb {
        what: "default namespace of its own",
        decls: &[(Some("xs"), XS), (None, "http://example.com/fourth")],
        target: Some("http://example.com/fourth"),
        body: r#"<xs:element name="Fourth" type="Inner"/><xs:complexType name="Inner"><xs:complexContent><xs:extension base="Innermost"><xs:sequence><xs:element name="list" type="Codes4" maxOccurs="unbounded"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType><xs:simpleType name="Codes4"><xs:list itemType="xs:int"/></xs:simpleType><xs:complexType name="Innermost"><xs:attribute name="a" type="Kind4"/></xs:complexType><xs:simpleType name="Kind4"><xs:union memberTypes="xs:int Codes4"/></xs:simpleType>"#,
    },
    Emb {
        what: "a prefix of more namespaces",
        decls: &[(Some("s"), XS), (Some("tds"), "http://example.com/device"), (Some("q1"), "http://example.com/types"), (Some("q2"), "http://example.com/third")],
        target: Some("http://example.com/fifth"),
        body: r#"<s:complexType name="Fifth"><s:sequence><s:element name="a" type="tds:Thing"/><s:element name="b" type="q1:Kind"/><s:element name="c" type="q2:Codes" minOccurs="0"/><s:element ref="tds:GetThing"/></s:sequence></s:complexType>"#,
    },
];

fn declare(decls: &[(Option<&str>, &str)]) -> String {
    decls
        .iter()
        .map(|(p, u)| match p {
            Some(p) => format!(" xmlns:{}=\"{}\"", p, u),
            None => format!(" xmlns=\"{}\"", u),
        })
        .collect()
}
fn schema_text(e: &Emb, inline: bool) -> String {
    let tag = match e.decls[0].0 {
        Some(p) => format!("{}:schema", p),
        None => "schema".into(),
    };
    let target = e.target.map(|t| format!(" targetNamespace=\"{}\"", t)).unwrap_or_default();
    let d = if inline { declare(e.decls) } else { String::new() };
    format!("<{}{}{} elementFormDefault=\"qualified\">{}</{}>", tag, d, target, e.body, tag)
}

#[derive(Clone, Debug, Hash)]
pub struct Doc {
    schemas: Vec<usize>,
    /// declared on the schema (0), at the root (1) or on the section (2)
    outer: usize,
    /// in two sections instead of one
    split: bool,
    /// 0: none, 1: one operation, 2: two operations in two port types
    ops: usize,
    prefix: usize,
    /// types after the port types
    late: bool,
}
fn wsdl_text(d: &Doc) -> Option<String> {
    let w = ["wsdl:", "", "w:"][d.prefix];
    let mut decls: Vec<(Option<&str>, &str)> = vec![(match d.prefix { 0 => Some("wsdl"), 1 => None, _ => Some("w") }, "http://schemas.xmlsoap.org/wsdl/"), (Some("tds"), "http://example.com/device")];
    let mut inline = vec![];
    for &k in &d.schemas {
        let mut here = d.outer == 0;
        if !here {
            // a prefix may be bound once at the root
            for x in EMB[k].decls {
                if x.0.is_none() && (d.prefix == 1 || d.schemas.contains(&3)) || decls.iter().any(|y| y.0 == x.0 && y.1 != x.1) || (x.1 == XS && decls.iter().any(|y| y.1 == XS && y.0 != x.0)) {
                    here = true;
                }
            }
            if !here {
                for x in EMB[k].decls {
                    if !decls.contains(x) {
                        decls.push(*x);
                    }
                }
            }
        }
        inline.push(here);
    }
    if d.outer > 0 && inline.iter().all(|x| *x) {
        return None;
    }
    let texts: Vec<String> = d.schemas.iter().zip(&inline).map(|(k, i)| schema_text(&EMB[*k], *i)).collect();
    // what the sections declare
    let (decls, section) = if d.outer == 2 { (decls[..2].to_vec(), declare(&decls[2..])) } else { (decls, String::new()) };
    let types = if d.split && texts.len() > 1 {
        format!("<{w}types{section}>{}</{w}types><{w}types{section}>{}</{w}types>", texts[0], texts[1..].concat())
    } else if d.split {
        return None;
    } else if texts.is_empty() {
        String::new()
    } else {
        format!("<{w}types{section}>\n<!-- c -->{}</{w}types>", texts.join("\n"))
    };
    let msgs = format!("<{w}message name=\"In\"><{w}part name=\"parameters\" element=\"tds:GetThing\"/></{w}message><{w}message name=\"Out\"><{w}part name=\"parameters\" element=\"tds:GetThingResponse\"/></{w}message>");
    let op = |n: &str| format!("<{w}operation name=\"{n}\"><{w}documentation>Does {n}.</{w}documentation><{w}input message=\"tds:In\"/><{w}output message=\"tds:Out\"/></{w}operation>");
    let ports = match d.ops {
        0 => String::new(),
        1 => format!("<{w}portType name=\"P\">{}</{w}portType>", op("GetThing")),
        _ => format!("<{w}portType name=\"Q\">{}</{w}portType><{w}portType name=\"P\">{}</{w}portType>", op("GetThing"), op("PutThing")),
    };
    let (a, b) = if d.late { (msgs + &ports, types) } else { (types, msgs + &ports) };
    Some(format!("<?xml version=\"1.0\"?>\n<{w}definitions targetNamespace=\"http://example.com/device\"{}>{}{}</{w}definitions>", declare(&decls), a, b))
}
fn functions(text: &str) -> String {
    let doc = roxmltree::Document::parse(text).expect("harness: WSDL");
    let defs = wsdl_parser::parser::definitions::Definitions::new(&doc.root_element());
    wsdl_parser::generator::generate(&defs)
}
/// Code of each schema on its own, then the functions.
fn expected(d: &Doc, text: &str) -> String {
    d.schemas.iter().map(|k| lib_xsd(&schema_text(&EMB[*k], true)).expect("harness: schema")).collect::<String>() + &functions(text)
}
pub fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn embedded(ctx: &Ctx, lab: &Lab) {
    let max = if ctx.thorough() { 4 } else { 3 };
    ctx.bound(format!("embedded schemas: all sequences of up to {} of {} schemas ({}) x namespaces declared on the schema, the root or the section x one or two sections x 0 to 2 operations x prefix of WSDL x order of sections, written to a file or standard output; compared with the code of each schema on its own, up to white space", max, EMB.len(), EMB.iter().map(|e| e.what).collect::<Vec<_>>().join(", ")));
    ctx.explore(
        "embedded schemas",
        0,
        |c| {
            let n = c.choose(max + 1);
            let schemas: Vec<usize> = (0..n).map(|_| c.choose(EMB.len())).collect();
            let few = n > 2 && !ctx.thorough() || n > 3;
            let d = Doc { schemas, outer: c.choose(3), split: !few && c.flag(), ops: if few { 1 } else { c.choose(3) }, prefix: if few { 0 } else { c.choose(3) }, late: !few && c.flag() };
            wsdl_text(&d)?;
            Some((d, c.flag()))
        },
        |x| hash64(x),
        |x| format!("{} to {}", wsdl_text(&x.0).unwrap(), if x.1 { "a file" } else { "standard output" }),
        |(d, file)| {
            let text = wsdl_text(d).unwrap();
            let want = expected(d, &text);
            let b = lab.bench();
            let mut tree = Tree::new();
            put(&mut tree, "in.wsdl", Node::File(text.clone().into_bytes()));
            put(&mut tree, "out.rs", Node::File(vec![b'/'; 40000]));
            b.write(&tree);
            let mut args = vec!["-i".to_string(), "in.wsdl".to_string()];
            if *file {
                args.extend(["-o".to_string(), "out.rs".to_string()]);
            }
            let r = b.run(&args, &[]);
            if !r.success {
                return Err(viol("embedded-fails", text, "success", format!("{} {}", r.code, r.stderr)));
            }
            let after = b.read();
            let got = if *file {
                match after.get("out.rs") {
                    Some(Node::File(f)) => String::from_utf8_lossy(f).into_owned(),
                    _ => String::new(),
                }
            } else {
                String::from_utf8_lossy(&r.stdout).into_owned()
            };
            if after.get("in.wsdl") != tree.get("in.wsdl") || (!*file && after != tree) || after.len() != tree.len() {
                return Err(viol("embedded-touches", text, format!("{:?}", tree.keys()), format!("{:?}", after.keys())));
            }
            if squash(&got) != squash(&want) {
                let (g, w) = (squash(&got), squash(&want));
                let i = g.bytes().zip(w.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(80).min(s.len())..(i + 200).min(s.len())]).into_owned();
                return Err(viol("embedded-differs", text, cut(&w), cut(&g)));
            }
            ok(1, "every schema, then the functions")
        },
    );
}

/// Numbers and lengths of embedded schemas.
pub fn many(ctx: &Ctx, lab: &Lab) {
    let th = ctx.thorough();
    let mut ns: Vec<usize> = (0..if th { 140 } else { 72 }).collect();
    ns.extend([100, 127, 128, 129, 255, 256, 257, 500]);
    if th {
        ns.extend([1000, 1025, 3000]);
    }
    let what = ["schemas in one section", "sections", "declarations of one schema", "levels of types", "prefixes at the root", "operations", "documentation", "schemas before the operations' one"];
    ctx.bound(format!("embedded numbers: {:?}: each in {} numbers up to {}, in either order; each schema with a namespace of its own, or all with one", what, ns.len(), ns.last().unwrap()));
    ctx.explore(
        "embedded numbers",
        0,
        |c| Some((c.choose(what.len()), *c.pick(&ns), c.flag(), c.flag())),
        |x| hash64(x),
        |x| format!("{} {}{}{}", x.1, what[x.0], if x.2 { ", reversed" } else { "" }, if x.3 { ", one namespace" } else { "" }),
        |x| {
            let (k, n, rev, one) = *x;
            let order: Vec<usize> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
            let schema = |i: usize, body: &str| {
                let ns = if one { "urn:all".to_string() } else { format!("urn:n{}", i) };
                format!("<xs:schema xmlns:xs=\"{}\" xmlns:p=\"{}\" targetNamespace=\"{}\">{}</xs:schema>", XS, ns, ns, body)
            };
            let ty = |i: usize| {
                let l = i * 7919 % 10007;
                format!("<xs:complexType name=\"Type{l}\"><xs:sequence><xs:element name=\"a\" type=\"p:Other{l}\"/></xs:sequence></xs:complexType><xs:simpleType name=\"Other{l}\"><xs:restriction base=\"xs:int\"/></xs:simpleType>")
            };
            let mut decls = String::new();
            let mut ops = 1;
            let (schemas, split): (Vec<String>, bool) = match k {
                0 => (order.iter().map(|&i| schema(i, &ty(i))).collect(), false),
                1 => (order.iter().map(|&i| schema(i, &ty(i))).collect(), true),
                2 => (vec![schema(0, &order.iter().map(|&i| ty(i)).collect::<String>()), schema(1, "<xs:simpleType name=\"After\"><xs:restriction base=\"xs:int\"/></xs:simpleType>")], false),
                3 => {
                    // types within types
                    let n = n.min(if one { 30 } else { 60 });
                    let mut t = "<xs:element name=\"last\" type=\"xs:int\"/>".to_string();
                    for i in 0..n {
                        t = format!("<xs:element name=\"level{}\"><xs:complexType><xs:sequence>{}</xs:sequence></xs:complexType></xs:element>", i * 7 % 1009, t);
                    }
                    (vec![schema(0, &format!("<xs:complexType name=\"Top\"><xs:sequence>{}</xs:sequence></xs:complexType>", t))], false)
                }
                4 => {
                    decls = order.iter().map(|i| format!(" xmlns:x{0}=\"urn:x{0}\"", i)).collect();
                    (vec![schema(0, &ty(0)), schema(1, &ty(1))], rev)
                }
                5 => {
                    ops = n;
                    (vec![schema(0, &ty(0))], rev)
                }
                6 => (vec![schema(0, &format!("<xs:simpleType name=\"Doc\"><xs:annotation><xs:documentation>{}</xs:documentation></xs:annotation><xs:restriction base=\"xs:string\"/></xs:simpleType>", if rev { "é".repeat(n) } else { order.iter().map(|i| format!("word{} ", i)).collect() }))], false),
                _ => {
                    let mut v: Vec<String> = (0..n).map(|i| schema(i, "")).collect();
                    v.push(schema(n, &ty(n)));
                    if rev {
                        v.reverse();
                    }
                    (v, one)
                }
            };
            let types: String = if split { schemas.iter().map(|s| format!("<w:types>{}</w:types>", s)).collect() } else { format!("<w:types>{}</w:types>", schemas.concat()) };
            let opt: String = (0..ops).map(|i| format!("<w:operation name=\"Do{}\"><w:input message=\"tds:In\"/></w:operation>", i * 7919 % 10007)).collect();
            let rest = format!("<w:message name=\"In\"><w:part name=\"parameters\" element=\"tds:GetThing\"/></w:message><w:portType name=\"P\">{}</w:portType>", opt);
            let text = format!("<w:definitions xmlns:w=\"http://schemas.xmlsoap.org/wsdl/\"{} xmlns:tds=\"http://example.com/device\" targetNamespace=\"http://example.com/device\">{}{}</w:definitions>", decls, types, rest);
            let want = schemas.iter().map(|s| lib_xsd(s).expect("harness: schema")).collect::<String>() + &functions(&text);
            let b = lab.bench();
            let mut tree = Tree::new();
            put(&mut tree, "in.wsdl", Node::File(text.into_bytes()));
            b.write(&tree);
            let r = b.run(&["-i".to_string(), "in.wsdl".to_string(), "-o".to_string(), "out.rs".to_string()], &[]);
            let got = match b.read().get("out.rs") {
                Some(Node::File(f)) => String::from_utf8_lossy(f).into_owned(),
                _ => String::new(),
            };
            let (g, w) = (squash(&got), squash(&want));
            if !r.success || g != w {
                let i = g.bytes().zip(w.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(80).min(s.len())..(i + 200).min(s.len())]).into_owned();
                return Err(viol("embedded-differs", format!("{:?} {}", x, what[k]), cut(&w), format!("{} {}: {}", r.code, r.stderr, cut(&g))));
            }
            ok(1, "every schema, then the functions")
        },
    );
}

/// Code of a whole document, as the libraries make it.
pub fn good(t: &str) -> Option<String> {
    guard(|| {
        let x = roxmltree::Document::parse(t).ok()?;
        let defs = wsdl_parser::parser::definitions::Definitions::new(&x.root_element());
        let mut o: String = defs
            .types()
            .iter()
            .flat_map(|t| t.schemas())
            .map(|s| xsd_parser::generator::builder::GeneratorBuilder::default().build().generate_rs_file(&xsd_parser::parser::schema::parse_schema(&s)))
            .collect();
        o += &wsdl_parser::generator::generate(&defs);
        Some(o)
    })
    .ok()
    .flatten()
}

/// Texts for the runs over files and trees.
pub fn wsdl_texts() -> Vec<Text> {
    let doc = |schemas: &[usize], ops| {
        let d = Doc { schemas: schemas.to_vec(), outer: 0, split: false, ops, prefix: 0, late: false };
        wsdl_text(&d).unwrap()
    };
    let short = doc(&[0], 1);
    let long = {
        let many: String = (0..60).map(|i| format!("<xs:complexType name=\"Kind{}\"><xs:sequence><xs:element name=\"é\" type=\"xs:int\"/></xs:sequence></xs:complexType>", i)).collect();
        doc(&[0, 1, 2], 2).replacen("<xs:element name=\"GetThing\">", &format!("{}<xs:element name=\"GetThing\">", many), 1)
    };
    let v: Vec<(&'static str, Vec<u8>)> = vec![
        ("short", short.clone().into_bytes()),
        ("long", long.clone().into_bytes()),
        ("malformed", short.replace("</wsdl:definitions>", "").into_bytes()),
        ("other", format!("{}\r\n<!-- end -->", doc(&[3, 4], 0)).into_bytes()),
        ("nothing but operations", doc(&[], 2).into_bytes()),
        ("empty file", vec![]),
        ("not UTF-8", { let mut b = short.clone().into_bytes(); let n = b.len(); b.insert(n - 20, 0xff); b }),
        ("no XML", b"# Notes\nnot a WSDL\n".to_vec()),
        ("cut short", long.as_bytes()[..long.len() / 2 / 2].to_vec()),
        ("operation without messages", short.replace("<wsdl:input message=\"tds:In\"/><wsdl:output message=\"tds:Out\"/>", "").into_bytes()),
    ];
    v.into_iter().map(|(what, bytes)| Text { what, code: std::str::from_utf8(&bytes).ok().and_then(good), bytes }).collect()
}
