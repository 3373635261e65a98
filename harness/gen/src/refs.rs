//! C01 built-in types, C02 references and namespaces, C03 occurrence bounds.
use crate::mc::*;
use crate::model::*;
use crate::*;

pub fn schema(items: Vec<Item>) -> Schema {
    Schema { style: Style::default(), items }
}
pub fn seq(v: Vec<Elem>) -> Content {
    Content::Seq(v.into_iter().map(Particle::Elem).collect())
}
pub fn simple(name: &str, def: SimpleDef) -> Simple {
    Simple { name: name.into(), doc: None, def }
}
pub fn anon(name: &str, ty: ElemTy) -> Elem {
    Elem { name: name.into(), ty, min: None, max: None, doc: None }
}
pub fn facet(kind: &'static str, value: &str) -> Facet {
    Facet { kind, value: value.into(), doc: None }
}

pub const POSITIONS: usize = 24;
/// Items of a schema that names the type `r` at position `p`.
pub fn at_position(p: usize, r: Ref) -> Option<Vec<Item>> {
    let cx = |c: Content| vec![Item::Complex(complex("Holder", c))];
    let with_attrs = |c: Content, attrs: Vec<AttrItem>| vec![Item::Complex(Complex { name: "Holder".into(), doc: None, content: c, attrs })];
    let at = |us: Use| AttrItem::Attr { name: "code".into(), ty: Some(r.clone()), us, doc: None };
    let el = |min, max| Elem { name: "value".into(), ty: ElemTy::Named(r.clone()), min, max, doc: None };
    let st = |d: SimpleDef| vec![Item::Simple(simple("Kind", d))];
    Some(match p {
        0 => cx(seq(vec![el(None, None)])),
        1 => cx(seq(vec![el(Some("0"), None)])),
        2 => cx(seq(vec![el(Some("0"), Some("unbounded"))])),
        3 => cx(Content::All(vec![Particle::Elem(el(Some("0"), Some("1")))])),
        4 => cx(Content::Choice(vec![elem("first", r.clone()), elem("second", xs("string"))])),
        5 => cx(Content::Choice(vec![elem("first", xs("string")), el(None, Some("3"))])),
        6 => with_attrs(Content::None, vec![at(Use::Default)]),
        7 => with_attrs(seq(vec![elem("x", xs("string"))]), vec![at(Use::Required)]),
        8 => with_attrs(Content::SimpleExt { base: xs("string"), attrs: vec![at(Use::Optional)] }, vec![]),
        9 => with_attrs(Content::SimpleExt { base: r.clone(), attrs: vec![attr("unit", xs("token"))] }, vec![]),
        10 => st(SimpleDef::List(r.clone())),
        11 => st(SimpleDef::Restr { base: r.clone(), facets: vec![] }),
        12 => st(SimpleDef::Restr { base: r.clone(), facets: vec![facet("pattern", "[a-z]")] }),
        13 => st(SimpleDef::Union(vec![r.clone()], vec![])),
        14 => st(SimpleDef::Union(vec![tn("Own"), r.clone()], vec![])),
        15 => st(SimpleDef::ListOf(Box::new(simple("", SimpleDef::Restr { base: r.clone(), facets: vec![] })))),
        16 => st(SimpleDef::Union(vec![], vec![simple("", SimpleDef::Restr { base: r.clone(), facets: vec![] }), simple("", SimpleDef::List(r.clone()))])),
        17 => cx(seq(vec![anon("inner", ElemTy::Simple(Box::new(simple("", SimpleDef::Restr { base: r.clone(), facets: vec![] }))))])),
        18 => cx(seq(vec![anon("inner", ElemTy::Complex(Box::new(complex("", seq(vec![el(None, None)])))))])),
        19 => vec![Item::Element(GElem { name: "Root".into(), doc: None, ty: ElemTy::Complex(Box::new(complex("", seq(vec![el(None, None)])))) })],
        20 => vec![
            Item::Complex(complex("Base", seq(vec![elem("x", xs("string"))]))),
            Item::Complex(complex(
                "Holder",
                Content::Derived { restriction: false, base: tn("Base"), content: Box::new(seq(vec![el(None, None)])), attrs: vec![at(Use::Default)] },
            )),
        ],
        21 => vec![
            Item::AttrGroup(AttrGroup { name: "Common".into(), attrs: vec![at(Use::Required)], doc: None }),
            Item::Complex(Complex { name: "Holder".into(), doc: None, content: Content::None, attrs: vec![AttrItem::Group(tn("Common"))] }),
        ],
        22 => cx(Content::Seq(vec![Particle::Choice(vec![elem("first", r.clone())]), Particle::Elem(el(None, None))])),
        23 => cx(Content::Derived { restriction: true, base: r.clone(), content: Box::new(Content::None), attrs: vec![at(Use::Default)] }),
        _ => return None,
    })
}

const XSD_PREFIXES: &[Option<&str>] = &[Some("xs"), Some("xsd"), None, Some("x"), Some("s.1"), Some("_w3c-schema")];

pub fn c01(ctx: &Ctx) {
    // every built-in name, and names that only look built-in, at every position
    let names: Vec<String> = BUILTIN.iter().map(|b| b.0.to_string()).collect();
    let targets: &[Option<(Option<&'static str>, &'static str)>] =
        &[Some((Some("tns"), "http://example.com")), Some((None, "http://example.com")), None, Some((Some("xs"), "http://example.com/xs")), Some((Some("xsd"), "urn:x:xsd"))];
    ctx.bound(format!("built-ins: {} names x {} positions x {} prefix bindings of XML Schema x {} target-namespace bindings", names.len(), POSITIONS, XSD_PREFIXES.len(), targets.len()));
    let base = |c: &mut Chooser| -> Option<(Schema, Ref, usize)> {
        let x = *c.pick(XSD_PREFIXES);
        let t = *c.pick(targets);
        // one binding per prefix; an unqualified name has one meaning
        match t {
            Some((p, _)) if p == x => return None,
            None if x.is_none() => return None,
            _ => {}
        }
        let kind = c.choose(3);
        let l = c.pick(&names).clone();
        let r = match kind {
            0 => xs(&l),
            1 => tn(&l),
            _ => other(&l),
        };
        let p = c.choose(POSITIONS);
        let mut s = schema(at_position(p, r.clone())?);
        s.style.xsd = x;
        s.style.target = t;
        if x == Some("xs") {
            s.style.others = vec![("xsd", "http://other.example.com")];
        } else if t.map(|t| t.0) != Some(Some("xs")) {
            s.style.others = vec![("xs", "http://www.w3.org/2001/XMLSchema/not")];
        }
        if t.map(|t| t.0) == Some(Some("xsd")) {
            s.style.others = vec![("oth", "http://other.example.com")];
        }
        Some((s, r, p))
    };
    ctx.explore(
        "names x positions x bindings",
        0,
        base,
        |(s, _, _)| hash64(render(s).as_str()),
        |(s, _, _)| render(s),
        |(s, r, p)| {
            let mut o = conform(s)?;
            o.class = match r.ns {
                Ns::Xsd => "built-in",
                Ns::Target => "own type of the same name",
                _ => "foreign type of the same name",
            };
            let _ = p;
            Ok(o)
        },
    );
    ctx.bound(format!("declarations: {} names x 9 kinds of declaration x 4 bindings of XML Schema and the target namespace, with a reference from another type", names.len()));
    ctx.explore(
        "own declarations named like built-ins",
        0,
        |c| {
            let l = c.pick(&names).clone();
            let mut items = match c.choose(9) {
                0 => vec![Item::Complex(complex(&l, seq(vec![elem("value", xs("date"))])))],
                1 => vec![Item::Complex(complex(&l, Content::Choice(vec![elem("value", xs("date")), elem("other", tn("Holder"))])))],
                2 => vec![Item::Simple(enumeration(&l, &["One", "Two"]))],
                3 => vec![Item::Simple(wrapper(&l, xs("date")))],
                4 => vec![Item::Simple(simple(&l, SimpleDef::List(xs("date"))))],
                5 => vec![Item::Simple(simple(&l, SimpleDef::Union(vec![xs("date"), tn("Holder")], vec![])))],
                6 => vec![Item::Element(GElem { name: l.clone(), doc: None, ty: ElemTy::Complex(Box::new(complex("", seq(vec![elem("value", xs("date"))])))) })],
                7 => vec![Item::Element(GElem { name: l.clone(), doc: None, ty: ElemTy::Untyped })],
                _ => vec![Item::Complex(complex("Base", seq(vec![anon(&l, ElemTy::Simple(Box::new(simple("", SimpleDef::List(xs("date"))))))])))],
            };
            items.push(Item::Complex(complex("Holder", seq(vec![elem("value", tn(&l)), elem("plain", xs(&l))]))));
            let mut s = schema(items);
            let (x, t) = [(None, Some("tns")), (Some("xs"), Some("tns")), (Some("xs"), None), (Some("tns"), Some("xs"))][c.choose(4)];
            s.style.xsd = x;
            s.style.target = Some((t, "http://example.com"));
            Some(s)
        },
        |s| hash64(render(s).as_str()),
        |s| render(s),
        conform,
    );
    // global elements and attributes with a named type are rendered as (commented) aliases
    ctx.bound("aliases: global element and global attribute of every built-in, own and foreign name");
    ctx.explore(
        "aliases",
        0,
        |c| {
            let x = *c.pick(XSD_PREFIXES);
            let kind = c.choose(3);
            let l = c.pick(&names).clone();
            let r = match kind {
                0 => xs(&l),
                1 => tn(&l),
                _ => other(&l),
            };
            let el = c.flag();
            let mut s = schema(vec![if el {
                Item::Element(GElem { name: "Root".into(), doc: None, ty: ElemTy::Named(r.clone()) })
            } else {
                Item::Attribute(GAttr { name: "Root".into(), doc: None, ty: GAttrTy::Named(r.clone()) })
            }]);
            s.style.xsd = x;
            Some((s, r))
        },
        |(s, _)| hash64(render(s).as_str()),
        |(s, _)| render(s),
        |(s, r)| {
            let src = conform_text(s, &render(s))?;
            let want = format!("pubtypeRoot={};", Model::new(s).ty(r));
            let have: Vec<String> = ir::comments(&src).into_iter().map(|c| c.1.split_whitespace().collect::<String>()).collect();
            if have.iter().any(|h| *h == want) {
                ok(1, "alias")
            } else {
                Err(viol("alias", render(s), want, format!("{:?}", have)))
            }
        },
    );
    // names and namespaces that only resemble the built-in ones
    ctx.bound(format!("near misses: {} names x 11 spellings one edit away, own and foreign, x {} positions; {} namespaces one edit away from XML Schema's, as foreign and as target namespace, x names x positions", names.len(), POSITIONS, NEAR_XSD.len()));
    let all = ctx.thorough();
    explore_schemas(ctx, "near-miss names", 0, |c| {
        let l = c.pick(&names).clone();
        let l = match c.choose(11) {
            0 => format!("{}_", l),
            1 => format!("_{}", l),
            2 => pascal_first(&l),
            3 => format!("{}s", l),
            4 => format!("x{}", l),
            5 => l[..l.len() - 1].to_string(),
            6 => format!("{}-1", l),
            7 => format!("{}.x", l),
            8 => format!("xs{}", l),
            9 => format!("xs-{}", l),
            _ => l.to_uppercase(),
        };
        let kind = c.choose(2);
        let x = *c.pick(&[Some("xs"), None]);
        let p = if all { c.choose(POSITIONS) } else { *c.pick(&[0, 2, 4, 6, 9, 10, 11, 13, 14, 15, 16, 20, 23]) };
        let mut s = schema(at_position(p, if kind == 0 { tn(&l) } else { other(&l) })?);
        s.style.xsd = x;
        Some(s)
    });
    explore_schemas(ctx, "near-miss namespaces", 0, |c| {
        let u = *c.pick(NEAR_XSD);
        let l = if all { c.pick(&names).clone() } else { c.pick(&["string", "date", "int", "NMTOKENS", "integer", "anyURI", "boolean"]).to_string() };
        let target = c.flag();
        let x = *c.pick(&[Some("xs"), None]);
        let near = *c.pick(&["xsd", "oth"]);
        let p = c.choose(POSITIONS);
        let mut s = schema(at_position(p, if target { tn(&l) } else { other(&l) })?);
        s.style.xsd = x;
        if target {
            s.style.target = Some((Some(near), u));
            s.style.others = vec![("q", "urn:q")];
        } else {
            s.style.others = vec![(near, u)];
        }
        s.style.ns_reversed = c.flag();
        Some(s)
    });
    local_prefixes(ctx, &["string", "date", "integer", "Thing"]);
    // pairs of positions in one schema
    ctx.bound("two uses of (built-in, look-alike) names in one schema, all pairs of positions");
    let few = ["string", "date", "int", "NMTOKENS", "boolean", "integer"];
    explore_schemas(ctx, "pairs of positions", 0, |c| {
        let x = *c.pick(&XSD_PREFIXES[..if ctx.thorough() { 6 } else { 3 }]);
        let k = c.choose(4);
        let l = *c.pick(&few[..if ctx.thorough() { 6 } else { 3 }]);
        let (a, b) = match k {
            0 => (xs(l), tn(l)),
            1 => (tn(l), xs(l)),
            2 => (other(l), xs(l)),
            _ => (xs(l), other(l)),
        };
        let p = c.choose(POSITIONS);
        let q = c.choose(POSITIONS);
        let mut items = at_position(p, a)?;
        for mut i in at_position(q, b)? {
            rename_item(&mut i, "Two");
            items.push(i);
        }
        let mut s = schema(items);
        s.style.xsd = x;
        Some(s)
    });
}

/// Namespace names that are not XML Schema's.
const NEAR_XSD: &[&str] = &[
    "http://www.w3.org/2001/XMLSchema/",
    "http://www.w3.org/2001/XMLSchema#",
    "http://www.w3.org/2001/XMLSchema-instance",
    "http://www.w3.org/2001/XMLSchema.xsd",
    "http://www.w3.org/2001/XMLSchem",
    "http://www.w3.org/2001/xmlschema",
    "HTTP://www.w3.org/2001/XMLSchema",
    "https://www.w3.org/2001/XMLSchema",
    "http://www.w3.org/2002/XMLSchema",
    "http://w3.org/2001/XMLSchema",
    "urn:http://www.w3.org/2001/XMLSchema",
    "XMLSchema",
];

fn pascal_first(l: &str) -> String {
    let f = &l[..1];
    let g = if f.to_uppercase() == f { f.to_lowercase() } else { f.to_uppercase() };
    g + &l[1..]
}

/// Prefixes bound (or bound anew) below the root element, and references with references to white space around them.
fn local_prefixes(ctx: &Ctx, locals: &'static [&'static str]) {
    ctx.bound(format!("prefixes bound where they are used: on every element, on the component, on the very elements that refer, shadowing those of the root, for references and for tags; white space around values; {} names x own, foreign, built-in x {} positions x 3 x 3 bindings", locals.len(), POSITIONS));
    explore_schemas(ctx, "local prefixes", 0, |c| {
        let decor = *c.pick(&[8, 12, 13, 14, 15, 16, 17, 18, 19]);
        let l = *c.pick(locals);
        let r = match c.choose(3) {
            0 if l == "Thing" => return None,
            0 => xs(l),
            1 => tn(l),
            _ => other(l),
        };
        let p = c.choose(POSITIONS);
        let mut s = schema(at_position(p, r)?);
        s.style.decor = decor;
        s.style.xsd = *c.pick(&[Some("xs"), Some("zz"), None]);
        s.style.target = *c.pick(&[Some((Some("tns"), "http://example.com")), Some((None, "http://example.com")), None]);
        match s.style.target {
            None if s.style.xsd.is_none() => return None,
            Some((None, _)) if s.style.xsd.is_none() => return None,
            _ => {}
        }
        Some(s)
    });
}

/// Give an item another name (and, for the two-item positions, the names it refers to).
pub fn rename_item(i: &mut Item, suffix: &str) {
    let fix = |r: &mut Ref| {
        if r.ns == Ns::Target && (r.local == "Base" || r.local == "Common") {
            r.local += suffix;
        }
    };
    match i {
        Item::Complex(c) => {
            c.name += suffix;
            if let Content::Derived { base, .. } = &mut c.content {
                fix(base)
            }
            for a in &mut c.attrs {
                if let AttrItem::Group(r) = a {
                    fix(r)
                }
            }
        }
        Item::Simple(s) => s.name += suffix,
        Item::Element(e) => e.name += suffix,
        Item::Attribute(e) => e.name += suffix,
        Item::AttrGroup(g) => g.name += suffix,
        _ => {}
    }
    // anonymous union members are named by position: keep only one such union per schema
    if let Item::Simple(s) = i {
        if let SimpleDef::Union(m, a) = &mut s.def {
            if !a.is_empty() {
                *m = vec![xs("string")];
                a.clear();
            }
        }
    }
}

const URIS: &[&str] = &["http://example.com", "http://www.example.org/ver10/schema", "urn:a:b", "http://www.w3.org/2001/XMLSchema/types"];

pub fn c02(ctx: &Ctx) {
    let prefixes: &[Option<&'static str>] = &[Some("tns"), None, Some("t"), Some("xml2"), Some("tt"), Some("a-b"), Some("_p.1"), Some("T"), Some("xs")];
    let others: &[&'static [(&'static str, &'static str)]] = &[
        &[("oth", "http://other.example.com"), ("q2", "urn:q2")],
        // prefixes and namespace names that extend or shorten those of the target
        &[("tns2", "http://example.com/"), ("tn", "http://example.com2")],
        &[("t1", "http://example.co"), ("s", "http://EXAMPLE.com")],
        &[("TNS", "urn:a:b:c"), ("p", "urn:a")],
        // prefixes that usually name the target namespace
        &[("tns", "http://other.example.com"), ("target", "urn:q2")],
        // namespace names one edit away
        &[("o1", "http://example.com#"), ("o2", "https://example.com")],
        &[("o1", "http://www.example.org/ver10/schema/"), ("o2", "http://www.example.org/ver10")],
        &[("o1", "urn:A:b"), ("o2", "http://www.example.org/ver10/Schema")],
    ];
    let locals = ["Thing", "Tns", "string", "tnsThing", "T"];
    ctx.bound(format!(
        "{} target prefixes (incl. default and none) x {} target URIs x {} sets of foreign prefixes x {} ways to name a type x {} local names x {} positions; declarations of namespaces in both orders",
        prefixes.len(), URIS.len(), others.len(), 3, locals.len(), POSITIONS
    ));
    let style = |c: &mut Chooser| -> Option<Style> {
        let xsd = *c.pick(&[Some("xs"), Some("xsd"), None]);
        let no_target = c.flag();
        let target = if no_target {
            if xsd.is_none() {
                return None;
            }
            None
        } else {
            let p = *c.pick(prefixes);
            if p == xsd {
                return None;
            }
            Some((p, *c.pick(URIS)))
        };
        let o = c.pick(others).to_vec();
        if o.iter().any(|x| Some(x.0) == xsd || target.map(|t| t.0 == Some(x.0) || t.1 == x.1) == Some(true)) {
            return None;
        }
        let ns_reversed = c.flag();
        Some(Style { xsd, target, others: o, ns_reversed, ..Style::default() })
    };
    explore_schemas(ctx, "one reference", 0, |c| {
        let st = style(c)?;
        let l = *c.pick(&locals);
        let r = match c.choose(3) {
            0 => tn(l),
            1 => Ref { ns: Ns::Other(0), local: l.into() },
            _ => Ref { ns: Ns::Other(1), local: l.into() },
        };
        if r.ns == Ns::Target && st.target.is_none() && st.xsd.is_none() {
            return None;
        }
        let p = c.choose(POSITIONS);
        Some(Schema { style: st, items: at_position(p, r)? })
    });
    ctx.bound("element and attribute references (ref=) to own, foreign and xml: names, in sequences, all-groups, choices, extensions and restrictions, with every style above");
    explore_schemas(ctx, "element and attribute references", 0, |c| {
        let st = style(c)?;
        let r = Ref { ns: [Ns::Target, Ns::Other(0), Ns::Other(1)][c.choose(3)].clone(), local: c.pick(&["Thing", "item", "someAttr"]).to_string() };
        let e = |min, max| Elem { name: String::new(), ty: ElemTy::Ref(r.clone()), min, max, doc: None };
        let (min, max) = *c.pick(&[(None, None), (Some("0"), None), (None, Some("unbounded"))]);
        let plain = elem("plain", xs("string"));
        let body = |c: &mut Chooser| match c.choose(3) {
            0 => Content::Seq(vec![Particle::Elem(plain.clone()), Particle::Elem(e(min, max))]),
            1 => Content::All(vec![Particle::Elem(e(min, max))]),
            _ => Content::None,
        };
        let attrs = vec![AttrItem::Ref { to: r.clone(), us: Use::Default }, attr("own", xs("string")), AttrItem::Xml { name: "lang".into(), us: Use::Default }];
        let cx = match c.choose(5) {
            0 => Complex { name: "Holder".into(), doc: None, content: body(c), attrs },
            1 => Complex { name: "Holder".into(), doc: None, content: Content::Choice(vec![plain.clone(), e(min, max)]), attrs },
            2 => Complex { name: "Holder".into(), doc: None, content: Content::Derived { restriction: false, base: other("Base"), content: Box::new(body(c)), attrs }, attrs: vec![] },
            3 => Complex { name: "Holder".into(), doc: None, content: Content::Derived { restriction: true, base: other("Base"), content: Box::new(body(c)), attrs }, attrs: vec![] },
            _ => Complex { name: "Holder".into(), doc: None, content: Content::SimpleExt { base: xs("string"), attrs }, attrs: vec![] },
        };
        Some(Schema { style: st, items: vec![Item::Complex(cx)] })
    });
    local_prefixes(ctx, &["Thing", "string"]);
    // a namespace may have several prefixes, and prefixes may be declared where they are used
    ctx.bound("target namespace and XML Schema bound to two prefixes each (default and named, two named), and prefixes declared on inner elements");
    ctx.explore(
        "aliased prefixes",
        0,
        |c| {
            let r = [xs("date"), tn("Thing"), other("Thing"), tn("date")][c.choose(4)].clone();
            let p = c.choose(POSITIONS);
            let mut s = schema(at_position(p, r)?);
            s.style.xsd = *c.pick(&[Some("xs"), None]);
            let how = c.choose(7);
            Some((s, how, c.flag()))
        },
        |x| hash64(&(render(&x.0), x.1, x.2)),
        |x| aliased(&x.0, x.1, x.2),
        |x| {
            // several prefixes name the target namespace; the generated code may settle on any one of them
            let text = aliased(&x.0, x.1, x.2);
            let mut r = conform_text(&x.0, &text);
            for p in [Some("zz"), Some("aa"), None] {
                let decl = match p {
                    Some(p) => format!("xmlns:{}=\"http://example.com\"", p),
                    None => "xmlns=\"http://example.com\"".into(),
                };
                if r.is_err() && text.contains(&decl) {
                    let mut s = x.0.clone();
                    s.style.target = Some((p, "http://example.com"));
                    if let Ok(v) = conform_text(&s, &text) {
                        r = Ok(v);
                    }
                }
            }
            r.map(|_| Obs { runs: 1, class: "as predicted" })
        },
    );
}

/// The text of a schema in which some qualified names are spelled with another prefix of the same namespace.
fn aliased(s: &Schema, how: usize, order: bool) -> String {
    let t = render(s);
    let xp = s.style.xsd.map(|p| format!("{}:", p)).unwrap_or_default();
    let add = |t: &str, decl: &str| {
        if order {
            t.replacen(" xmlns", &format!(" {} xmlns", decl), 1)
        } else {
            t.replacen(" targetNamespace", &format!(" {} targetNamespace", decl), 1)
        }
    };
    let re = |t: &str, from: &str, to: &str| -> String {
        // attribute values only
        let mut o = t.replace(&format!("=\"{}", from), &format!("=\"{}", to));
        o = o.replace(&format!(" {}", from), &format!(" {}", to)).replace(&format!(" {}lang", to), " xml:lang");
        o
    };
    match how {
        // unused second prefix for the target
        0 => add(&t, "xmlns:zz=\"http://example.com\""),
        1 => add(&t, "xmlns:aa=\"http://example.com\""),
        // second prefix for the target used in the references
        2 => re(&add(&t, "xmlns:zz=\"http://example.com\""), "tns:", "zz:"),
        // second prefix for XML Schema, unused and used
        3 => add(&t, "xmlns:zz=\"http://www.w3.org/2001/XMLSchema\""),
        4 => {
            if xp.is_empty() {
                add(&t, "xmlns:zz=\"http://www.w3.org/2001/XMLSchema\"").replace("=\"date\"", "=\"zz:date\"").replace("=\"string\"", "=\"zz:string\"")
            } else {
                re(&add(&t, "xmlns:zz=\"http://www.w3.org/2001/XMLSchema\""), "xs:", "zz:")
            }
        }
        // target also the default namespace
        5 if !xp.is_empty() => add(&t, "xmlns=\"http://example.com\""),
        6 if !xp.is_empty() => re(&add(&t, "xmlns=\"http://example.com\""), "tns:", ""),
        _ => t,
    }
}

pub fn c03(ctx: &Ctx) {
    let mins: &[Option<&str>] = &[None, Some("0"), Some("1"), Some("2"), Some("5"), Some("00"), Some("01"), Some("100000")];
    let maxs: &[Option<&str>] = &[None, Some("1"), Some("2"), Some("5"), Some("unbounded"), Some("01"), Some("002"), Some("4294967296"), Some("0"), Some("000")];
    ctx.bound(format!("{} minOccurs x {} maxOccurs (pairs with max >= min) x 9 kinds of element type x 8 contexts x neighbours", mins.len(), maxs.len()));
    let types = |k: usize| -> ElemTy {
        match k {
            0 => ElemTy::Named(xs("string")),
            1 => ElemTy::Named(tn("Part")),
            2 => ElemTy::Named(other("Part")),
            3 => ElemTy::Ref(tn("part")),
            4 => ElemTy::Ref(other("part")),
            5 => ElemTy::Complex(Box::new(complex("", seq(vec![elem("x", xs("int"))])))),
            6 => ElemTy::Simple(Box::new(wrapper("", xs("int")))),
            7 => ElemTy::Simple(Box::new(enumeration("", &["One", "Two"]))),
            _ => ElemTy::Named(xs("IDREFS")),
        }
    };
    let body = |ctxt: usize, e: Elem, before: usize| -> Option<Vec<Item>> {
        let mut ps = vec![];
        match before {
            1 => ps.push(Particle::Any { min: Some("0"), max: Some("unbounded") }),
            2 => ps.push(Particle::Elem(Elem { name: "lead".into(), ty: ElemTy::Named(xs("string")), min: Some("0"), max: Some("unbounded"), doc: None })),
            _ => {}
        }
        let anonymous = matches!(e.ty, ElemTy::Complex(_) | ElemTy::Simple(_));
        ps.push(Particle::Elem(e.clone()));
        if before == 3 {
            ps.push(Particle::Any { min: None, max: None });
        }
        let base = Item::Complex(complex("Base", seq(vec![elem("first", xs("int"))])));
        Some(match ctxt {
            0 => vec![Item::Complex(complex("Holder", Content::Seq(ps)))],
            1 => vec![Item::Complex(complex("Holder", Content::All(ps)))],
            2 => {
                if before != 0 || anonymous {
                    return None;
                }
                vec![Item::Complex(complex("Holder", Content::Choice(vec![e])))]
            }
            3 => {
                if before != 0 || anonymous {
                    return None;
                }
                vec![Item::Complex(complex("Holder", Content::Seq(vec![Particle::Choice(vec![elem("other", xs("int")), e])])))]
            }
            4 => vec![base, Item::Complex(complex("Holder", Content::Derived { restriction: false, base: tn("Base"), content: Box::new(Content::Seq(ps)), attrs: vec![] }))],
            5 => vec![base, Item::Complex(complex("Holder", Content::Derived { restriction: true, base: tn("Base"), content: Box::new(Content::All(ps)), attrs: vec![] }))],
            6 => vec![Item::Element(GElem { name: "Root".into(), doc: None, ty: ElemTy::Complex(Box::new(complex("", Content::Seq(ps)))) })],
            _ => vec![Item::Complex(complex("Holder", seq(vec![anon("inner", ElemTy::Complex(Box::new(complex("", Content::Seq(ps)))))])))],
        })
    };
    explore_schemas(ctx, "bounds x types x contexts", 0, |c| {
        let (min, max) = (*c.pick(mins), *c.pick(maxs));
        cardinality(min, max)?;
        let ty = types(c.choose(9));
        let e = Elem { name: "part".into(), ty, min, max, doc: None };
        let ctxt = c.choose(8);
        let before = c.choose(4);
        Some(schema(body(ctxt, e, before)?))
    });
    // names must not matter: enclosing type, element and type names that contain or end in each other
    let names = ["Item", "item", "SubItem", "ItemSub", "Items", "I", "Itemitem", "Kind", "ItemType"];
    ctx.bound(format!("{} enclosing names x {} element names x {} type names x own/foreign/referenced x 4 bounds x 9 contexts", names.len(), names.len(), names.len()));
    explore_schemas(ctx, "names do not matter", 0, |c| {
        let encl = *c.pick(&names);
        let el = *c.pick(&names);
        let ty = *c.pick(&names);
        let r = match c.choose(4) {
            0 => ElemTy::Named(tn(ty)),
            1 => ElemTy::Named(other(ty)),
            2 => ElemTy::Ref(tn(ty)),
            _ => ElemTy::Ref(other(ty)),
        };
        let (min, max) = *c.pick(&[(None, None), (Some("0"), None), (Some("0"), Some("1")), (None, Some("unbounded"))]);
        let e = Elem { name: el.into(), ty: r, min, max, doc: None };
        let k = c.choose(9);
        Some(schema(match k {
            0 => vec![Item::Complex(complex(encl, seq(vec![e])))],
            1 => vec![Item::Complex(complex(encl, Content::All(vec![Particle::Elem(e)])))],
            2 => {
                // which type "directly encloses" an element of an extension is the extending one
                let mut v = vec![Item::Complex(complex(encl, Content::Derived { restriction: false, base: other("Base"), content: Box::new(seq(vec![e])), attrs: vec![] }))];
                v.push(Item::Complex(complex("Unrelated", Content::None)));
                v
            }
            3 => {
                vec![Item::Complex(complex("Holder", seq(vec![anon(encl, ElemTy::Complex(Box::new(complex("", seq(vec![e])))))])))]
            }
            4 => vec![Item::Complex(complex(encl, Content::Choice(vec![e])))],
            5 => vec![Item::Complex(complex(encl, Content::Seq(vec![Particle::Choice(vec![elem("x", xs("int")), e])])))],
            6 => vec![Item::Complex(complex("Holder", Content::All(vec![Particle::Elem(anon(encl, ElemTy::Complex(Box::new(complex("", Content::All(vec![Particle::Elem(e)]))))))])))],
            7 => {
                let nested = anon(encl, ElemTy::Complex(Box::new(complex("", Content::Derived { restriction: false, base: other("Base"), content: Box::new(seq(vec![e])), attrs: vec![] }))));
                vec![Item::Element(GElem { name: "Holder".into(), doc: None, ty: ElemTy::Complex(Box::new(complex("", Content::Derived { restriction: true, base: other("Base"), content: Box::new(seq(vec![nested])), attrs: vec![] }))) })]
            }
            _ => {
                vec![Item::Element(GElem { name: encl.into(), doc: None, ty: ElemTy::Complex(Box::new(complex("", seq(vec![e])))) })]
            }
        }))
    });
    // several elements: the bounds of one do not affect another
    ctx.bound("sequences of up to 3 (thorough: 4) elements, each with one of 6 bounds");
    let bs: &[(Option<&'static str>, Option<&'static str>)] = &[(None, None), (Some("0"), None), (Some("0"), Some("1")), (Some("0"), Some("unbounded")), (Some("1"), Some("1")), (Some("2"), Some("2"))];
    explore_schemas(ctx, "several elements", 0, |c| {
        let n = 2 + c.choose(if ctx.thorough() { 3 } else { 2 });
        let mut v = vec![];
        for i in 0..n {
            let (min, max) = *c.pick(bs);
            let ty = if c.flag() { ElemTy::Named(xs("int")) } else { ElemTy::Named(tn("Holder")) };
            v.push(Elem { name: ["a", "b", "cc", "d"][i].into(), ty, min, max, doc: None });
        }
        Some(schema(vec![Item::Complex(complex("Holder", seq(v)))]))
    });
}
