//! Features of the schema language in combination: one schema grammar, all schemas with at most a
//! given number of deviations from a plain one.  The same schemas serve several properties; each
//! judges its own aspect of the result.
use crate::ir::*;
use crate::mc::*;
use crate::model::*;
use crate::refs::*;
use crate::*;

const OCCURS: &[(Option<&str>, Option<&str>)] = &[
    (None, None),
    (Some("0"), None),
    (None, Some("unbounded")),
    (Some("0"), Some("unbounded")),
    (Some("0"), Some("1")),
    (Some("1"), Some("1")),
    (Some("2"), Some("300")),
    (None, Some("2")),
];
const NAMES: &[&[&str]] = &[
    &["value", "Value-Item", "type", "baseFirst", "part", "holder", "x.2.y", "HTTPUrl"],
    &["second", "SecondType", "loop", "baseAttr", "Base", "value_2", "basefirst"],
    &["third", "valueType", "_under", "HolderType"],
];

fn target_ok(st: &Style) -> bool {
    !(st.xsd.is_none() && st.target.is_none_or(|t| t.0.is_none()))
}

fn style(c: &mut Chooser) -> Option<Style> {
    let mut st = Style::default();
    match c.dev(41) {
        0 => {}
        n @ 1..=5 => st.noise = n,
        6 => st.attr_order = 1,
        7 => st.ns_reversed = true,
        8 => st.quote = '\'',
        9 => st.xsd = None,
        10 => st.xsd = Some("xsd"),
        11 => st.xsd = Some("tns-x"),
        12 => st.target = Some((None, "http://example.com")),
        13 => st.target = None,
        14 => st.target = Some((Some("xsd"), "urn:a:b")),
        15 => st.target = Some((Some("t-n.s"), "http://example.com/a?b=c&d")),
        16 => st.others = vec![("o-th.er", "http://other.example.com")],
        17 => st.others = vec![("oth", "http://other.example.com"), ("third", "http://third.example.com")],
        18 => st.root_extra = " elementFormDefault=\"qualified\" attributeFormDefault=\"unqualified\"",
        19 => st.prolog = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- head -->\n",
        20 => st.prolog = "\u{feff}",
        n @ 22.. => st.decor = n - 21,
        _ => st.root_extra = " version=\"1.0\" xml:lang=\"en\"",
    }
    Some(st).filter(target_ok)
}

fn named(c: &mut Chooser) -> Ref {
    match c.dev(13) {
        0 => xs("int"),
        1 => xs("string"),
        2 => tn("Part"),
        3 => other("Part"),
        4 => tn("Base"),
        5 => tn("Holder"),
        6 => xs("dateTime"),
        7 => xs("NMTOKENS"),
        8 => xs("boolean"),
        9 => other("int"),
        10 => tn("Far"),
        11 => xs("integer"),
        _ => other("holder-type"),
    }
}

fn simple_def(c: &mut Chooser) -> SimpleDef {
    match c.dev(10) {
        0 => SimpleDef::Restr { base: xs("string"), facets: ["On", "off", "N-A", "2nd"].iter().map(|v| facet("enumeration", v)).collect() },
        1 => SimpleDef::Restr { base: xs("int"), facets: vec![facet("minInclusive", "3"), facet("maxInclusive", "7")] },
        2 => SimpleDef::List(xs("decimal")),
        3 => SimpleDef::List(tn("Part")),
        4 => SimpleDef::Union(vec![xs("int"), tn("Part")], vec![]),
        5 => SimpleDef::Union(vec![xs("int")], vec![enumeration("", &["Max", "Min"]), wrapper("", xs("date"))]),
        6 => SimpleDef::ListOf(Box::new(enumeration("", &["Up", "Down"]))),
        7 => SimpleDef::Restr { base: tn("Part"), facets: vec![facet("maxLength", "9")] },
        8 => SimpleDef::Restr { base: xs("string"), facets: vec![facet("enumeration", "no good"), facet("enumeration", "ok")] },
        _ => SimpleDef::ListOf(Box::new(wrapper("", xs("short")))),
    }
}

fn choice_of(c: &mut Chooser) -> Vec<Elem> {
    let n = [2, 1, 3][c.dev(3)];
    (0..n)
        .map(|i| {
            let name = ["one", "Two", "three"][i];
            let ty = match c.dev(4) {
                0 => ElemTy::Named(named(c)),
                1 => ElemTy::Ref(tn("Glob")),
                2 => ElemTy::Ref(other("there")),
                _ => ElemTy::Untyped,
            };
            let (min, max) = if matches!(ty, ElemTy::Untyped) { (None, None) } else { *c.dev_pick(&OCCURS[..4]) };
            Elem { name: name.into(), ty, min, max, doc: if c.dev(2) == 1 { Some("alternative".into()) } else { None } }
        })
        .collect()
}

struct Room {
    choice: bool,
}

fn particle(c: &mut Chooser, i: usize, depth: usize, all: bool, room: &mut Room) -> Option<Particle> {
    let name = c.dev_pick(NAMES[i]).to_string();
    let ty = match c.dev(8) {
        0 => ElemTy::Named(named(c)),
        1 => ElemTy::Ref(tn("Glob")),
        2 => ElemTy::Ref(other("there")),
        3 if depth > 0 => ElemTy::Complex(Box::new(body(c, depth - 1)?)),
        4 => ElemTy::Simple(Box::new(simple("", simple_def(c)))),
        5 if !all && !room.choice => {
            room.choice = true;
            return Some(Particle::Choice(choice_of(c)));
        }
        6 if !all => return Some(Particle::Any { min: Some("0"), max: if c.dev(2) == 1 { Some("unbounded") } else { None } }),
        7 => ElemTy::Ref(tn("Linked")),
        _ => return None,
    };
    let (min, max) = *c.dev_pick(OCCURS);
    let doc = [None, Some("what it is\n  in two lines".to_string())][c.dev(2)].clone();
    Some(Particle::Elem(Elem { name, ty, min, max, doc }))
}

fn particles(c: &mut Chooser, depth: usize, all: bool, room: &mut Room) -> Option<Vec<Particle>> {
    let n = [1, 0, 2, 3][c.dev(4)];
    (0..n).map(|i| particle(c, i, depth, all, room)).collect()
}

fn attributes(c: &mut Chooser) -> Vec<AttrItem> {
    let n = c.dev(4);
    (0..n)
        .map(|i| {
            let name = [&["id", "value", "Type-Of", "grouPed"], &["code", "baseAttr", "ref", "baseattr"], &["rank", "first", "x", "innerMost"]][i][c.dev(4)].to_string();
            let us = [Use::Default, Use::Required, Use::Optional, Use::Prohibited][c.dev(4)];
            match c.dev(8) {
                0 => AttrItem::Attr { name, ty: Some(xs("int")), us, doc: None },
                1 => AttrItem::Attr { name, ty: Some(tn("Part")), us, doc: Some("attribute".into()) },
                2 => AttrItem::Attr { name, ty: None, us, doc: None },
                3 => AttrItem::Ref { to: other(&name), us },
                4 => AttrItem::Xml { name: "lang".into(), us },
                5 => AttrItem::Group(tn("Group")),
                6 => AttrItem::Group(other("Group")),
                _ => AttrItem::Any,
            }
        })
        .collect()
}

/// The body of a complex type.
fn body(c: &mut Chooser, depth: usize) -> Option<Complex> {
    let mut room = Room { choice: false };
    let doc = [None, Some("a type".to_string())][c.dev(2)].clone();
    let (content, own) = match c.dev(11) {
        0 => (Content::Seq(particles(c, depth, false, &mut room)?), true),
        1 => (Content::All(particles(c, depth, true, &mut room)?), true),
        2 => (Content::Choice(choice_of(c)), true),
        3 => (Content::None, true),
        4 => (Content::SimpleExt { base: [xs("string"), tn("Part"), xs("decimal"), other("Part")][c.dev(4)].clone(), attrs: attributes(c) }, false),
        n => {
            let base = [tn("Base"), other("Base"), tn("Far"), tn("Mid")][c.dev(4)].clone();
            let content = match n {
                5 | 6 => Content::Seq(particles(c, depth, false, &mut room)?),
                7 => Content::All(particles(c, depth, true, &mut room)?),
                8 => Content::Choice(choice_of(c)),
                _ => Content::None,
            };
            (Content::Derived { restriction: n == 6 || n == 9, base, content: Box::new(content), attrs: attributes(c) }, false)
        }
    };
    Some(Complex { name: String::new(), doc, content, attrs: if own { attributes(c) } else { vec![] } })
}

/// Other declarations that may stand around.
fn extra(c: &mut Chooser, i: usize) -> Option<Vec<Item>> {
    Some(match i {
        1 => vec![Item::Annotation("about\nthe schema".into())],
        2 => vec![Item::Import { namespace: "http://other.example.com".into(), location: "other.xsd".into(), include: false }],
        3 => vec![Item::Import { namespace: String::new(), location: "more.xsd".into(), include: true }],
        4 => vec![Item::Simple(simple("Extra", simple_def(c)))],
        5 => vec![Item::Element(GElem { name: "extra".into(), doc: None, ty: ElemTy::Named(named(c)) })],
        6 => vec![Item::Element(GElem { name: "extra".into(), doc: None, ty: ElemTy::Simple(Box::new(simple("", simple_def(c)))) })],
        7 => vec![Item::Element(GElem { name: "value".into(), doc: None, ty: ElemTy::Complex(Box::new(body(c, 0)?)) })],
        8 => vec![Item::Attribute(GAttr { name: "extra".into(), doc: None, ty: GAttrTy::Named(named(c)) })],
        9 => vec![Item::Attribute(GAttr { name: "extra".into(), doc: None, ty: GAttrTy::Simple(simple("", simple_def(c))) })],
        10 => vec![Item::Complex(Complex { name: "Heir".into(), ..complex("", Content::Derived { restriction: false, base: tn("Holder"), content: Box::new(Content::Seq(vec![Particle::Elem(elem("own", xs("int")))])), attrs: attributes(c) }) })],
        11 => vec![Item::Complex(complex("Heir", Content::Derived { restriction: true, base: tn("Holder"), content: Box::new(Content::None), attrs: vec![] }))],
        12 => vec![Item::Complex(complex("value", seq(vec![elem("part", tn("Part")), elem("holder", tn("Holder"))])))],
        13 => vec![Item::Complex(complex("Foreign", Content::Derived { restriction: false, base: other("Holder"), content: Box::new(Content::None), attrs: vec![attr("a", xs("int"))] }))],
        14 => vec![Item::AttrGroup(AttrGroup { name: "Later".into(), attrs: vec![AttrItem::Group(tn("Group")), attr("late", xs("int"))], doc: None })],
        15 => vec![Item::Import { namespace: "http://other.example.com".into(), location: "more.xsd\npub struct Ghost;\r//".into(), include: false }],
        _ => vec![Item::Complex(Complex { attrs: vec![AttrItem::Group(tn("Group")), attr("more", xs("int"))], ..complex("User", seq(vec![elem("user", tn("Holder"))])) })],
    })
}
const EXTRAS: usize = 17;

/// One schema; None where the combination is outside the properties.
pub fn construct(c: &mut Chooser) -> Option<Schema> {
    let st = style(c)?;
    construct_in(c, st)
}

fn construct_in(c: &mut Chooser, st: Style) -> Option<Schema> {
    let place = c.dev(5);
    let name = c.dev_pick(&["Holder", "HolderChoice", "HolderType", "ChoiceOfHolder", "Choice", "HolderTypeType", "tnsHolder"]).to_string();
    let h = body(c, 2)?;
    let doc = if place > 1 && c.dev(2) == 1 { Some("inside".to_string()) } else { None };
    let wrap_in = |h: Complex, n: &str| seq(vec![Elem { doc, ..anon(n, ElemTy::Complex(Box::new(h))) }]);
    let holder = match place {
        0 => Item::Complex(Complex { name, ..h }),
        1 => Item::Element(GElem { name, doc: None, ty: ElemTy::Complex(Box::new(h)) }),
        2 => Item::Complex(complex(&name, wrap_in(h, "inner"))),
        3 => Item::Element(GElem { name: "holder".into(), doc: None, ty: ElemTy::Complex(Box::new(complex("", wrap_in(h, "inner")))) }),
        _ => Item::Complex(Complex { name: "holder-type.v2".into(), ..h }),
    };
    // the declarations the holder may refer to
    let mut base = complex("Base", seq(vec![elem("baseFirst", xs("int")), elem("baseSecond", tn("Part"))]));
    base.attrs = vec![attr("baseAttr", xs("int"))];
    match c.dev(7) {
        0 => {}
        1 => base.content = Content::Seq(vec![Particle::Elem(anon("value", ElemTy::Complex(Box::new(complex("", seq(vec![elem("deep", xs("int"))]))))))]),
        2 => base.content = Content::Choice(vec![elem("left", xs("int")), elem("right", tn("Part"))]),
        3 => base.content = Content::All(vec![Particle::Elem(Elem { min: Some("0"), ..elem("baseFirst", xs("string")) })]),
        4 => base.attrs = vec![AttrItem::Group(tn("Group")), AttrItem::Attr { name: "id".into(), ty: None, us: Use::Required, doc: None }],
        5 => base.content = Content::Seq(vec![Particle::Elem(anon("value", ElemTy::Simple(Box::new(enumeration("", &["A", "B"])))))]),
        _ => base = complex("Base", Content::SimpleExt { base: xs("string"), attrs: vec![attr("baseAttr", xs("int"))] }),
    }
    let mut group = vec![attr("grouped", xs("int"))];
    match c.dev(5) {
        0 => {}
        1 => group.push(attr("id", xs("string"))),
        2 => group.insert(0, AttrItem::Attr { name: "grouped2".into(), ty: Some(tn("Part")), us: Use::Required, doc: None }),
        3 => group.push(AttrItem::Xml { name: "space".into(), us: Use::Required }),
        _ => group.push(AttrItem::Group(tn("Inner"))),
    }
    let mid = |n: &str, b: &str| Item::Complex(complex(n, Content::Derived { restriction: false, base: tn(b), content: Box::new(seq(vec![elem(&n.to_lowercase(), xs("date"))])), attrs: vec![attr("midAttr", xs("int"))] }));
    let support = vec![
        Item::Simple(wrapper("Part", xs("string"))),
        Item::Complex(base),
        mid("Mid", "Base"),
        mid("Far", "Mid"),
        Item::AttrGroup(AttrGroup { name: "Group".into(), attrs: group, doc: None }),
        Item::AttrGroup(AttrGroup { name: "Inner".into(), attrs: vec![attr("innermost", xs("int"))], doc: None }),
        Item::Element(GElem { name: "Glob".into(), doc: None, ty: ElemTy::Complex(Box::new(complex("", seq(vec![elem("text", xs("string"))])))) }),
        Item::Element(GElem { name: "Linked".into(), doc: None, ty: ElemTy::Named(tn("Part")) }),
    ];
    let mut items = match c.dev(4) {
        0 => vec![holder].into_iter().chain(support).collect(),
        1 => support.into_iter().chain([holder]).collect::<Vec<_>>(),
        2 => support.into_iter().rev().chain([holder]).collect(),
        _ => {
            let mut v = support;
            v.insert(2, holder);
            v
        }
    };
    let more = c.dev(EXTRAS);
    if more > 0 {
        let e = extra(c, more)?;
        let at = [items.len(), 0, 3][c.dev(3)];
        for x in e {
            items.insert(at, x);
        }
    }
    let s = Schema { style: st, items };
    if distinct(&Model::new(&s).predict()) && single_choice(&s) {
        Some(s)
    } else {
        None
    }
}

/// No two declarations of a module, and no two members of a type, get the same Rust name: schemas
/// where they would are outside the properties.
fn distinct(nodes: &[Node]) -> bool {
    let (mut types, mut mods) = (vec![], vec![]);
    for n in nodes {
        match n {
            Node::Mod { name, items } => {
                if mods.contains(&name) || !distinct(items) {
                    return false;
                }
                mods.push(name);
            }
            Node::Odd(_) => return false,
            n => {
                let name = n.name().to_string();
                if types.contains(&name) {
                    return false;
                }
                types.push(name);
            }
        }
        let mut idents: Vec<&str> = match n {
            Node::Struct { elems, attrs, .. } => elems.iter().chain(attrs).map(|f| f.ident.as_str()).collect(),
            Node::Enum { variants, .. } => variants.iter().map(|v| v.ident.as_str()).collect(),
            _ => vec![],
        };
        let n = idents.len();
        idents.sort();
        idents.dedup();
        if idents.len() != n {
            return false;
        }
    }
    true
}

/// At most one choice per type, inherited ones included.
fn single_choice(s: &Schema) -> bool {
    fn ok(nodes: &[Node]) -> bool {
        nodes.iter().all(|n| match n {
            Node::Struct { elems, .. } => elems.iter().filter(|f| f.kind == Kind::Flatten).count() < 2,
            Node::Mod { items, .. } => ok(items),
            _ => true,
        })
    }
    ok(&Model::new(s).predict())
}

/// Without the underscore that keeps an identifier off the keywords (another property).
fn plain(mut nodes: Vec<Node>) -> Vec<Node> {
    let cut = |s: &mut String| *s = s.trim_start_matches('_').to_string();
    let modules = |s: &mut String| {
        let parts: Vec<&str> = s.split("::").collect();
        let last = parts.len() - 1;
        let parts: Vec<String> = parts
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let (w, id) = p.rsplit_once('<').map(|(w, id)| (format!("{}<", w), id)).unwrap_or((String::new(), p));
                w + if i < last { id.trim_start_matches('_') } else { id }
            })
            .collect();
        *s = parts.join("::");
    };
    for n in nodes.iter_mut() {
        match n {
            Node::Mod { items, name } => {
                cut(name);
                *items = plain(std::mem::take(items));
            }
            Node::Struct { elems, attrs, .. } => elems.iter_mut().chain(attrs).for_each(|f| {
                cut(&mut f.ident);
                modules(&mut f.ty);
            }),
            Node::Enum { variants, .. } => variants.iter_mut().for_each(|v| {
                cut(&mut v.ident);
                v.ty.iter_mut().for_each(modules);
            }),
            Node::Wrapper { ty, .. } => modules(ty),
            _ => {}
        }
    }
    nodes
}

fn peel(ty: &str) -> (&str, &str) {
    for w in ["Option<", "Vec<"] {
        if let Some(t) = ty.strip_prefix(w) {
            return (&w[..w.len() - 1], t.strip_suffix('>').unwrap_or(t));
        }
    }
    ("", ty)
}
fn builtin(ty: &str) -> bool {
    let mut t = ty;
    while let ("Option" | "Vec", i) = peel(t) {
        t = i;
    }
    BUILTIN.iter().any(|b| b.1 == t)
}

/// What a property looks at.
fn aspect(prop: &str, nodes: &[Node], path: &str, out: &mut Vec<String>) {
    for n in nodes {
        let me = format!("{}{}", path, n.name());
        let ty = |t: &str| -> String {
            match (prop, builtin(t)) {
                ("C01", true) | ("C02", false) => t.into(),
                _ => "*".into(),
            }
        };
        match n {
            Node::Odd(s) => out.push(format!("{} unexpected: {}", path, s)),
            Node::Mod { name, items } => {
                if prop == "C11" {
                    out.push(format!("module {}", me));
                }
                aspect(prop, items, &format!("{}{}::", path, name), out);
            }
            Node::Struct { ns, elems, attrs, .. } => {
                if prop == "C02" {
                    out.push(format!("{} {:?}", me, ns));
                }
                if matches!(prop, "C11" | "C06") {
                    out.push(format!("struct {}", me));
                }
                for (i, f) in elems.iter().enumerate() {
                    let (name, prefix) = match &f.kind {
                        Kind::Elem { name, prefix } => (name.clone(), prefix.clone()),
                        k => (format!("{:?}", k), None),
                    };
                    let (card, inner) = peel(&f.ty);
                    match prop {
                        "C01" => out.push(format!("{} {} {}", me, name, ty(inner))),
                        "C02" => out.push(format!("{} {} {:?} {}", me, name, prefix, ty(inner))),
                        "C03" => out.push(format!("{} {} {} {}", me, i, name, if f.kind == Kind::Flatten { "" } else { card })),
                        "C05" if f.kind == Kind::Flatten => out.push(format!("{} {} {:?}", me, i, f)),
                        "C05" => out.push(format!("{} {} {}", me, i, name)),
                        "C06" => out.push(format!("{} {} {} {} {}", me, i, f.ident, name, f.ty)),
                        "C11" if inner.contains("::") => out.push(format!("{} {} {}", me, name, inner)),
                        _ => {}
                    }
                }
                for f in attrs {
                    match prop {
                        "C01" | "C02" => out.push(format!("{} {:?} {}", me, f.kind, ty(peel(&f.ty).1))),
                        "C04" => out.push(format!("{} {:?}", me, f)),
                        "C05" => out.push(format!("{} @{}", me, f.ident)),
                        "C06" => out.push(format!("{} {:?} {}", me, f.kind, f.ty)),
                        _ => {}
                    }
                }
            }
            Node::Wrapper { ty: t, .. } => match prop {
                "C01" | "C02" => out.push(format!("{} {}", me, ty(t))),
                "C07" => out.push(format!("wrapper {} {}", me, t)),
                "C11" => out.push(format!("wrapper {}", me)),
                _ => {}
            },
            Node::Enum { union, ns, variants, unknown, .. } => {
                let choice = !union && (variants.iter().any(|v| v.ty.is_some()) || me.ends_with("Choice"));
                match prop {
                    "C01" | "C02" => {
                        for v in variants {
                            let t = v.ty.as_deref().map(|t| peel(t).1).unwrap_or("");
                            out.push(format!("{} {} {:?} {}", me, v.name, if prop == "C02" { v.prefix.clone() } else { None }, ty(t)));
                        }
                        if prop == "C02" {
                            out.push(format!("{} {:?}", me, ns));
                        } else {
                            out.push(format!("{} {:?}", me, unknown));
                        }
                    }
                    "C03" if choice => {
                        for v in variants {
                            out.push(format!("{} {} {:?}", me, v.name, v.ty.as_deref().map(|t| peel(t).0)));
                        }
                    }
                    "C05" if choice => out.push(format!("{:?}", n)),
                    "C07" if !choice => out.push(format!("{} {:?}", path, n)),
                    "C11" => out.push(format!("enum {}", me)),
                    _ => {}
                }
            }
        }
    }
}

pub fn explore(ctx: &Ctx) {
    let prop = ctx.prop.clone();
    let budget = if ctx.thorough() { 4 } else { 3 };
    ctx.bound(format!("features in combination: every schema with up to {} deviations from a plain one (markup style and prefixes, markup that says nothing about the types (ids, defaults, foreign attributes, annotations for machines everywhere, identity constraints, white space and character references in values), place, content model, members of every kind up to 3, names, occurrences, documentation, attributes, inheritance, order of declarations, other declarations around; anonymous types to depth 3), judged on this property's aspect of the result", budget));
    ctx.explore(
        "features in combination",
        budget,
        construct,
        |s| hash64(render(s).as_str()),
        |s| render(s),
        |s| judge(&prop, s),
    );
}

/// Rich schemas and everything near them.
pub fn near_rich(ctx: &Ctx) {
    let prop = ctx.prop.clone();
    let (centres, budget) = if ctx.thorough() { (1500, 2) } else { (1000, 1) };
    ctx.bound(format!("rich schemas: every schema with up to {} deviations from each of {} fixed schemas of the same grammar that combine many of its features (about half of the decisions differ from the plain schema)", budget, centres));
    ctx.explore(
        "near rich schemas",
        budget,
        |c| {
            let k = c.choose(centres);
            c.centre(k);
            // the style is varied around the plain schema above
            let st = if k % 4 == 0 { style(c)? } else { Style::default() };
            construct_in(c, st)
        },
        |s| hash64(render(s).as_str()),
        |s| render(s),
        |s| judge(&prop, s),
    );
}

/// The first rich schemas themselves.
pub fn rich(n: usize) -> Vec<Schema> {
    (0..n)
        .filter_map(|k| {
            let mut c = Chooser::new(&[], 0);
            c.centre(k);
            construct_in(&mut c, Style::default())
        })
        .collect()
}

/// What a name in a schema is for.
#[derive(Clone, Copy, PartialEq)]
enum Naming {
    Plain,
    /// something whose content becomes part of another declaration
    Content,
}
/// The schema with other names: the same ones for the same ones.
fn renamed(s: &Schema, f: &mut dyn FnMut(&str, Naming) -> String) -> Schema {
    const PLAIN: Naming = Naming::Plain;
    type F<'a> = &'a mut dyn FnMut(&str, Naming) -> String;
    fn reference(r: &mut Ref, k: Naming, f: F) {
        if r.ns != Ns::Xsd {
            r.local = f(&r.local, if r.ns == Ns::Target { k } else { PLAIN });
        }
    }
    fn simple(s: &mut Simple, f: F) {
        if !s.name.is_empty() {
            s.name = f(&s.name, PLAIN);
        }
        match &mut s.def {
            SimpleDef::Restr { base, facets } => {
                reference(base, PLAIN, f);
                let words = facets.iter().all(|x| x.kind != "enumeration" || x.value.chars().all(|c| c.is_alphanumeric() || c == '-'));
                for x in facets.iter_mut().filter(|x| x.kind == "enumeration" && words) {
                    x.value = f(&x.value, PLAIN);
                }
            }
            SimpleDef::List(r) => reference(r, PLAIN, f),
            SimpleDef::ListOf(s) => simple(s, f),
            SimpleDef::Union(m, a) => {
                m.iter_mut().for_each(|r| reference(r, PLAIN, f));
                a.iter_mut().for_each(|s| simple(s, f));
            }
        }
    }
    fn attrs(v: &mut [AttrItem], f: F) {
        for a in v {
            match a {
                AttrItem::Attr { name, ty, .. } => {
                    *name = f(name, PLAIN);
                    if let Some(t) = ty {
                        reference(t, PLAIN, f);
                    }
                }
                AttrItem::Ref { to, .. } => reference(to, PLAIN, f),
                AttrItem::Group(r) => reference(r, Naming::Content, f),
                _ => {}
            }
        }
    }
    fn elem_ty(t: &mut ElemTy, f: F) {
        match t {
            ElemTy::Named(r) | ElemTy::Ref(r) => reference(r, PLAIN, f),
            ElemTy::Complex(c) => complex(c, f),
            ElemTy::Simple(s) => simple(s, f),
            ElemTy::Untyped => {}
        }
    }
    fn elem(e: &mut Elem, f: F) {
        if !matches!(e.ty, ElemTy::Ref(_)) {
            e.name = f(&e.name, PLAIN);
        }
        elem_ty(&mut e.ty, f);
    }
    fn content(c: &mut Content, f: F) {
        match c {
            Content::None => {}
            Content::Seq(v) | Content::All(v) => {
                for p in v {
                    match p {
                        Particle::Elem(e) => elem(e, f),
                        Particle::Choice(v) => v.iter_mut().for_each(|e| elem(e, f)),
                        Particle::Any { .. } => {}
                    }
                }
            }
            Content::Choice(v) => v.iter_mut().for_each(|e| elem(e, f)),
            Content::SimpleExt { base, attrs: a } => {
                reference(base, PLAIN, f);
                attrs(a, f);
            }
            Content::Derived { base, content: c, attrs: a, .. } => {
                reference(base, Naming::Content, f);
                content(c, f);
                attrs(a, f);
            }
        }
    }
    fn complex(c: &mut Complex, f: F) {
        if !c.name.is_empty() {
            c.name = f(&c.name, PLAIN);
        }
        content(&mut c.content, f);
        attrs(&mut c.attrs, f);
    }
    let mut s = s.clone();
    for i in s.items.iter_mut() {
        match i {
            Item::Complex(c) => complex(c, f),
            Item::Simple(x) => simple(x, f),
            Item::Element(e) => {
                e.name = f(&e.name, PLAIN);
                elem_ty(&mut e.ty, f);
            }
            Item::Attribute(a) => {
                a.name = f(&a.name, PLAIN);
                match &mut a.ty {
                    GAttrTy::Named(r) => reference(r, PLAIN, f),
                    GAttrTy::Simple(s) => simple(s, f),
                }
            }
            Item::AttrGroup(g) => {
                g.name = f(&g.name, PLAIN);
                attrs(&mut g.attrs, f);
            }
            _ => {}
        }
    }
    s
}
/// Names which resemble one another, or resemble words with a meaning elsewhere.
const TONGUES: &[&str] = &["letter case only", "each the beginning of the next", "each the end of the next", "numbers", "long with different ends", "long with different beginnings", "XML Schema's element names", "XML Schema's attribute names and values", "built-in types", "single letters", "letters of other scripts", "words of Rust"];
fn word(tongue: usize, i: usize) -> String {
    const TAGS: &[&str] = &["element", "sequence", "choice", "attribute", "schema", "complexType", "annotation", "documentation", "restriction", "extension", "simpleType", "list", "union", "all", "group", "attributeGroup", "any", "anyAttribute", "import", "include", "key", "unique", "enumeration", "pattern", "length", "complexContent", "simpleContent", "notation", "redefine", "field", "selector", "appinfo", "keyref", "maxLength"];
    const ATTRS: &[&str] = &["name", "ref", "use", "base", "minOccurs", "maxOccurs", "targetNamespace", "value", "memberTypes", "itemType", "id", "default", "fixed", "form", "mixed", "abstract", "namespace", "schemaLocation", "required", "optional", "prohibited", "unbounded", "substitutionGroup", "nillable", "final", "block", "xpath", "lang", "space", "xmlns", "prefix", "qualified", "unqualified", "processContents"];
    const TYPES: &[&str] = &["int", "string", "boolean", "date", "time", "dateTime", "decimal", "float", "double", "integer", "long", "short", "byte", "anyURI", "QName", "token", "language", "ID", "IDREF", "NMTOKEN", "NMTOKENS", "duration", "gYear", "gMonth", "gDay", "hexBinary", "base64Binary", "anyType", "anySimpleType", "unsignedInt", "unsignedLong", "NCName", "normalizedString", "positiveInteger"];
    const OTHERS: &[&str] = &["été", "école", "größe", "straße", "имя", "тип", "ñandú", "ąę", "øre", "ζήτα", "ключ", "élan", "über", "łan", "çok", "ünal", "данные", "поле", "ёлка", "ætt", "œuf", "ðan", "þing", "ûnn", "žena", "čas", "řeka", "šum", "đak", "ğar", "ıssız", "ôter", "ïle", "àge"];
    const RUST: &[&str] = &["type", "struct", "impl", "match", "fn", "enum", "mod", "pub", "ref", "mut", "loop", "move", "where", "trait", "static", "const", "let", "box", "async", "yield", "dyn", "crate", "super", "extern", "unsafe", "virtual", "macro", "final", "typeof", "priv", "become", "override", "return", "while"];
    let pick = |w: &[&str]| if i < w.len() { w[i].to_string() } else { format!("{}{}", w[i % w.len()], (b'A' + (i / w.len()) as u8) as char) };
    match tongue {
        0 => {
            // capitals at two places of the same letters
            let (mut a, mut b, mut k) = (2, 4, i);
            while k > 0 {
                b += 1;
                if b > 14 {
                    a += 1;
                    b = a + 2;
                }
                k -= 1;
            }
            "abcdefghijklmnopq".chars().enumerate().map(|(j, c)| if j == a || j == b { c.to_ascii_uppercase() } else { c }).collect()
        }
        1 => format!("n{}", "Ame".repeat(i)),
        2 => format!("{}Me", "na".repeat(i)),
        3 => format!("item{}", [1, 10, 100, 2, 20, 11, 12, 21, 111, 112][i % 10] + 1000 * (i / 10)),
        4 => format!("{}{}", "veryLongName".repeat(12), nth("X", i)),
        5 => format!("{}{}", nth("x", i), "VeryLongName".repeat(12)),
        6 => pick(TAGS),
        7 => pick(ATTRS),
        8 => pick(TYPES),
        9 => nth("", i)[1..].trim_start_matches('a').to_string() + if i % 26 == 0 { "a" } else { "" },
        10 => pick(OTHERS),
        _ => pick(RUST),
    }
}
/// A schema in other words; `shift` decides which names become neighbours.
fn spoken(s: &Schema, tongue: usize, shift: usize) -> Schema {
    let mut names: Vec<String> = vec![];
    renamed(s, &mut |n, _| {
        let i = names.iter().position(|x| x == n).unwrap_or_else(|| {
            names.push(n.to_string());
            names.len() - 1
        });
        word(tongue, (i + shift) % if tongue == 0 { 50 } else { 60 })
    })
}
pub fn other_words(ctx: &Ctx) {
    let prop = ctx.prop.clone();
    let (centres, shifts) = if ctx.thorough() { (1000, 12) } else { (250, 4) };
    ctx.bound(format!("other words: each of {} rich schemas with all its names replaced, in {} ways each, by names of {} kinds ({})", centres, shifts, TONGUES.len(), TONGUES.join("; ")));
    ctx.explore(
        "other words",
        0,
        |c| {
            let k = c.choose(centres);
            let (t, shift) = (c.choose(TONGUES.len()), c.choose(shifts));
            let mut r = Chooser::new(&[], 0);
            r.centre(k);
            let s = spoken(&construct_in(&mut r, Style::default())?, t, shift * 5);
            Some(s).filter(|s| distinct(&Model::new(s).predict()) && single_choice(s))
        },
        |s| hash64(render(s).as_str()),
        |s| render(s),
        |s| match prop.as_str() {
            "C12" => unmoved(s),
            "C10" => undisturbed(s),
            "C13" => repeated(s),
            _ => judge(&prop, s),
        },
    );
}

/// Properties about what makes no difference, on the same schemas.
pub fn indifferent(ctx: &Ctx) {
    let prop = ctx.prop.clone();
    let (centres, near, far) = if ctx.thorough() { (1500, 1, 3) } else { (600, 1, 2) };
    ctx.bound(format!("features in combination: every schema with up to {} deviations from a plain one or {} from each of {} rich ones (see C05), each compared with {}", far, near, centres,
        match prop.as_str() {
            "C12" => "itself in the reverse and in a rotated order of declarations, with 5 fillings between the tags, with foreign attributes, ids and annotations for machines everywhere, and without the last declaration",
            "C10" => "itself without documentation and with documentation everywhere",
            _ => "a second and third conversion",
        }));
    for (name, budget) in [("features in combination", far), ("near rich schemas", near)] {
        ctx.explore(
            name,
            budget,
            |c| {
                if name == "near rich schemas" {
                    let k = c.choose(centres);
                    c.centre(k);
                    return construct_in(c, Style::default());
                }
                construct(c)
            },
            |s| hash64(render(s).as_str()),
            |s| render(s),
            |s| match prop.as_str() {
                "C12" => unmoved(s),
                "C10" => undisturbed(s),
                _ => repeated(s),
            },
        );
    }
}

fn made(text: &str) -> Result<String, Viol> {
    generate(text).map_err(|e| viol("generation-fails", text, "generated code", e))
}

fn repeated(s: &Schema) -> Result<Obs, Viol> {
    let t = render(s);
    let a = made(&t)?;
    for _ in 0..2 {
        let b = made(&t)?;
        if a != b {
            return Err(viol("second-run-differs", t, a, b));
        }
    }
    ok(3, "same code again")
}

fn unmoved(s: &Schema) -> Result<Obs, Viol> {
    let t = render(s);
    let a = made(&t)?;
    let squash = crate::local::squash;
    let mut runs = 1;
    // other markup
    let style = |st: Style| render(&Schema { style: st, items: s.items.clone() });
    let mut styles: Vec<Style> = (1..=5).filter(|n| *n != s.style.noise).map(|n| Style { noise: n, ..s.style.clone() }).collect();
    if s.style.decor == 0 {
        styles.extend([5, 6, 7, 9].iter().filter(|d| **d != 5 || !s.style.others.is_empty()).map(|d| Style { decor: *d, ..s.style.clone() }));
    }
    styles.push(Style { attr_order: 1 - s.style.attr_order, ..s.style.clone() });
    for st in styles {
        let u = style(st);
        let b = made(&u)?;
        runs += 1;
        if squash(&a) != squash(&b) {
            return Err(viol("markup-changes-code", u, a, b));
        }
    }
    // other orders
    let nodes = |src: &str, t: &str| extract(src).map_err(|e| viol("invalid-rust", t, "valid Rust", format!("{}\n{}", e, src)));
    let mut want = nodes(&a, &t)?;
    want.sort();
    let (mut rev, mut rot) = (s.clone(), s.clone());
    rev.items.reverse();
    rot.items.rotate_left(s.items.len() / 2);
    for o in [&rev, &rot] {
        let u = render(o);
        let b = made(&u)?;
        runs += 1;
        let mut have = nodes(&b, &u)?;
        have.sort();
        if want != have {
            return Err(viol("order-changes-code", u, a, b));
        }
    }
    // without one declaration nothing else depends on
    let mut used = vec![];
    renamed(s, &mut |n, k| {
        if k == Naming::Content {
            used.push(n.to_string());
        }
        n.to_string()
    });
    for i in 0..s.items.len() {
        let free = match &s.items[i] {
            Item::Complex(c) => !used.contains(&c.name),
            Item::AttrGroup(g) => !used.contains(&g.name),
            _ => true,
        };
        if !free {
            continue;
        }
        let mut less = s.clone();
        less.items.remove(i);
        let u = render(&less);
        let b = made(&u)?;
        runs += 1;
        for n in nodes(&b, &u)? {
            if !want.contains(&n) {
                return Err(viol("removal-changes-code", u, format!("{:?} as in {}", n, a), b));
            }
        }
    }
    ok(runs, "not moved")
}

fn undisturbed(s: &Schema) -> Result<Obs, Viol> {
    let code = |t: &str| -> Result<(String, String), Viol> {
        let src = made(t)?;
        Ok((crate::ir::tokens_of(&src).map_err(|e| viol("invalid-rust", t, "valid Rust", format!("{}\n{}", e, src)))?, src))
    };
    let t = render(s);
    let (want, _) = code(&t)?;
    let bare = render(&crate::docs::redocumented(s.clone(), &mut |d| *d = None));
    let (have, src) = code(&bare)?;
    if want != have {
        return Err(viol("code-changed", bare, want, src));
    }
    let mut n = 0;
    let full = render(&crate::docs::redocumented(s.clone(), &mut |d| {
        n += 1;
        *d = Some(format!("remark w{}a w{}b\n and w{}c", n, n, n));
    }));
    let (have, src) = code(&full)?;
    if want != have {
        return Err(viol("code-changed", full, want, src));
    }
    let words = crate::docs::words_of(&comments(&src));
    for k in 1..=n {
        let w = ["remark".to_string(), format!("w{}a", k), format!("w{}b", k), "and".into(), format!("w{}c", k)];
        if !words.windows(5).any(|x| x == w) {
            return Err(viol("words-lost", full, format!("remark {}", k), src));
        }
    }
    ok(3, "same code, all words")
}

/// A distinct name for each number.
fn nth(stem: &str, i: usize) -> String {
    let l = |x: usize| (b'a' + (x % 26) as u8) as char;
    format!("{}{}{}{}", stem, l(i / 676), l(i / 26), l(i))
}

const FAMILIES: &[&str] = &[
    "elements",
    "elements of an all-group",
    "alternatives",
    "attributes",
    "attribute groups side by side",
    "attribute groups in a chain",
    "enumeration values",
    "union members",
    "anonymous union members",
    "derivation steps",
    "restriction steps",
    "nested anonymous types",
    "anonymous siblings",
    "types before",
    "types between",
    "elements around",
    "length of names",
    "length of a prefix",
    "length of the target namespace",
    "namespaces declared",
    "lower bound",
    "upper bound",
    "length of enumeration values",
    "members and attributes of a base",
    "wildcards before",
    "choice after elements",
    "facets",
    "documentation lines",
];

/// The schema of a family with the given size.
fn sized(family: usize, n: usize, upper: bool) -> Option<Schema> {
    let stem = if upper { "Member" } else { "member" };
    let name = |i: usize| nth(stem, i);
    let tys = [xs("int"), tn("Part"), other("Part"), xs("string")];
    let el = |i: usize| elem(&name(i), tys[i % 4].clone());
    let at = |i: usize| AttrItem::Attr { name: name(i), ty: Some(tys[i % 4].clone()), us: [Use::Default, Use::Required][i % 2], doc: None };
    let part = || Item::Simple(wrapper("Part", xs("string")));
    let holder = |c: Content| Item::Complex(complex("Holder", c));
    let words: Vec<String> = (0..n).map(name).collect();
    let mut st = Style::default();
    let word: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let items = match family {
        0 => vec![holder(seq((0..n).map(el).collect())), part()],
        1 => vec![holder(Content::All((0..n).map(|i| Particle::Elem(Elem { min: Some("0"), ..el(i) })).collect())), part()],
        2 => vec![holder(Content::Choice((0..n.max(1)).map(el).collect())), part()],
        3 => vec![Item::Complex(Complex { attrs: (0..n).map(at).collect(), ..complex("Holder", seq(vec![elem("value", xs("int"))])) }), part()],
        4 => {
            let g = |i: usize| Item::AttrGroup(AttrGroup { name: nth("group", i), attrs: vec![at(i)], doc: None });
            let h = Item::Complex(Complex { attrs: (0..n).map(|i| AttrItem::Group(tn(&nth("group", i)))).collect(), ..complex("Holder", Content::None) });
            (0..n / 2).map(g).chain([h, part()]).chain((n / 2..n).map(g)).collect()
        }
        5 => {
            let g = |i: usize| Item::AttrGroup(AttrGroup { name: nth("group", i), attrs: if i + 1 < n { vec![at(i), AttrItem::Group(tn(&nth("group", i + 1)))] } else { vec![at(i)] }, doc: None });
            let h = Item::Complex(Complex { attrs: vec![AttrItem::Group(tn(&nth("group", 0)))], ..complex("Holder", Content::None) });
            let v = (0..n).map(g).chain([h, part()]);
            if upper {
                v.rev().collect()
            } else {
                v.collect()
            }
        }
        6 => vec![Item::Simple(enumeration("Holder", &words.iter().map(|w| w.as_str()).collect::<Vec<_>>())), part()],
        7 => (0..n).map(|i| Item::Simple(wrapper(&name(i), xs("int")))).chain([Item::Simple(simple("Holder", SimpleDef::Union((0..n.max(1)).map(|i| if n == 0 { xs("int") } else { tn(&name(i)) }).collect(), vec![])))]).collect(),
        8 => vec![Item::Simple(simple("Holder", SimpleDef::Union(vec![xs("int")], (0..n).map(|i| if i % 2 == 0 { wrapper("", tys[i % 4].clone()) } else { enumeration("", &[&name(i)]) }).collect()))), part()],
        9 | 10 => {
            let step = |i: usize| {
                let own = Content::Seq(vec![Particle::Elem(el(i))]);
                let attrs = vec![AttrItem::Attr { name: nth("attr", i), ty: None, us: Use::Default, doc: None }];
                Item::Complex(if i == 0 {
                    Complex { attrs, ..complex(&nth("Step", 0), own) }
                } else {
                    complex(&nth("Step", i), Content::Derived { restriction: family == 10, base: tn(&nth("Step", i - 1)), content: Box::new(own), attrs })
                })
            };
            let v = (0..n).map(step).chain([part()]);
            if upper {
                v.rev().collect()
            } else {
                v.collect()
            }
        }
        11 => {
            if n > 40 {
                return None;
            }
            let mut c = complex("", seq(vec![elem("value", xs("int"))]));
            for i in 0..n {
                c = complex("", seq(vec![el(2 * i), anon(&nth("level", i), ElemTy::Complex(Box::new(c)))]));
            }
            vec![Item::Complex(Complex { name: "Holder".into(), ..c }), part()]
        }
        12 => vec![
            holder(seq((0..n)
                .map(|i| {
                    anon(
                        &name(i),
                        match i % 3 {
                            0 => ElemTy::Complex(Box::new(complex("", seq(vec![el(i)])))),
                            1 => ElemTy::Simple(Box::new(enumeration("", &["On", "Off"]))),
                            _ => ElemTy::Simple(Box::new(simple("", SimpleDef::List(tn("Part"))))),
                        },
                    )
                })
                .collect())),
            part(),
        ],
        13 => (0..n).map(|i| Item::Complex(complex(&name(i), seq(vec![elem("value", tn("Holder"))])))).chain([holder(seq(vec![elem("value", xs("int"))]))]).collect(),
        14 => {
            let heir = Item::Complex(complex("Heir", Content::Derived { restriction: false, base: tn("Holder"), content: Box::new(Content::None), attrs: vec![AttrItem::Group(tn("Group"))] }));
            let group = Item::AttrGroup(AttrGroup { name: "Group".into(), attrs: vec![attr("grouped", xs("int"))], doc: None });
            [heir].into_iter().chain((0..n).map(|i| Item::Simple(wrapper(&name(i), xs("int"))))).chain([holder(seq(vec![elem("value", xs("int"))])), group]).collect()
        }
        15 => (0..n).map(|i| Item::Element(GElem { name: name(i), doc: None, ty: if i % 2 == 0 { ElemTy::Named(tn("Holder")) } else { ElemTy::Complex(Box::new(complex("", seq(vec![Elem { name: String::new(), ty: ElemTy::Ref(tn(&name(i - 1))), min: None, max: None, doc: None }])))) } })).chain([holder(seq(vec![elem("value", xs("int"))]))]).collect(),
        16 => {
            let w = |p: &str| if upper { format!("{}{}", p.to_uppercase(), word) } else { format!("{}{}", p, word) };
            vec![
                Item::Complex(Complex { attrs: vec![attr(&w("q"), xs("int"))], ..complex(&w("t"), seq(vec![elem(&w("e"), tn(&w("s"))), anon(&w("n"), ElemTy::Complex(Box::new(complex("", Content::None))))])) }),
                Item::Simple(wrapper(&w("s"), xs("string"))),
                Item::Complex(complex(&w("c"), Content::Choice(vec![elem(&w("a"), tn(&w("t")))]))),
            ]
        }
        17 | 18 | 19 => {
            let long: &'static str = Box::leak(word.clone().into_boxed_str());
            match family {
                17 if n > 0 && upper => st.target = Some((Some(long), "http://example.com")),
                17 if n > 0 => st.others = vec![(long, "http://other.example.com")],
                18 => st.target = Some((Some("tns"), Box::leak(format!("http://{}/", word).into_boxed_str()))),
                19 => st.others.extend((0..n).map(|i| (&*Box::leak(nth("p", i).into_boxed_str()), &*Box::leak(nth("urn:", i).into_boxed_str())))),
                _ => {}
            }
            if st.xsd == Some(long) || long == "oth" && upper || long == "tns" {
                return None;
            }
            vec![Item::Complex(Complex { attrs: vec![AttrItem::Ref { to: other("there"), us: Use::Default }], ..complex("Holder", seq(vec![elem("value", tn("Part")), elem("far", other("Part")), Elem { name: String::new(), ty: ElemTy::Ref(other("thing")), min: None, max: None, doc: None }])) }), part()]
        }
        20 | 21 => {
            let b: &'static str = Box::leak(n.to_string().into_boxed_str());
            let big: &'static str = Box::leak((n * if upper { 1_000_003 } else { 1 }).to_string().into_boxed_str());
            let (min, max) = match (family, upper) {
                (20, false) => (Some(b), Some("unbounded")),
                (20, true) => (Some(big), Some(big)),
                (_, false) => (None, Some(b)),
                (_, true) => (Some("0"), Some(big)),
            };
            cardinality(min, max)?;
            vec![holder(seq(vec![Elem { min, max, ..elem("value", xs("int")) }, Elem { name: String::new(), ty: ElemTy::Ref(tn("Part")), min, max, doc: None }])), Item::Complex(complex("Pick", Content::Choice(vec![Elem { min, max, ..elem("value", xs("int")) }])))]
        }
        22 => {
            if n == 0 {
                return None;
            }
            let w = if upper { word.to_uppercase() } else { word.clone() };
            vec![Item::Simple(enumeration("Holder", &[&w, "other-value"])), Item::Complex(complex("User", seq(vec![anon("inner", ElemTy::Simple(Box::new(enumeration("", &["first", &format!("x{}", w)]))))])))]
        }
        23 => vec![
            Item::Complex(complex("Heir", Content::Derived { restriction: upper, base: tn("Holder"), content: Box::new(seq(vec![elem("own", xs("int")), elem(&name(n / 2), xs("date"))])), attrs: vec![attr("ownAttr", xs("int"))] })),
            Item::Complex(Complex { attrs: (0..n).map(|i| attr(&nth("attr", i), xs("int"))).collect(), ..complex("Holder", seq((0..n).map(el).collect())) }),
            part(),
        ],
        24 => vec![holder(Content::Seq((0..n).map(|_| Particle::Any { min: Some("0"), max: None }).chain([Particle::Elem(el(0)), Particle::Elem(el(1))]).collect())), part()],
        25 => vec![holder(Content::Seq((0..n).map(|i| Particle::Elem(el(i))).chain([Particle::Choice(vec![elem("left", xs("int")), elem("right", tn("Part"))])]).chain((n..n + 2).map(|i| Particle::Elem(el(i)))).collect())), part()],
        26 => vec![Item::Simple(simple("Holder", SimpleDef::Restr { base: xs("string"), facets: (0..n).map(|i| facet(["pattern", "maxLength"][i % 2], &(i + 1).to_string())).collect() })), Item::Complex(complex("User", seq(vec![elem("value", tn("Holder"))])))],
        _ => {
            let doc = Some((0..n).map(name).collect::<Vec<_>>().join("\n"));
            vec![
                Item::Complex(Complex { doc: doc.clone(), attrs: vec![AttrItem::Attr { name: "id".into(), ty: None, us: Use::Default, doc: doc.clone() }], ..complex("Holder", seq(vec![Elem { doc: doc.clone(), ..elem("value", xs("int")) }, elem("after", tn("Part"))])) }),
                part(),
                Item::Element(GElem { name: "root".into(), doc: doc.clone(), ty: ElemTy::Named(tn("Holder")) }),
                Item::Simple(Simple { name: "Last".into(), doc, def: SimpleDef::List(tn("Part")) }),
            ]
        }
    };
    Some(Schema { style: st, items })
}

pub fn sizes(ctx: &Ctx) {
    let prop = ctx.prop.clone();
    let top = if ctx.thorough() { 320 } else { 70 };
    let sizes: Vec<usize> = (0..=top).chain([100, 127, 128, 129, 130, 255, 256, 257, 260, 300]).filter(|n| *n <= 70 || *n > 70 && (ctx.thorough() || [100, 128, 129, 256, 257, 300].contains(n))).collect();
    ctx.bound(format!("sizes: {} families ({}), every size from 0 to {} and some up to 300, two variants each", FAMILIES.len(), FAMILIES.join(", "), top));
    ctx.explore(
        "sizes",
        0,
        |c| {
            let s = sized(c.choose(FAMILIES.len()), *c.pick(&sizes), c.flag())?;
            Some(s).filter(|s| distinct(&Model::new(s).predict()))
        },
        |s| hash64(render(s).as_str()),
        |s| render(s),
        |s| judge(&prop, s),
    );
}

/// Everything a type can take its members from, each source giving one member of the same type:
/// only the names tell them apart, and the names are neighbours.
fn neighbours(tongue: usize, shift: usize, present: usize, variant: usize) -> Option<Schema> {
    let range = if tongue == 0 { 100 } else { 60 };
    let name = |i: usize| word(tongue, (i + shift) % range);
    let has = |i: usize| present >> i & 1 == 1;
    let ty = if variant & 1 == 0 { xs("string") } else { tn(&name(11)) };
    let els = |i: usize| if has(i) { vec![elem(&name(i), ty.clone())] } else { vec![] };
    let ats = |i: usize| if has(i) { vec![attr(&name(i), ty.clone())] } else { vec![] };
    let restriction = variant & 2 == 2;
    let derived = |base: usize, els: Vec<Elem>, attrs| Content::Derived { restriction, base: tn(&name(base)), content: Box::new(seq(els)), attrs };
    let group = |n: usize, attrs| Item::AttrGroup(AttrGroup { name: name(n), attrs, doc: None });
    let mut own = ats(0);
    own.push(AttrItem::Group(tn(&name(9))));
    let mut inner = ats(1);
    // one group in the other, or both side by side
    if variant & 8 == 8 { &mut own } else { &mut inner }.push(AttrItem::Group(tn(&name(10))));
    let mut items = vec![
        Item::Complex(Complex { attrs: ats(4), ..complex(&name(7), seq(els(3))) }),
        Item::Complex(complex(&name(8), derived(7, vec![], ats(5)))),
        Item::Complex(complex(&name(12), derived(8, els(6), own))),
        group(9, inner),
        group(10, ats(2)),
    ];
    if variant & 1 == 1 {
        items.push(Item::Simple(wrapper(&name(11), xs("string"))));
    }
    if variant & 4 == 4 {
        items.reverse();
    }
    Some(Schema { style: Style::default(), items })
}

pub fn neighbouring(ctx: &Ctx) {
    let prop = ctx.prop.clone();
    let shifts = if ctx.thorough() { 60 } else { 5 };
    ctx.bound(format!("neighbouring names: a type derived in two steps which takes members from itself, both bases and two attribute groups, one within the other or side by side; every subset of the 7 members, all of one type, built in or defined, extended or restricted, two orders of declarations, all names of {} kinds (see other words) in {} ways each", TONGUES.len(), shifts));
    ctx.explore(
        "neighbouring names",
        0,
        |c| {
            let s = neighbours(c.choose(TONGUES.len()), c.choose(shifts) * 3, c.choose(128), c.choose(16))?;
            Some(s).filter(|s| distinct(&Model::new(s).predict()))
        },
        |s| hash64(render(s).as_str()),
        |s| render(s),
        |s| judge(&prop, s),
    );
}

/// The property's aspect of what is generated must be as predicted.
fn judge(prop: &str, s: &Schema) -> Result<Obs, Viol> {
    let xsd = render(s);
    let src = generate(&xsd).map_err(|p| viol("generation-fails", xsd.clone(), "generated code", p))?;
    let got = extract(&src).map_err(|e| viol("invalid-rust", xsd.clone(), "valid Rust", format!("{}\n{}", e, src)))?;
    let want = Model::new(s).predict();
    let (mut w, mut g) = (vec![], vec![]);
    aspect(prop, &plain(want), "", &mut w);
    aspect(prop, &plain(got), "", &mut g);
    w.sort();
    g.sort();
    if w != g {
        let (mut wo, mut go) = (w.clone(), g.clone());
        wo.retain(|x| !g.contains(x));
        go.retain(|x| !w.contains(x));
        return Err(viol("combination", xsd, wo.join("\n"), format!("{}\nSOURCE:\n{}", go.join("\n"), src)));
    }
    ok(1, "aspect as predicted")
}
