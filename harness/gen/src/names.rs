//! C09: identifiers are valid, well-shaped, and never change the names used in XML.
use crate::ir::*;
use crate::mc::*;
use crate::model::*;
use crate::refs::*;
use crate::*;
use std::collections::BTreeSet;

/// Rust identifiers compared without regard to casing and underscores.
fn norm(s: &str) -> String {
    s.chars().filter(|c| *c != '_').flat_map(|c| c.to_lowercase()).collect()
}
fn norm_nodes(v: &[Node]) -> Vec<Node> {
    let field = |f: &Field| Field { ident: norm(&f.ident), ty: norm(&f.ty), kind: f.kind.clone() };
    let mut out: Vec<Node> = v
        .iter()
        .map(|n| match n {
            Node::Struct { name, ns, elems, attrs } => {
                let mut attrs: Vec<Field> = attrs.iter().map(field).collect();
                attrs.sort();
                Node::Struct { name: norm(name), ns: ns.clone(), elems: elems.iter().map(field).collect(), attrs }
            }
            Node::Wrapper { name, ty } => Node::Wrapper { name: norm(name), ty: norm(ty) },
            Node::Enum { name, union, ns, variants, unknown } => Node::Enum {
                name: norm(name),
                union: *union,
                ns: ns.clone(),
                variants: variants
                    .iter()
                    // the variants of a union have no name in XML
                    .map(|v| Variant { ident: norm(&v.ident), name: if *union { String::new() } else { v.name.clone() }, prefix: v.prefix.clone(), ty: v.ty.as_ref().map(|t| norm(t)) })
                    .collect(),
                unknown: unknown.as_ref().map(|t| norm(t)),
            },
            Node::Mod { name, items } => Node::Mod { name: norm(name), items: norm_nodes(items) },
            Node::Odd(s) => Node::Odd(s.clone()),
        })
        .collect();
    out.sort();
    out
}

/// Pascal case, possibly escaped by a leading underscore
fn is_type_name(s: &str) -> bool {
    let b = s.strip_prefix('_').unwrap_or(s);
    !b.is_empty() && b.chars().all(|c| c.is_alphanumeric()) && !b.starts_with(|c: char| c.is_ascii_lowercase())
}
/// snake case, possibly escaped by a leading underscore
fn is_field_name(s: &str) -> bool {
    let b = s.strip_prefix('_').unwrap_or(s);
    !b.is_empty() && b.split('_').all(|w| !w.is_empty() && w.chars().all(|c| c.is_alphanumeric() && !c.is_ascii_uppercase()))
}

struct Shape<'a> {
    types: BTreeSet<&'a str>,
    mods: BTreeSet<&'a str>,
    uses: Vec<&'a str>,
    bad: Option<String>,
}
impl<'a> Shape<'a> {
    fn collect(&mut self, v: &'a [Node]) {
        let mut bad = |what: &str, s: &str, ok: bool| {
            if !ok && self.bad.is_none() {
                self.bad = Some(format!("{} `{}`", what, s));
            }
        };
        for n in v {
            match n {
                Node::Struct { name, elems, attrs, .. } => {
                    bad("type name", name, is_type_name(name));
                    self.types.insert(name);
                    for f in elems.iter().chain(attrs) {
                        bad("field name", &f.ident, is_field_name(&f.ident));
                        self.uses.push(&f.ty);
                    }
                }
                Node::Wrapper { name, ty } => {
                    bad("type name", name, is_type_name(name));
                    self.types.insert(name);
                    self.uses.push(ty);
                }
                Node::Enum { name, variants, .. } => {
                    bad("type name", name, is_type_name(name));
                    self.types.insert(name);
                    for v in variants {
                        bad("variant name", &v.ident, is_type_name(&v.ident));
                        self.uses.extend(v.ty.as_deref());
                    }
                }
                Node::Mod { name, .. } => {
                    bad("module name", name, is_field_name(name));
                    self.mods.insert(name);
                }
                Node::Odd(s) => bad("unexpected", s, false),
            }
        }
        for n in v {
            if let Node::Mod { items, .. } = n {
                self.collect(items);
            }
        }
    }
    /// A use that means a declared name must be spelled exactly like the declaration.
    fn unresolved(&self) -> Option<String> {
        for u in &self.uses {
            let core = u.rsplit('<').next().unwrap().trim_end_matches('>');
            if BUILTIN.iter().any(|b| b.1 == core) {
                continue;
            }
            let segs: Vec<&str> = core.split("::").collect();
            for (i, s) in segs.iter().enumerate() {
                let set = if i + 1 == segs.len() { &self.types } else { &self.mods };
                if !set.contains(s) && set.iter().any(|t| norm(t) == norm(s)) {
                    return Some(format!("{} in {}", s, u));
                }
            }
            if segs.len() > 1 && self.mods.contains(segs[0]) {
                continue;
            }
        }
        None
    }
}

pub const NAME_POSITIONS: usize = 24;
pub fn named(p: usize, n: &str) -> Option<Vec<Item>> {
    let hold = |v: Vec<Elem>| Item::Complex(complex("Holder", seq(v)));
    let cx = |c: Content| Box::new(complex("", c));
    let holder = |attrs: Vec<AttrItem>| Item::Complex(Complex { name: "Holder".into(), doc: None, content: Content::None, attrs });
    let val = || seq(vec![elem("value", xs("int"))]);
    let el = |n: &str, ty: ElemTy| Elem { name: n.into(), ty, min: None, max: None, doc: None };
    Some(match p {
        0 => vec![Item::Complex(complex(n, val())), hold(vec![elem("value", tn(n))])],
        1 => vec![Item::Simple(wrapper(n, xs("int"))), holder(vec![AttrItem::Attr { name: "code".into(), ty: Some(tn(n)), us: Use::Required, doc: None }])],
        2 => vec![Item::Simple(enumeration(n, &["One", "Two"])), Item::Simple(simple("Kind", SimpleDef::List(tn(n))))],
        3 => vec![hold(vec![elem(n, xs("int"))])],
        4 => vec![holder(vec![attr(n, xs("int"))])],
        5 => vec![Item::Complex(complex("Holder", Content::Choice(vec![elem(n, xs("int")), elem("otherwise", xs("string"))])))],
        6 => vec![
            Item::Element(GElem { name: n.into(), doc: None, ty: ElemTy::Complex(cx(val())) }),
            hold(vec![Elem { name: n.into(), ty: ElemTy::Ref(tn(n)), min: Some("0"), max: None, doc: None }]),
        ],
        7 => vec![hold(vec![el(n, ElemTy::Complex(cx(val())))])],
        8 => vec![hold(vec![el(n, ElemTy::Simple(Box::new(enumeration("", &["One", "Two"]))))])],
        9 => vec![
            Item::Simple(simple(n, SimpleDef::Union(vec![xs("int")], vec![simple("", SimpleDef::List(xs("int")))]))),
            Item::Simple(simple("Kind", SimpleDef::Union(vec![tn(n), xs("int")], vec![]))),
        ],
        10 => vec![hold(vec![elem("value", other(n)), Elem { name: n.into(), ty: ElemTy::Ref(other(n)), min: None, max: None, doc: None }])],
        11 => vec![holder(vec![AttrItem::Ref { to: other(n), us: Use::Default }])],
        12 => vec![
            Item::Complex(complex(n, Content::Choice(vec![elem("value", xs("int"))]))),
            Item::Complex(complex("Holder", Content::Derived { restriction: false, base: tn(n), content: Box::new(val()), attrs: vec![] })),
        ],
        13 => vec![
            Item::Attribute(GAttr { name: n.into(), doc: None, ty: GAttrTy::Simple(wrapper("", xs("int"))) }),
            holder(vec![AttrItem::Ref { to: tn(n), us: Use::Required }]),
        ],
        14 => vec![Item::Element(GElem { name: n.into(), doc: None, ty: ElemTy::Untyped })],
        15 => vec![
            Item::AttrGroup(AttrGroup { name: n.into(), attrs: vec![attr("code", xs("int"))], doc: None }),
            holder(vec![AttrItem::Group(tn(n))]),
        ],
        16 => {
            if !is_plain_word(n) {
                return None;
            }
            vec![Item::Simple(enumeration("Kind", &[n, "Otherwise"]))]
        }
        17 => vec![Item::Complex(complex(n, Content::Seq(vec![Particle::Choice(vec![elem("value", xs("int"))]), Particle::Elem(elem("next", xs("int")))]))), hold(vec![elem("value", tn(n))])],
        18 => vec![hold(vec![el("outer", ElemTy::Complex(cx(seq(vec![el(n, ElemTy::Complex(cx(val())))]))))])],
        19 => vec![Item::Simple(simple(n, SimpleDef::ListOf(Box::new(enumeration("", &["One", "Two"]))))), hold(vec![elem("value", tn(n))])],
        20 => vec![Item::Complex(complex("Holder", Content::Choice(vec![Elem { name: n.into(), ty: ElemTy::Ref(tn(n)), min: None, max: None, doc: None }, elem("otherwise", xs("int"))])))],
        21 => vec![Item::Complex(complex(n, seq(vec![el("inner", ElemTy::Complex(cx(val()))), elem("self-made", tn(n))])))],
        22 => vec![Item::Complex(complex("Holder", Content::SimpleExt { base: tn(n), attrs: vec![attr(n, tn(n))] }))],
        23 => vec![Item::Complex(complex("Holder", Content::Choice(vec![anon(n, ElemTy::Untyped), elem("otherwise", tn("Holder"))])))],
        _ => return None,
    })
}

fn check(s: &Schema) -> Result<Obs, Viol> {
    let xsd = render(s);
    let src = generate(&xsd).map_err(|p| viol("generation-fails", xsd.clone(), "generated code", p))?;
    let got = extract(&src).map_err(|e| viol("invalid-rust", xsd.clone(), "valid Rust", format!("{}\n{}", e, src)))?;
    let want = Model::new(s).predict();
    if let Some((w, g)) = diff(&norm_nodes(&want), &norm_nodes(&got)) {
        return Err(viol("differs", xsd, w, format!("{}\nSOURCE:\n{}", g, src)));
    }
    let mut sh = Shape { types: BTreeSet::new(), mods: BTreeSet::new(), uses: vec![], bad: None };
    sh.collect(&got);
    if let Some(b) = sh.bad {
        return Err(viol("shape", xsd, "Pascal-case types and snake-case fields", format!("{}\nSOURCE:\n{}", b, src)));
    }
    if let Some(u) = sh.unresolved() {
        return Err(viol("inconsistent", xsd, "references spelled like the declaration", format!("{}\nSOURCE:\n{}", u, src)));
    }
    ok(1, "well named")
}

pub const KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref",
    "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do",
    "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield", "union", "auto", "default", "String", "Vec", "Option", "bool", "i32", "f64", "str",
];

pub fn c09(ctx: &Ctx) {
    let n = if ctx.thorough() { 7 } else { 5 };
    let sets: &[(&str, &[char])] = &[("ascii", &['a', 'B', '1', '.', '-', '_']), ("wide", &['a', 'é', 'Ж', '中', '٣', '-', '_'])];
    for (w, alpha) in sets {
        let n = if *w == "ascii" { n } else { n - 1 };
        ctx.bound(format!("{} names: all XML names of up to {} characters over {:?} with a letter or digit x {} naming positions", w, n, alpha, NAME_POSITIONS));
        ctx.explore(
            &format!("{} names", w),
            0,
            |c| {
                let p = c.choose(NAME_POSITIONS);
                let len = 1 + c.choose(n);
                let s: String = (0..len).map(|_| *c.pick(alpha)).collect();
                let first = s.chars().next().unwrap();
                let starts = first.is_alphabetic() || first == '_' || p == 16;
                if !starts || !s.chars().any(|c| c.is_alphanumeric()) {
                    return None;
                }
                Some(schema(named(p, &s)?))
            },
            |s| hash64(render(s).as_str()),
            |s| render(s),
            check,
        );
    }
    let deco: &[(&str, &str)] = &[("", ""), ("_", ""), ("", "_"), ("", "-"), ("", "."), ("", "1"), ("x-", ""), ("", "-x"), ("_-", ""), ("", "Type"), ("1", "")];
    ctx.bound(format!("keywords: {} reserved and prelude words x 4 casings x {} decorations x {} naming positions x 2 bindings of XML Schema", KEYWORDS.len(), deco.len(), NAME_POSITIONS));
    ctx.explore(
        "keywords",
        0,
        |c| {
            let k = *c.pick(KEYWORDS);
            let k = match c.choose(4) {
                0 => k.to_string(),
                1 => k.to_uppercase(),
                2 => k[..1].to_uppercase() + &k[1..],
                _ => k.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
            };
            let d = c.pick(deco);
            let s = format!("{}{}{}", d.0, k, d.1);
            let p = c.choose(NAME_POSITIONS);
            if s.starts_with(|c: char| c.is_ascii_digit()) && p != 16 {
                return None;
            }
            let mut m = schema(named(p, &s)?);
            if c.flag() {
                m.style.xsd = None;
            }
            Some(m)
        },
        |s| hash64(render(s).as_str()),
        |s| render(s),
        check,
    );
    ctx.bound(format!("long names: 8 patterns, every length up to 70 and some up to 300, x {} naming positions", NAME_POSITIONS));
    ctx.explore(
        "long names",
        0,
        |c| {
            let n = match c.choose(76) {
                n @ 0..=69 => n + 1,
                n => [99, 127, 128, 255, 256, 300][n - 70],
            };
            let s = match c.choose(8) {
                0 => "a".repeat(n),
                1 => "aB".repeat(n),
                2 => "a-".repeat(n) + "b",
                3 => "_".repeat(n) + "x",
                4 => format!("x{}y", ".".repeat(n)),
                5 => format!("a{}", "1".repeat(n)),
                6 => "A".repeat(n) + "b",
                _ => format!("q{}", "_-".repeat(n)) + "z",
            };
            Some(schema(named(c.choose(NAME_POSITIONS), &s)?))
        },
        |s| hash64(render(s).as_str()),
        |s| render(s),
        check,
    );
    let prefixes = ["a-b", "a.b", "_a", "a_", "é", "type", "Self", "mod", "x1", "a.1", "self", "crate", "super", "try"];
    let names = ["thing", "Type", "_1", "self", "a.b", "int"];
    ctx.bound(format!("prefixes: {} unusual prefixes of the foreign and of the target namespace x {} names x {} naming positions", prefixes.len(), names.len(), NAME_POSITIONS));
    ctx.explore(
        "prefixes",
        0,
        |c| {
            let mut m = schema(named(c.choose(NAME_POSITIONS), c.pick(&names))?);
            let p = *c.pick(&prefixes);
            if c.flag() {
                m.style.target = Some((Some(p), "http://example.com"));
            } else {
                m.style.others = vec![(p, "http://other.example.com")];
            }
            if c.flag() {
                m.style.xsd = None;
            }
            Some(m)
        },
        |s| hash64(render(s).as_str()),
        |s| render(s),
        check,
    );
}
