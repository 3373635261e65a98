//! C11 anonymous types.
use crate::derive::permute;
use crate::ir::*;
use crate::mc::*;
use crate::model::*;
use crate::refs::*;
use crate::*;

const NAMES: &[&str] = &["alpha", "Beta", "gammaRay", "delta_x"];

/// Content with `n` children; `kids` makes the child with the given index.
fn container(k: usize, v: Vec<Elem>, attrs: Vec<AttrItem>) -> Complex {
    let p: Vec<Particle> = v.into_iter().map(Particle::Elem).collect();
    let plain = |content| Complex { name: String::new(), doc: None, content, attrs: attrs.clone() };
    let derived = |restriction, base, content| complex("", Content::Derived { restriction, base, content: Box::new(content), attrs: attrs.clone() });
    match k {
        0 => plain(Content::Seq(p)),
        1 => plain(Content::All(p)),
        2 => derived(false, tn("Base"), Content::Seq(p)),
        3 => derived(false, other("Base"), Content::All(p)),
        4 => derived(true, tn("Base"), Content::Seq(p)),
        _ => {
            let mut p = p;
            p.insert(0, Particle::Any { min: None, max: None });
            p.push(Particle::Choice(vec![elem("left", xs("int")), elem("right", tn("Part"))]));
            plain(Content::Seq(p))
        }
    }
}

fn leaf(k: usize) -> ElemTy {
    let s = |d| ElemTy::Simple(Box::new(simple("", d)));
    match k {
        0 => ElemTy::Named(xs("int")),
        1 => s(SimpleDef::Restr { base: xs("string"), facets: vec![facet("enumeration", "On"), facet("enumeration", "Off")] }),
        2 => s(SimpleDef::List(tn("Part"))),
        3 => ElemTy::Complex(Box::new(complex("", Content::None))),
        4 => ElemTy::Complex(Box::new(complex("", Content::SimpleExt { base: xs("decimal"), attrs: vec![attr("unit", xs("string"))] }))),
        5 => ElemTy::Complex(Box::new(complex("", Content::Choice(vec![elem("one", xs("int")), elem("two", other("Part"))])))),
        6 => ElemTy::Ref(tn("Global")),
        7 => s(SimpleDef::Restr { base: xs("int"), facets: vec![facet("minInclusive", "3")] }),
        8 => ElemTy::Complex(Box::new(Complex { name: String::new(), doc: None, content: Content::None, attrs: vec![AttrItem::Group(tn("Group")), attr("own", xs("int"))] })),
        9 => s(SimpleDef::ListOf(Box::new(enumeration("", &["Up", "Down"])))),
        _ => s(SimpleDef::Union(vec![xs("int")], vec![enumeration("", &["Max"])])),
    }
}
const LEAVES: usize = 11;

/// Where the outermost type stands.
fn outer(k: usize, c: Complex) -> Vec<Item> {
    match k {
        0 => vec![Item::Complex(Complex { name: "Holder".into(), ..c })],
        1 => vec![Item::Element(GElem { name: "Holder".into(), doc: None, ty: ElemTy::Complex(Box::new(c)) })],
        2 => vec![Item::Element(GElem { name: "holder".into(), doc: None, ty: ElemTy::Complex(Box::new(c)) }), Item::Complex(complex("Other", seq(vec![elem("x", xs("int"))])))],
        _ => vec![Item::Complex(Complex { name: "Holder-Type.v2".into(), ..c })],
    }
}
/// More than one union with anonymous members in one module: their members collide, recorded as a
/// known finding of C07.
fn clash(c: &Complex) -> bool {
    let kids: Vec<&Elem> = match &c.content {
        Content::Seq(p) | Content::All(p) => p.iter().filter_map(|p| if let Particle::Elem(e) = p { Some(e) } else { None }).collect(),
        Content::Derived { content, .. } => match &**content {
            Content::Seq(p) | Content::All(p) => p.iter().filter_map(|p| if let Particle::Elem(e) = p { Some(e) } else { None }).collect(),
            _ => vec![],
        },
        _ => vec![],
    };
    kids.iter().filter(|e| matches!(&e.ty, ElemTy::Simple(s) if matches!(&s.def, SimpleDef::Union(_, a) if !a.is_empty()))).count() > 1
        || kids.iter().any(|e| matches!(&e.ty, ElemTy::Complex(c) if clash(c)))
}
fn support() -> Vec<Item> {
    vec![
        Item::Complex(Complex { name: "Base".into(), doc: None, content: seq(vec![elem("baseElem", xs("int"))]), attrs: vec![attr("baseAttr", xs("int"))] }),
        Item::AttrGroup(AttrGroup { name: "Group".into(), attrs: vec![attr("grouped", xs("int"))], doc: None }),
    ]
}

fn tree(c: &mut Chooser, depth: usize, wide: usize, level: usize) -> Complex {
    let k = c.choose(6);
    let n = 1 + c.choose(wide);
    let mut v = vec![];
    for i in 0..n {
        let ty = match if depth > 1 { c.choose(5) } else { c.choose(4) } {
            4 => ElemTy::Complex(Box::new(tree(c, depth - 1, wide, level + 1))),
            l => leaf(l),
        };
        v.push(Elem { name: NAMES[(i + level) % NAMES.len()].into(), ty, min: None, max: None, doc: None });
    }
    container(k, v, vec![])
}

/// Everything is a deviation from a plain chain of sequences.
fn chain(c: &mut Chooser, depth: usize, level: usize) -> Complex {
    let k = c.dev(6);
    let bounds = [(None, None), (Some("0"), None), (None, Some("unbounded")), (Some("0"), Some("unbounded")), (Some("0"), Some("1"))];
    let attrs = match c.dev(4) {
        0 => vec![],
        1 => vec![attr("own", xs("int"))],
        2 => vec![AttrItem::Group(tn("Group"))],
        _ => vec![AttrItem::Ref { to: other("far"), us: Use::Required }, AttrItem::Any],
    };
    let mut v = vec![];
    let before = c.dev(LEAVES + 1);
    if before > 0 {
        v.push(anon("before", leaf(before - 1)));
    }
    let name = match c.dev(4) {
        0 => NAMES[level % NAMES.len()],
        // same name at every level, or that of the outermost type
        1 => NAMES[0],
        2 => "holder",
        _ => "alphaType",
    };
    let (min, max) = *c.dev_pick(&bounds);
    let ty = if depth > 1 { ElemTy::Complex(Box::new(chain(c, depth - 1, level + 1))) } else { leaf(1 + c.dev(LEAVES - 1)) };
    v.push(Elem { name: name.into(), ty, min, max, doc: None });
    let after = c.dev(LEAVES + 2);
    if after == LEAVES + 1 {
        v.push(anon("after", ElemTy::Complex(Box::new(chain(c, 1, level + 1)))));
    } else if after > 0 {
        v.push(anon("after", leaf(after - 1)));
    }
    container(k, v, attrs)
}

pub fn c11(ctx: &Ctx) {
    let th = ctx.thorough();
    let (d, w) = (2, 2);
    ctx.bound(format!("trees of anonymous types: nesting depth up to {}, up to {} siblings, 6 kinds of content, 4 kinds of leaves, 4 places of the outermost type", d, w));
    explore_schemas(ctx, "trees", 0, |c| {
        let p = c.choose(if th { 4 } else { 2 });
        let mut items = outer(p, tree(c, d, w, 0));
        items.extend(support());
        Some(schema(items))
    });
    let (depth, dev) = if th { (5, 3) } else { (5, 2) };
    ctx.bound(format!("chains of up to {} nested anonymous types with up to {} deviations each (kind of content at any level, attributes, siblings of {} kinds before and after, cardinality, repeated and clashing-looking names)", depth, dev, LEAVES));
    explore_schemas(ctx, "chains with deviations", dev, |c| {
        let p = c.choose(4);
        let depth = 1 + c.choose(depth);
        let t = chain(c, depth, 0);
        if clash(&t) {
            return None;
        }
        let mut items = outer(p, t);
        items.extend(support());
        Some(schema(items))
    });
    ctx.bound("wide types: up to 6 siblings with anonymous types of the same or different kinds; several types with equally named anonymous members, in every order");
    explore_schemas(ctx, "siblings", 0, |c| {
        let n = 2 + c.choose(5);
        let k = c.choose(6);
        let a = c.choose(LEAVES);
        let b = c.choose(LEAVES);
        let v = (0..n).map(|i| anon(["one", "two", "three", "four", "five", "six"][i], leaf(if i % 2 == 0 { a } else { b }))).collect();
        let p = c.choose(4);
        let t = container(k, v, vec![]);
        if clash(&t) {
            return None;
        }
        let mut items = outer(p, t);
        items.extend(support());
        Some(schema(items))
    });
    explore_schemas(ctx, "several types", 0, |c| {
        let mk = |c: &mut Chooser| {
            let l = c.choose(LEAVES);
            let k = c.choose(3);
            container(k, vec![anon("inner", leaf(l)), anon("same", ElemTy::Complex(Box::new(complex("", seq(vec![anon("inner", leaf(l))])))))], vec![])
        };
        let (a, b) = (mk(c), mk(c));
        let mut items = outer(0, a);
        items.push(if c.flag() {
            Item::Complex(Complex { name: "Second".into(), ..b })
        } else {
            Item::Element(GElem { name: "Second".into(), doc: None, ty: ElemTy::Complex(Box::new(b)) })
        });
        items.extend(support());
        Some(schema(permute(c, items)))
    });
    // an anonymous type is what a named type with the same definition is
    ctx.bound("anonymous against named: 6 kinds of content x up to 3 members of all kinds, as a named type, a global element and a member of a sequence, all-group, extension");
    ctx.explore(
        "same members as a named type",
        0,
        |c| {
            let k = c.choose(6);
            let n = 1 + c.choose(if th { 3 } else { 2 });
            let v: Vec<Elem> = (0..n).map(|i| anon(NAMES[i], leaf(c.choose(LEAVES)))).collect();
            let attrs = match c.choose(3) {
                0 => vec![],
                1 => vec![attr("own", xs("int"))],
                _ => vec![AttrItem::Group(tn("Group")), AttrItem::Attr { name: "own".into(), ty: None, us: Use::Required, doc: None }],
            };
            let where_ = c.choose(4);
            let t = container(k, v, attrs);
            if clash(&t) {
                return None;
            }
            Some((t, where_))
        },
        |(x, p)| hash64(&format!("{:?}{}", x, p)),
        |(x, p)| format!("{} {}", p, render(&schema(vec![Item::Complex(Complex { name: "X".into(), ..x.clone() })]))),
        |(x, p)| {
            // the named type takes the name the anonymous one gets
            let name = "innerType";
            let mut named = vec![Item::Complex(Complex { name: name.into(), ..x.clone() })];
            named.extend(support());
            let el = anon("inner", ElemTy::Complex(Box::new(x.clone())));
            let mut un = match p {
                0 => vec![Item::Complex(complex("Outer", seq(vec![el])))],
                1 => vec![Item::Complex(complex("Outer", Content::All(vec![Particle::Elem(el)])))],
                2 => vec![Item::Complex(complex("Outer", Content::Derived { restriction: false, base: other("Q"), content: Box::new(seq(vec![el])), attrs: vec![] }))],
                _ => vec![Item::Element(GElem { name: "Outer".into(), doc: None, ty: ElemTy::Complex(Box::new(complex("", seq(vec![elem("a", xs("int")), el])))) })],
            };
            un.extend(support());
            let (tn_, ta) = (render(&schema(named)), render(&schema(un)));
            let get = |t: &str| -> Result<Vec<Node>, Viol> { extract(&generate(t).map_err(|e| viol("generation-fails", t, "code", e))?).map_err(|e| viol("invalid-rust", t, "valid Rust", e)) };
            let (gn, ga) = (get(&tn_)?, get(&ta)?);
            let inside: Vec<Node> = ga.iter().find_map(|n| match n {
                Node::Mod { name, items } if name == "outer" => Some(items.clone()),
                _ => None,
            })
            .ok_or_else(|| viol("no-module", ta.clone(), "a module outer", format!("{:?}", ga)))?;
            let shape = |v: &[Node]| -> Option<(Vec<(String, String)>, Vec<(String, String)>, Vec<Node>)> {
                let f = |x: &[Field]| x.iter().map(|f| (format!("{:?}", f.kind), f.ty.clone())).collect::<Vec<_>>();
                let (e, a) = v.iter().find_map(|n| match n {
                    Node::Struct { name, elems, attrs, .. } if name == "InnerType" => Some((f(elems), f(attrs))),
                    _ => None,
                })?;
                let m = v.iter().find_map(|n| match n {
                    Node::Mod { name, items } if name == "inner_type" => Some(items.clone()),
                    _ => None,
                });
                // the enum of a choice is named after the declaration around it
                let m = m.unwrap_or_default().into_iter().filter(|n| !matches!(n, Node::Enum { name, .. } if name.ends_with("Choice"))).collect();
                Some((e.into_iter().map(|(k, t)| (k, if t.ends_with("Choice") { "choice".into() } else { t })).collect(), a, m))
            };
            let (sn, sa) = (shape(&gn), shape(&inside));
            if sn.is_none() || sn != sa {
                return Err(viol("anonymous-differs", ta, format!("{:?}", sn), format!("{:?}", sa)));
            }
            ok(2, "same members")
        },
    );
}
