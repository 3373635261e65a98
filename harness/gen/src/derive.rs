//! C04 attributes and attribute groups, C06 derivation.
use crate::mc::*;
use crate::model::*;
use crate::refs::*;
use crate::*;

/// Content models an attribute-carrying type may have; the attributes go where XSD allows them.
const CONTENTS: usize = 17;
fn with_content(k: usize, name: &str, attrs: Vec<AttrItem>) -> Complex {
    let c = |content, attrs| Complex { name: name.into(), doc: None, content, attrs };
    let s = || seq(vec![elem("value", xs("int")), Elem { name: "more".into(), ty: ElemTy::Named(xs("string")), min: Some("0"), max: None, doc: None }]);
    let ch = || Content::Choice(vec![elem("one", xs("int")), elem("two", tn("Part"))]);
    let all = || Content::All(vec![Particle::Elem(elem("value", xs("int")))]);
    let d = |restriction, base: Ref, content: Content, attrs| c(Content::Derived { restriction, base, content: Box::new(content), attrs }, vec![]);
    match k {
        0 => c(Content::None, attrs),
        1 => c(s(), attrs),
        2 => c(all(), attrs),
        3 => c(ch(), attrs),
        4 => c(Content::SimpleExt { base: xs("string"), attrs }, vec![]),
        5 => c(Content::SimpleExt { base: tn("Part"), attrs }, vec![]),
        6 => d(false, other("Foreign"), Content::None, attrs),
        7 => d(false, other("Foreign"), s(), attrs),
        8 => d(false, tn("Base"), Content::None, attrs),
        9 => d(false, tn("Base"), s(), attrs),
        10 => d(false, tn("Base"), all(), attrs),
        11 => d(true, tn("Base"), Content::None, attrs),
        12 => d(true, tn("Base"), s(), attrs),
        13 => d(true, tn("Base"), all(), attrs),
        14 => d(false, tn("Base"), ch(), attrs),
        15 => c(Content::Seq(vec![]), attrs),
        _ => c(Content::Seq(vec![Particle::Choice(vec![elem("one", xs("int"))]), Particle::Any { min: Some("0"), max: None }]), attrs),
    }
}
fn bases() -> Vec<Item> {
    vec![
        Item::Simple(wrapper("Part", xs("string"))),
        Item::Complex(Complex { name: "Base".into(), doc: None, content: seq(vec![elem("first", xs("int"))]), attrs: vec![attr("baseAttr", xs("int"))] }),
    ]
}
/// Where a type stands: 0 named, 1 global element, 2 inside an element of a named type, 3 two levels down
fn placed(p: usize, c: Complex) -> Item {
    let anon_c = |c: Complex, n: &str| anon(n, ElemTy::Complex(Box::new(Complex { name: String::new(), ..c })));
    match p {
        0 => Item::Complex(c),
        1 => Item::Element(GElem { name: c.name.clone(), doc: None, ty: ElemTy::Complex(Box::new(Complex { name: String::new(), ..c })) }),
        2 => Item::Complex(complex("Outer", seq(vec![anon_c(c, "inner")]))),
        _ => Item::Element(GElem {
            name: "Outer".into(),
            doc: None,
            ty: ElemTy::Complex(Box::new(complex("", seq(vec![anon("mid", ElemTy::Complex(Box::new(complex("", seq(vec![anon_c(c, "inner")])))))])))),
        }),
    }
}

pub fn permute<T>(c: &mut Chooser, mut v: Vec<T>) -> Vec<T> {
    let mut out = vec![];
    while !v.is_empty() {
        let i = c.choose(v.len());
        out.push(v.remove(i));
    }
    out
}

pub fn c04(ctx: &Ctx) {
    let th = ctx.thorough();
    let uses = [Use::Default, Use::Optional, Use::Required, Use::Prohibited];
    let item = |c: &mut Chooser, i: usize| -> AttrItem {
        let name = ["first", "second", "third", "fourth"][i];
        match c.choose(10) {
            k @ 0..=3 => AttrItem::Attr { name: name.into(), ty: Some(xs("int")), us: uses[k], doc: None },
            4 => AttrItem::Attr { name: name.into(), ty: None, us: Use::Required, doc: None },
            5 => AttrItem::Attr { name: name.into(), ty: Some(tn("Part")), us: Use::Default, doc: None },
            6 => AttrItem::Ref { to: other(name), us: Use::Required },
            7 => AttrItem::Ref { to: tn(name), us: Use::Default },
            8 => AttrItem::Xml { name: name.into(), us: Use::Default },
            _ => AttrItem::Any,
        }
    };
    ctx.bound(format!("declared attributes: up to {} per type, each of 10 kinds, x {} content models x 4 places of the type", if th { 3 } else { 2 }, CONTENTS));
    explore_schemas(ctx, "declared attributes", 0, |c| {
        let k = c.choose(CONTENTS);
        let p = c.choose(4);
        let n = c.choose(if th { 4 } else { 3 });
        let mut attrs = vec![];
        for i in 0..n {
            let a = item(c, i);
            if matches!(a, AttrItem::Any) && i + 1 != n {
                return None;
            }
            attrs.push(a);
        }
        let mut items = bases();
        items.push(placed(p, with_content(k, "Holder", attrs)));
        Some(schema(items))
    });
    // groups
    let group = |c: &mut Chooser, name: &str, pre: &str, nested: Option<&str>| -> AttrGroup {
        let mut attrs: Vec<AttrItem> = vec![];
        match c.choose(4) {
            0 => attrs.push(AttrItem::Attr { name: format!("{}One", pre), ty: Some(xs("int")), us: Use::Required, doc: None }),
            1 => {
                attrs.push(attr(&format!("{}One", pre), xs("string")));
                attrs.push(AttrItem::Attr { name: format!("{}Two", pre), ty: None, us: Use::Optional, doc: None });
            }
            2 => {
                attrs.push(AttrItem::Ref { to: other(&format!("{}Ref", pre)), us: Use::Required });
                attrs.push(AttrItem::Any);
            }
            _ => {}
        }
        if let Some(n) = nested {
            attrs.insert(c.choose(2).min(attrs.len()), AttrItem::Group(tn(n)));
            if matches!(attrs.last(), Some(AttrItem::Group(_))) && attrs.iter().any(|a| matches!(a, AttrItem::Any)) {
                attrs.retain(|a| !matches!(a, AttrItem::Any));
            }
        }
        AttrGroup { name: name.into(), attrs, doc: None }
    };
    ctx.bound(format!("attribute groups: {} content models x 4 places x two groups (4 bodies each; independent, nested, or one foreign) x order of attribute and group references x all positions of the groups among the declarations", CONTENTS));
    explore_schemas(ctx, "attribute groups", 0, |c| {
        let k = c.choose(CONTENTS);
        let p = c.choose(4);
        let shape = c.choose(6);
        let own = AttrItem::Attr { name: "own".into(), ty: Some(xs("string")), us: Use::Required, doc: None };
        // group names: also the name of a type or of the carrying type (different symbol spaces)
        let n1 = if shape == 5 { "Holder" } else { "GroupOne" };
        let g1 = group(c, n1, "a", if shape == 3 { Some("GroupTwo") } else { None });
        let g2 = if matches!(shape, 2 | 3) { Some(group(c, "GroupTwo", "b", None)) } else { None };
        let refs = match shape {
            0 | 3 | 5 => vec![own, AttrItem::Group(tn(n1))],
            1 => vec![AttrItem::Group(tn(n1)), own],
            2 => vec![AttrItem::Group(tn(n1)), own, AttrItem::Group(tn("GroupTwo"))],
            // a group of another namespace that has the same local name contributes nothing known
            _ => vec![AttrItem::Group(other(n1)), own],
        };
        let holder = placed(p, with_content(k, "Holder", refs));
        let mut items = bases();
        let gs: Vec<Item> = std::iter::once(g1).chain(g2).map(Item::AttrGroup).collect();
        // positions of the groups relative to the type
        let order = c.choose(if gs.len() == 1 { 2 } else { 4 });
        match (order, gs.len()) {
            (0, _) => {
                items.extend(gs);
                items.push(holder);
            }
            (1, 1) => {
                items.push(holder);
                items.extend(gs);
            }
            (1, _) => {
                items.push(holder);
                items.extend(gs.into_iter().rev());
            }
            (2, _) => {
                let mut g = gs.into_iter();
                items.insert(0, g.next().unwrap());
                items.push(holder);
                items.extend(g);
            }
            _ => {
                let mut g = gs.into_iter().rev();
                items.insert(0, g.next().unwrap());
                items.push(holder);
                items.extend(g);
            }
        }
        Some(schema(items))
    });
    ctx.bound("groups used by several types and through derivation: chains of 3 types, each with a group reference or not, the groups nested 3 deep, in every order of the declarations");
    explore_schemas(ctx, "groups and derivation", 0, |c| {
        let g = |n: &str, a: &str, inner: Option<&str>| {
            let mut attrs = vec![attr(a, xs("int"))];
            if let Some(i) = inner {
                attrs.push(AttrItem::Group(tn(i)));
            }
            Item::AttrGroup(AttrGroup { name: n.into(), attrs, doc: None })
        };
        let deep = c.choose(3);
        let mut items = vec![g("GroupA", "alpha", (deep > 0).then_some("GroupB")), g("GroupB", "beta", (deep > 1).then_some("GroupC"))];
        if deep > 1 {
            items.push(g("GroupC", "gamma", None));
        }
        let u = |c: &mut Chooser, n: &str| -> Vec<AttrItem> {
            match c.choose(3) {
                0 => vec![],
                1 => vec![AttrItem::Group(tn("GroupA"))],
                _ => vec![attr(n, xs("string")), AttrItem::Group(tn("GroupB"))],
            }
        };
        let a0 = u(c, "zero");
        let a1 = u(c, "one");
        items.push(Item::Complex(Complex { name: "Root".into(), doc: None, content: seq(vec![elem("x", xs("int"))]), attrs: a0 }));
        let restriction = c.flag();
        let body = if c.flag() { seq(vec![elem("y", xs("int"))]) } else { Content::None };
        items.push(Item::Complex(complex("Leaf", Content::Derived { restriction, base: tn("Root"), content: Box::new(body), attrs: a1 })));
        Some(schema(permute(c, items)))
    });
}

// ---------------------------------------------------------------- C06

pub fn c06(ctx: &Ctx) {
    let th = ctx.thorough();
    let n_max = if th { 5 } else { 4 };
    ctx.bound(format!("all derivation forests of 2..{} types (each an extension or restriction of an earlier one, of a foreign type, or a root), all declaration orders; members own, shared with an ancestor, or none", n_max));
    explore_schemas(ctx, "forests x orders", 0, |c| {
        let n = 2 + c.choose(n_max - 1);
        let mut items = vec![];
        for i in 0..n {
            let name = ["Alpha", "Beta", "Gamma", "Delta", "Epsilon"][i];
            let own = ["ownA", "ownB", "ownC", "ownD", "ownE"][i];
            let ty = ["int", "string", "date", "boolean", "byte"][i];
            // which members: own element; shared element; own + shared attribute
            let m = if n <= 3 { c.choose(4) } else if n == 4 { [0, 3, 1, 3][i] } else { 3 };
            let mut es = vec![];
            let mut at = vec![];
            if m == 0 || m == 3 {
                es.push(elem(own, xs(ty)));
            }
            if m == 1 || m == 3 {
                es.push(Elem { name: "shared".into(), ty: ElemTy::Named(xs(ty)), min: None, max: None, doc: None });
            }
            if m == 2 || m == 3 {
                at.push(AttrItem::Attr { name: format!("{}Attr", own), ty: Some(xs(ty)), us: Use::Required, doc: None });
                at.push(attr("sharedAttr", xs(ty)));
            }
            let content = if es.is_empty() { Content::None } else { seq(es) };
            // 0 root, 1 foreign, 2.. earlier type
            let b = c.choose(2 + i);
            let cx = if b == 0 {
                Complex { name: name.into(), doc: None, content, attrs: at }
            } else {
                let base = if b == 1 { other(["Alpha", "Beta", "Gamma", "Delta", "Epsilon"][(i + 1) % n]) } else { tn(["Alpha", "Beta", "Gamma", "Delta"][b - 2]) };
                let restriction = if n <= 3 { c.flag() } else { i % 2 == 1 };
                complex(name, Content::Derived { restriction, base, content: Box::new(content), attrs: at })
            };
            items.push(Item::Complex(cx));
        }
        Some(schema(permute(c, items)))
    });
    ctx.bound("what a base may be and may contain: 14 kinds of base x 6 kinds of own content x 4 places of the derived type x 3 declaration orders x extension/restriction");
    explore_schemas(ctx, "kinds of bases", 0, |c| {
        let restriction = c.flag();
        let own = match c.choose(6) {
            0 => Content::None,
            1 => seq(vec![elem("mine", xs("int"))]),
            2 => Content::All(vec![Particle::Elem(elem("mine", xs("int")))]),
            3 => Content::Choice(vec![elem("mine", xs("int")), elem("yours", xs("string"))]),
            4 => Content::Seq(vec![Particle::Choice(vec![elem("mine", xs("int"))]), Particle::Elem(elem("x", xs("byte")))]),
            _ => seq(vec![anon("mine", ElemTy::Complex(Box::new(complex("", seq(vec![elem("deep", xs("int"))]))))), elem("x", xs("byte"))]),
        };
        let b = c.choose(14);
        let x = || elem("x", xs("date"));
        let mut grp = vec![];
        let base = match b {
            0 => complex("Base", seq(vec![x()])),
            1 => complex("Base", Content::All(vec![Particle::Elem(x())])),
            2 => complex("Base", Content::Choice(vec![x(), elem("z", xs("int"))])),
            3 => complex("Base", Content::Seq(vec![Particle::Elem(x()), Particle::Choice(vec![elem("z", xs("int"))]), Particle::Any { min: None, max: None }])),
            4 => complex("Base", seq(vec![anon("x", ElemTy::Complex(Box::new(complex("", seq(vec![elem("inside", xs("int"))]))))), elem("w", xs("int"))])),
            5 => complex("Base", seq(vec![anon("w", ElemTy::Simple(Box::new(enumeration("", &["Up", "Down"]))))])),
            6 => Complex { name: "Base".into(), doc: None, content: Content::None, attrs: vec![attr("code", xs("int")), AttrItem::Ref { to: other("mark"), us: Use::Required }] },
            7 => {
                grp.push(Item::AttrGroup(AttrGroup { name: "Group".into(), attrs: vec![attr("code", xs("int"))], doc: None }));
                Complex { name: "Base".into(), doc: None, content: seq(vec![x()]), attrs: vec![AttrItem::Group(tn("Group"))] }
            }
            8 => complex("Base", Content::SimpleExt { base: xs("string"), attrs: vec![attr("unit", xs("token"))] }),
            9 => {
                grp.push(Item::Complex(Complex { name: "Top".into(), doc: None, content: seq(vec![elem("top", xs("int")), x()]), attrs: vec![attr("code", xs("int"))] }));
                complex("Base", Content::Derived { restriction: false, base: tn("Top"), content: Box::new(seq(vec![x()])), attrs: vec![] })
            }
            10 => {
                grp.push(Item::Complex(complex("Top", Content::Choice(vec![elem("top", xs("int"))]))));
                complex("Base", Content::Derived { restriction: false, base: tn("Top"), content: Box::new(Content::Choice(vec![x()])), attrs: vec![] })
            }
            // the base is not in the schema although its local name is
            11 => complex("Other", seq(vec![x()])),
            // elements optional and repeated keep their cardinality, references their prefix
            12 => complex("Base", Content::Seq(vec![
                Particle::Elem(Elem { name: "few".into(), ty: ElemTy::Named(xs("int")), min: Some("0"), max: Some("unbounded"), doc: None }),
                Particle::Elem(Elem { name: String::new(), ty: ElemTy::Ref(other("Thing")), min: Some("0"), max: None, doc: None }),
            ])),
            _ => complex("Base", Content::None),
        };
        let r = if b == 11 { other("Other") } else { tn("Base") };
        let d = Complex { name: "Derived".into(), doc: None, content: Content::Derived { restriction, base: r, content: Box::new(own), attrs: vec![attr("code", xs("string"))] }, attrs: vec![] };
        let p = c.choose(4);
        let d = placed(p, d);
        let mut items = vec![Item::Complex(base), d];
        items.extend(grp);
        match c.choose(3) {
            0 => {}
            1 => items.reverse(),
            _ => items.rotate_left(1),
        }
        Some(schema(items))
    });
    ctx.bound("simple-content extension of own simple types, own complex types with simple content and built-ins, 3 levels, all orders");
    explore_schemas(ctx, "simple content chains", 0, |c| {
        let bottom = match c.choose(3) {
            0 => xs("decimal"),
            1 => tn("Plain"),
            _ => other("Plain"),
        };
        let a = |n: &str| vec![attr(n, xs("string")), AttrItem::Attr { name: "common".into(), ty: Some(xs(if n == "a0" { "int" } else { "byte" })), us: Use::Required, doc: None }];
        let items = vec![
            Item::Simple(wrapper("Plain", xs("string"))),
            Item::Complex(complex("Lower", Content::SimpleExt { base: bottom, attrs: a("a0") })),
            Item::Complex(complex("Middle", Content::SimpleExt { base: tn("Lower"), attrs: if c.flag() { a("a1") } else { vec![] } })),
            Item::Complex(complex("Upper", Content::SimpleExt { base: tn("Middle"), attrs: vec![attr("a2", xs("string"))] })),
        ];
        Some(schema(permute(c, items)))
    });
    ctx.bound("a prohibited attribute of a restriction removes the inherited one; long chains (8 types) in 4 orders");
    explore_schemas(ctx, "prohibited and long chains", 0, |c| {
        if c.flag() {
            let us = *c.pick(&[Use::Prohibited, Use::Required, Use::Optional]);
            let items = vec![
                Item::Complex(Complex { name: "Base".into(), doc: None, content: seq(vec![elem("x", xs("int"))]), attrs: vec![attr("keep", xs("int")), attr("drop", xs("int"))] }),
                Item::Complex(complex(
                    "Derived",
                    Content::Derived { restriction: true, base: tn("Base"), content: Box::new(Content::None), attrs: vec![AttrItem::Attr { name: "drop".into(), ty: Some(xs("int")), us, doc: None }] },
                )),
                Item::Complex(complex("Leaf", Content::Derived { restriction: false, base: tn("Derived"), content: Box::new(seq(vec![elem("y", xs("int"))])), attrs: vec![] })),
            ];
            return Some(schema(permute(c, items)));
        }
        let n = 8;
        let names = ["Aa", "Bb", "Cc", "Dd", "Ee", "Ff", "Gg", "Hh"];
        let mut items: Vec<Item> = (0..n)
            .map(|i| {
                let content = seq(vec![elem(&format!("member{}", ["A", "B", "C", "D", "E", "F", "G", "H"][i]), xs("int")), elem("same", xs(["int", "byte"][i % 2]))]);
                Item::Complex(if i == 0 { complex(names[0], content) } else { complex(names[i], Content::Derived { restriction: i % 3 == 2, base: tn(names[i - 1]), content: Box::new(content), attrs: vec![] }) })
            })
            .collect();
        match c.choose(4) {
            0 => {}
            1 => items.reverse(),
            2 => items.rotate_left(4),
            _ => {
                let (a, b): (Vec<_>, Vec<_>) = items.into_iter().enumerate().partition(|x| x.0 % 2 == 0);
                items = b.into_iter().chain(a.into_iter().rev()).map(|x| x.1).collect();
            }
        }
        Some(schema(items))
    });
}
