//! C07 simple types.
use crate::mc::*;
use crate::model::*;
use crate::refs::*;
use crate::*;

const VALUES: &[&str] = &["One", "two", "Three3", "4", "five-six", "Seven-8", "a-b-c", "-x", "y-", "--z", "10-20", "N", "", "with space", "dot.ted", "under_score", "a:b", "+1", "_", "p/q"];

fn def(c: &mut Chooser, depth: usize) -> SimpleDef {
    let r = |c: &mut Chooser| c.pick(&[xs("string"), xs("int"), tn("Part"), other("Part"), xs("IDREFS")]).clone();
    match c.choose(if depth == 0 { 5 } else { 8 }) {
        0 => SimpleDef::Restr { base: r(c), facets: vec![] },
        1 => SimpleDef::Restr { base: xs("string"), facets: vec![facet("minLength", "2"), facet("maxLength", "5")] },
        2 => SimpleDef::Restr { base: xs("string"), facets: vec![facet("enumeration", "On"), facet("enumeration", "Off")] },
        3 => SimpleDef::List(r(c)),
        4 => SimpleDef::Union(vec![tn("Part"), xs("int")], vec![]),
        5 => {
            // an anonymous union cannot be named as the item of a list (recorded as outside the model)
            match def(c, depth - 1) {
                SimpleDef::Union(..) => SimpleDef::List(xs("token")),
                d => SimpleDef::ListOf(Box::new(simple("", d))),
            }
        }
        k => {
            let n = 1 + c.choose(2);
            let members = if k == 6 { vec![] } else { vec![tn("Part")] };
            let mut a = vec![];
            for _ in 0..n {
                // members that are themselves unions with anonymous members would reuse the member names
                let d = def(c, depth - 1);
                a.push(simple("", if has_anon(&d) { SimpleDef::List(xs("int")) } else { d }));
            }
            SimpleDef::Union(members, a)
        }
    }
}
/// declares further named types next to it
fn has_anon(d: &SimpleDef) -> bool {
    match d {
        SimpleDef::Union(_, a) => !a.is_empty(),
        SimpleDef::ListOf(i) => matches!(i.def, SimpleDef::Restr { .. }) && true || has_anon(&i.def),
        _ => false,
    }
}

/// Where a simple type stands.
fn put(k: usize, s: Simple) -> Vec<Item> {
    let anon_s = || ElemTy::Simple(Box::new(Simple { name: String::new(), ..s.clone() }));
    let el = |min, max| Elem { name: "kind".into(), ty: anon_s(), min, max, doc: None };
    match k {
        0 => vec![Item::Simple(s)],
        1 => vec![Item::Element(GElem { name: s.name.clone(), doc: None, ty: anon_s() })],
        2 => vec![Item::Attribute(GAttr { name: s.name.clone(), doc: None, ty: GAttrTy::Simple(Simple { name: String::new(), ..s.clone() }) })],
        3 => vec![Item::Complex(complex("Holder", seq(vec![el(None, None)])))],
        4 => vec![Item::Complex(complex("Holder", Content::All(vec![Particle::Elem(el(Some("0"), None))])))],
        5 => vec![Item::Complex(complex("Holder", Content::Derived { restriction: false, base: other("Base"), content: Box::new(seq(vec![el(None, Some("unbounded"))])), attrs: vec![] }))],
        6 => vec![Item::Element(GElem { name: "Root".into(), doc: None, ty: ElemTy::Complex(Box::new(complex("", seq(vec![elem("x", xs("int")), el(None, None)])))) })],
        _ => vec![Item::Complex(complex("Holder", seq(vec![anon("inner", ElemTy::Complex(Box::new(complex("", seq(vec![el(None, None)])))))])))],
    }
}

pub fn c07(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.bound(format!("simple type definitions of nesting depth up to {} (restriction, enumeration, list, list of anonymous, union of named and anonymous) x 8 places", if th { 3 } else { 2 }));
    explore_schemas(ctx, "definitions x places", 0, |c| {
        let k = c.choose(8);
        let d = def(c, if th { 3 } else { 2 });
        Some(schema(put(k, simple("Kind", d))))
    });
    ctx.bound(format!("enumerations: all sequences of up to {} distinct values out of {} x 3 bases x places", if th { 4 } else { 3 }, VALUES.len()));
    explore_schemas(ctx, "enumeration values", 0, |c| {
        let k = if th { c.choose(8) } else { *c.pick(&[0, 3]) };
        let base = c.pick(&[xs("string"), xs("NMTOKEN"), tn("Part")]).clone();
        let n = 1 + c.choose(if th { 4 } else { 3 });
        let mut vals: Vec<&str> = vec![];
        for _ in 0..n {
            let v = *c.pick(VALUES);
            if vals.contains(&v) {
                return None;
            }
            vals.push(v);
        }
        if vals.iter().all(|v| is_plain_word(v)) {
            let ids: Vec<String> = vals.iter().map(|v| value_ident(v)).collect();
            if (0..ids.len()).any(|i| ids[..i].contains(&ids[i])) {
                return None; // collisions are explored separately
            }
        }
        Some(schema(put(k, Simple { name: "Kind".into(), doc: None, def: SimpleDef::Restr { base, facets: vals.iter().map(|v| facet("enumeration", v)).collect() } })))
    });
    let bases: Vec<Ref> = BUILTIN.iter().map(|b| xs(b.0)).chain(["Part", "string", "QName", "Enum", "NameEnum"].map(tn)).chain(["Part", "QName", "int"].map(other)).collect();
    ctx.bound(format!("enumerations, single facets and no facets over every base ({} built-in, own and foreign types) x 8 places", bases.len()));
    explore_schemas(ctx, "bases", 0, |c| {
        let k = c.choose(8);
        let base = c.pick(&bases).clone();
        let facets = match c.choose(6) {
            0 => vec![],
            1 => vec![facet("enumeration", "One")],
            2 => vec![facet("enumeration", "One"), facet("enumeration", "2"), facet("enumeration", "a-b")],
            3 => vec![facet("enumeration", "One"), facet("enumeration", "p:q")],
            4 => vec![facet("whiteSpace", "collapse")],
            _ => vec![facet("pattern", "[A-Z]+"), facet("enumeration", "One")],
        };
        Some(schema(put(k, simple("Kind", SimpleDef::Restr { base, facets }))))
    });
    ctx.bound("enumerations of words of other scripts: all sequences of up to 3 of 12 words");
    explore_schemas(ctx, "words of other scripts", 0, |c| {
        let n = 1 + c.choose(3);
        let mut vals: Vec<&str> = vec![];
        for _ in 0..n {
            let v = *c.pick(&["größer", "naïve", "Éa", "日本", "ὕδωρ", "дом-2", "Ω", "٣x", "ünïts-ab", "plain", "i18n", "ĳ"]);
            if vals.contains(&v) {
                return None;
            }
            vals.push(v);
        }
        let k = *c.pick(&[0, 3]);
        Some(schema(put(k, Simple { name: "Kind".into(), doc: None, def: SimpleDef::Restr { base: xs("string"), facets: vals.iter().map(|v| facet("enumeration", v)).collect() } })))
    });
    let most = if th { 130 } else { 40 };
    ctx.bound(format!("long enumerations: up to {} values (and 64, 100, 128, 256, 300), up to two of them, anywhere, being one of 14 unusual values or another facet", most));
    let counts: Vec<usize> = (1..=most).chain([64, 100, 128, 256, 300]).collect();
    explore_schemas(ctx, "long enumerations", 0, |c| {
        let n = *c.pick(&counts);
        const ODD: &[&str] = &["a b", "", "a/b", "a:b", "+", "été", "2nd", "a-b", "a.b", "_x", "type", " lead", "q(r)", "UPPER"];
        let mut f: Vec<Facet> = (0..n).map(|i| facet("enumeration", &format!("value{}", i))).collect();
        let mut place = |kind: usize, at: usize| f[at] = if kind < ODD.len() { facet("enumeration", ODD[kind]) } else { facet("maxLength", "99") };
        let at = if n <= 40 { c.choose(n) } else { *c.pick(&[0, 1, 31, 32, 63, n / 2, n - 2, n - 1]) };
        let kind = c.choose(ODD.len() + 1);
        place(kind, at);
        if n > 1 && n <= 12 {
            let at2 = c.choose(n);
            let kind2 = c.choose(ODD.len() + 1);
            if at2 <= at || kind2 == kind && kind < ODD.len() {
                return None;
            }
            place(kind2, at2);
        }
        let k = *c.pick(&[0, 3]);
        Some(schema(put(k, simple("Kind", SimpleDef::Restr { base: xs("string"), facets: f }))))
    });
    ctx.bound(format!("long unions and mixed bases: up to {} members, one of them, anywhere, of another kind (built-in, foreign, list, enumeration, anonymous)", most));
    explore_schemas(ctx, "long unions", 0, |c| {
        let n = 1 + c.choose(most);
        let at = if n <= 40 { c.choose(n) } else { *c.pick(&[0, 31, n - 1]) };
        let mut m: Vec<Ref> = (0..n).map(|i| tn(&format!("Member{}", i))).collect();
        let mut anon = vec![];
        match c.choose(5) {
            0 => m[at] = xs("decimal"),
            1 => m[at] = other("Thing"),
            2 => m[at] = xs("NMTOKENS"),
            3 => anon = (0..=at).map(|i| if i % 2 == 0 { enumeration("", &["Yes", "No"]) } else { simple("", SimpleDef::List(xs("int"))) }).collect(),
            _ => m[at] = tn("Kinds"),
        }
        let k = *c.pick(&[0, 3]);
        Some(schema(put(k, simple("Kind", SimpleDef::Union(m, anon)))))
    });
    ctx.bound("enumerations mixed with other facets, in any order");
    explore_schemas(ctx, "enumeration among facets", 0, |c| {
        let n = 1 + c.choose(4);
        let mut f = vec![];
        for i in 0..n {
            f.push(match c.choose(4) {
                0 => facet("enumeration", ["One", "Two", "Three", "Four"][i]),
                1 => facet("pattern", "[A-Z].*"),
                2 => facet("maxLength", "9"),
                _ => facet("whiteSpace", "collapse"),
            });
        }
        let k = c.choose(8);
        Some(schema(put(k, simple("Kind", SimpleDef::Restr { base: xs("string"), facets: f }))))
    });
    ctx.bound("unions of up to 4 named members of 5 kinds with up to 2 anonymous ones; lists nested up to 4 deep");
    explore_schemas(ctx, "unions and nested lists", 0, |c| {
        let k = c.choose(8);
        if c.flag() {
            let pool = [xs("int"), xs("string"), tn("Part"), other("Thing"), tn("partTwo"), xs("IDREFS")];
            let n = c.choose(if th { 5 } else { 4 });
            let mut m: Vec<Ref> = vec![];
            for _ in 0..n {
                let r = c.pick(&pool).clone();
                if m.contains(&r) {
                    return None;
                }
                m.push(r);
            }
            let a = c.choose(3);
            let anon = [simple("", SimpleDef::Restr { base: xs("string"), facets: vec![facet("length", "3")] }), enumeration("", &["Yes", "No"])];
            let anon = match a {
                0 => vec![],
                1 => vec![anon[1].clone()],
                _ => anon.to_vec(),
            };
            if m.is_empty() && anon.is_empty() {
                return None;
            }
            Some(schema(put(k, simple("Kind", SimpleDef::Union(m, anon)))))
        } else {
            let depth = 1 + c.choose(4);
            let mut d = match c.choose(3) {
                0 => SimpleDef::List(xs("int")),
                1 => SimpleDef::List(tn("Part")),
                _ => SimpleDef::ListOf(Box::new(enumeration("", &["Yes", "No"]))),
            };
            for _ in 1..depth {
                d = SimpleDef::ListOf(Box::new(simple("", d)));
            }
            Some(schema(put(k, simple("Kind", d))))
        }
    });
}
