//! C05 choices.
use crate::derive::permute;
use crate::mc::*;
use crate::model::*;
use crate::refs::*;
use crate::*;

pub fn c05(ctx: &Ctx) {
    let th = ctx.thorough();
    let bounds: &[(Option<&'static str>, Option<&'static str>)] = &[(None, None), (Some("0"), None), (Some("0"), Some("1")), (None, Some("unbounded")), (Some("2"), Some("3"))];
    let alt = |c: &mut Chooser, i: usize, all_bounds: bool| -> Elem {
        let name = ["alpha", "Beta", "gammaRay", "d"][i];
        let (min, max) = if all_bounds { *c.pick(bounds) } else { (None, None) };
        let ty = match c.choose(6) {
            0 => ElemTy::Named(xs("int")),
            1 => ElemTy::Named(tn("Part")),
            2 => ElemTy::Named(other("Part")),
            3 => ElemTy::Ref(tn(["alphaRef", "BetaRef", "gammaRef", "dRef"][i])),
            4 => ElemTy::Ref(other(["alphaRef", "BetaRef", "gammaRef", "dRef"][i])),
            _ => ElemTy::Untyped,
        };
        Elem { name: name.into(), ty, min, max, doc: None }
    };
    // 0 content, 1..3 particle of a sequence, 4 of an all-group, 5,6 extension/restriction, 7 in extension sequence
    let place = |k: usize, v: Vec<Elem>, attrs: Vec<AttrItem>| -> Complex {
        let x = || Particle::Elem(elem("x", xs("string")));
        let y = || Particle::Elem(Elem { name: "yy".into(), ty: ElemTy::Named(tn("Part")), min: Some("0"), max: Some("unbounded"), doc: None });
        let c = |content| Complex { name: "Holder".into(), doc: None, content, attrs: attrs.clone() };
        let d = |restriction, content| complex("Holder", Content::Derived { restriction, base: tn("Base"), content: Box::new(content), attrs: attrs.clone() });
        match k {
            0 => c(Content::Choice(v)),
            1 => c(Content::Seq(vec![Particle::Choice(v)])),
            2 => c(Content::Seq(vec![x(), Particle::Choice(v), y()])),
            3 => c(Content::All(vec![x(), Particle::Choice(v)])),
            4 => c(Content::Seq(vec![Particle::Any { min: None, max: None }, Particle::Choice(v), x()])),
            5 => d(false, Content::Choice(v)),
            6 => d(true, Content::Choice(v)),
            7 => d(false, Content::Seq(vec![x(), Particle::Choice(v)])),
            _ => d(true, Content::All(vec![Particle::Choice(v), y()])),
        }
    };
    let wrapit = |p: usize, c: Complex| -> Item {
        match p {
            0 => Item::Complex(c),
            1 => Item::Element(GElem { name: c.name.clone(), doc: None, ty: ElemTy::Complex(Box::new(Complex { name: String::new(), ..c })) }),
            2 => Item::Complex(complex("Outer", seq(vec![elem("before", xs("int")), anon("inner", ElemTy::Complex(Box::new(Complex { name: String::new(), ..c })))]))),
            _ => Item::Element(GElem {
                name: "Outer".into(),
                doc: None,
                ty: ElemTy::Complex(Box::new(complex("", Content::All(vec![Particle::Elem(anon("mid", ElemTy::Complex(Box::new(complex("", seq(vec![anon("inner", ElemTy::Complex(Box::new(Complex { name: String::new(), ..c })))]))))))])))),
            }),
        }
    };
    let base = || Item::Complex(Complex { name: "Base".into(), doc: None, content: seq(vec![elem("first", xs("int"))]), attrs: vec![] });
    ctx.bound(format!("1..{} alternatives of 6 kinds x 9 places of the choice x 4 places of the type x with/without attributes; one alternative with 5 bounds x 6 kinds", if th { 4 } else { 3 }));
    explore_schemas(ctx, "alternatives x places", 0, |c| {
        let n = 1 + c.choose(if th { 4 } else { 3 });
        let v: Vec<Elem> = (0..n).map(|i| alt(c, i, false)).collect();
        let k = c.choose(9);
        let p = c.choose(4);
        let attrs = if c.flag() { vec![attr("own", xs("int")), AttrItem::Ref { to: other("far"), us: Use::Required }] } else { vec![] };
        Some(schema(vec![base(), wrapit(p, place(k, v, attrs))]))
    });
    explore_schemas(ctx, "cardinalities", 0, |c| {
        let n = 1 + c.choose(2);
        let v: Vec<Elem> = (0..n).map(|i| alt(c, i, true)).collect();
        let k = *c.pick(&[0, 2, 5, 7]);
        let p = c.choose(2);
        Some(schema(vec![base(), wrapit(p, place(k, v, vec![]))]))
    });
    ctx.bound("several types with choices in one schema, with and without attribute groups, and derivation from a type with a choice, all orders");
    explore_schemas(ctx, "choices and other components", 0, |c| {
        let ch = |n: &str| vec![elem(n, xs("int")), elem("shared", tn("Part"))];
        let mut items = vec![base()];
        let k = c.choose(6);
        let mut one = place(k, ch("left"), if c.flag() { vec![AttrItem::Group(tn("Group"))] } else { vec![] });
        one.name = "One".into();
        items.push(Item::Complex(one));
        items.push(Item::AttrGroup(AttrGroup { name: "Group".into(), attrs: vec![attr("grouped", xs("int"))], doc: None }));
        match c.choose(3) {
            0 => {
                let k = c.choose(6);
                let mut two = place(k, ch("right"), vec![attr("own", xs("int"))]);
                two.name = "Two".into();
                items.push(Item::Complex(two));
            }
            1 => items.push(Item::Complex(complex("Two", Content::Derived { restriction: c.flag(), base: tn("One"), content: Box::new(Content::None), attrs: vec![] }))),
            _ => items.push(Item::Complex(complex("Two", Content::Derived { restriction: false, base: tn("One"), content: Box::new(seq(vec![elem("extra", xs("int"))])), attrs: vec![attr("own", xs("int"))] }))),
        }
        Some(schema(permute(c, items)))
    });
}
