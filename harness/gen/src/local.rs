//! C12 locality, C13 determinism.
use crate::docs::corpus;
use crate::mc::*;
use crate::model::*;
use crate::refs::*;
use crate::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

/// Source text up to layout.
pub fn squash(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

struct Comp {
    item: Item,
    deps: Vec<usize>,
}

fn pool() -> Vec<Comp> {
    let c = |item| Comp { item, deps: vec![] };
    let cx = |name: &str, content, attrs| Item::Complex(Complex { name: name.into(), doc: Some(format!("about {}", name)), content, attrs });
    let inner = |n: &str| Box::new(complex("", seq(vec![elem(n, xs("int"))])));
    let ext = |base, content| Content::Derived { restriction: false, base, content: Box::new(content), attrs: vec![] };
    vec![
        c(cx("Plain", Content::Seq(vec![Particle::Elem(elem("x", xs("int"))), Particle::Elem(Elem { name: "y".into(), ty: ElemTy::Named(tn("Part")), min: Some("0"), max: Some("unbounded"), doc: Some("a member".into()) })]), vec![attr("code", xs("int"))])),
        Comp { item: cx("Derived", ext(tn("Plain"), seq(vec![anon("inner", ElemTy::Complex(inner("z")))])), vec![]), deps: vec![0] },
        Comp { item: cx("WithGroup", seq(vec![elem("x", xs("date"))]), vec![AttrItem::Group(tn("Common"))]), deps: vec![3] },
        c(Item::AttrGroup(AttrGroup { name: "Common".into(), attrs: vec![attr("grouped", xs("int"))], doc: None })),
        c(Item::Simple(enumeration("Mode", &["On", "Off"]))),
        c(Item::Simple(simple("Modes", SimpleDef::List(tn("Mode"))))),
        c(Item::Simple(simple("Range", SimpleDef::Restr { base: xs("int"), facets: vec![facet("minInclusive", "1"), facet("maxExclusive", "9")] }))),
        c(Item::Simple(simple("Either", SimpleDef::Union(vec![tn("Mode"), xs("int")], vec![enumeration("", &["Max"]), simple("", SimpleDef::List(xs("int")))])))),
        c(cx("Pick", Content::Choice(vec![elem("one", tn("Plain")), elem("two", xs("string"))]), vec![])),
        c(Item::Element(GElem { name: "Root".into(), doc: Some("the root".into()), ty: ElemTy::Complex(Box::new(complex("", seq(vec![elem("x", tn("Mode")), anon("inner", ElemTy::Complex(inner("deep")))])))) })),
        c(Item::Element(GElem { name: "plain".into(), doc: None, ty: ElemTy::Named(tn("Plain")) })),
        c(Item::Element(GElem { name: "Nothing".into(), doc: None, ty: ElemTy::Untyped })),
        c(Item::Attribute(GAttr { name: "kind".into(), doc: None, ty: GAttrTy::Simple(wrapper("", xs("int"))) })),
        c(Item::Import { namespace: "http://other.example.com".into(), location: "other.xsd".into(), include: false }),
        c(Item::Annotation("notes about the schema".into())),
        // look alike, but not related
        c(cx("SubPlain", seq(vec![elem("plain", tn("Plain")), elem("sub", tn("SubPlain"))]), vec![])),
        c(cx("ForeignDerived", ext(other("Plain"), seq(vec![elem("own", xs("int"))])), vec![])),
        c(cx("ForeignGroup", Content::None, vec![AttrItem::Group(other("Common")), attr("own", xs("int"))])),
        c(cx("Common", seq(vec![elem("typed", xs("int"))]), vec![])),
        c(Item::AttrGroup(AttrGroup { name: "Plain".into(), attrs: vec![attr("notMine", xs("int"))], doc: None })),
        c(cx("Holder", Content::SimpleExt { base: tn("Range"), attrs: vec![attr("unit", xs("string"))] }, vec![])),
        Comp { item: cx("Leaf", Content::Derived { restriction: true, base: tn("Derived"), content: Box::new(Content::Choice(vec![elem("a", xs("int"))])), attrs: vec![AttrItem::Group(tn("Common"))] }, vec![]), deps: vec![0, 1, 3] },
    ]
}

fn text(items: Vec<Item>) -> String {
    render(&schema(items))
}
fn gen_sq(t: &str) -> Result<String, Viol> {
    generate(t).map(|s| squash(&s)).map_err(|e| viol("generation-fails", t, "generated code", e))
}

pub fn c12(ctx: &Ctx) {
    let th = ctx.thorough();
    let pool = pool();
    // the code of a component, found next to nothing but what it depends on
    let reference: Vec<Result<String, Viol>> = pool
        .iter()
        .map(|c| {
            let deps: Vec<Item> = c.deps.iter().map(|d| pool[*d].item.clone()).collect();
            let base = gen_sq(&text(deps.clone()))?;
            let t = text(deps.into_iter().chain([c.item.clone()]).collect());
            let all = gen_sq(&t)?;
            match all.strip_prefix(&base) {
                Some(own) => Ok(own.trim().to_string()),
                None => Err(viol("not-a-concatenation", t, format!("starts with {}", base), all)),
            }
        })
        .collect();
    for r in &reference {
        if let Err(v) = r {
            ctx.report(v.clone());
            return;
        }
    }
    let reference: Vec<String> = reference.into_iter().map(|r| r.unwrap_or_default()).collect();
    let verify = |sel: &Vec<usize>| -> Result<Obs, Viol> {
        let t = text(sel.iter().map(|i| pool[*i].item.clone()).collect());
        let got = gen_sq(&t)?;
        let want = sel.iter().map(|i| reference[*i].as_str()).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(" ");
        if got != want {
            return Err(viol("not-local", t, want, got));
        }
        ok(1, "concatenation of its components")
    };
    let closed = |s: &Vec<usize>| s.iter().all(|i| pool[*i].deps.iter().all(|d| s.contains(d)));
    let show = |s: &Vec<usize>| text(s.iter().map(|i| pool[*i].item.clone()).collect());
    let k = if th { 5 } else { 4 };
    ctx.bound(format!("ordered selections: all sequences of up to {} distinct components out of {} (closed under dependencies)", k, pool.len()));
    ctx.explore(
        "ordered selections",
        0,
        |c| {
            let n = c.choose(k + 1);
            let mut s = vec![];
            for _ in 0..n {
                let i = c.choose(pool.len());
                if s.contains(&i) {
                    return None;
                }
                s.push(i);
            }
            closed(&s).then_some(s)
        },
        |s| hash64(s),
        show,
        verify,
    );
    let m = if th { pool.len() } else { 17 };
    ctx.bound(format!("subsets: all subsets of {} components in 3 orders; the whole schema with any component moved to any place and any two exchanged", m));
    ctx.explore(
        "subsets",
        0,
        |c| {
            let o = c.choose(3);
            let mut s: Vec<usize> = (pool.len() - m..pool.len()).filter(|_| c.flag()).collect();
            // closure
            loop {
                let miss = s.iter().flat_map(|i| pool[*i].deps.clone()).find(|d| !s.contains(d));
                match miss {
                    Some(d) => s.push(d),
                    None => break,
                }
            }
            s.sort();
            match o {
                0 => {}
                1 => s.reverse(),
                _ => {
                    let (a, b): (Vec<_>, Vec<_>) = s.iter().partition(|i| **i % 3 == 1);
                    s = b.into_iter().chain(a.into_iter().rev()).collect();
                }
            }
            Some(s)
        },
        |s| hash64(s),
        show,
        verify,
    );
    ctx.explore(
        "moves and exchanges",
        0,
        |c| {
            let mut s: Vec<usize> = (0..pool.len()).collect();
            let rounds = 1 + c.choose(if th { 2 } else { 1 });
            for _ in 0..rounds {
                let (a, b) = (c.choose(pool.len()), c.choose(pool.len()));
                if c.flag() {
                    s.swap(a, b);
                } else {
                    let x = s.remove(a);
                    s.insert(b, x);
                }
            }
            Some(s)
        },
        |s| hash64(s),
        show,
        verify,
    );
    // insignificant markup
    let mut schemas = corpus();
    schemas.push(schema(pool.iter().map(|c| c.item.clone()).collect()));
    let plain: Vec<Result<String, Viol>> = schemas.iter().map(|s| gen_sq(&render(s))).collect();
    let same = |i: usize, t: &str| -> Result<Obs, Viol> {
        let want = plain[i].clone()?;
        let got = gen_sq(t)?;
        if got != want {
            return Err(viol("markup-changes-code", t, want, got));
        }
        ok(1, "same code")
    };
    ctx.bound(format!("markup: {} schemas x 6 kinds of filling between all tags x order of attributes x order of namespace declarations x quotes x 4 prologs x 4 attributes of the schema element x 6 prefixes of XML Schema", schemas.len()));
    ctx.explore(
        "style of markup",
        0,
        |c| {
            let i = c.choose(schemas.len());
            let mut s = schemas[i].clone();
            s.style.noise = c.choose(6);
            s.style.attr_order = c.choose(2);
            s.style.ns_reversed = c.flag();
            s.style.quote = *c.pick(&['"', '\'']);
            s.style.prolog = *c.pick(&["", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- generated -->\n", "\u{feff}<?xml version='1.0'?>", "<?xml-stylesheet href=\"x\"?><!--<schema/>-->"]);
            s.style.root_extra = *c.pick(&["", " elementFormDefault=\"qualified\" attributeFormDefault=\"unqualified\"", " version=\"1.0\" xml:lang=\"en\" id=\"s\"", "\n  blockDefault='#all'\n  finalDefault=\"\" xmlns:more=\"urn:more\""]);
            s.style.xsd = *c.pick(&[Some("xs"), Some("xsd"), None, Some("s"), Some("wxs"), Some("_X.1-a")]);
            Some((i, render(&s)))
        },
        |x| hash64(x.1.as_str()),
        |x| x.1.clone(),
        |x| same(x.0, &x.1),
    );
    ctx.bound("one piece of insignificant markup (blank, comment, processing instruction, annotation, extra attribute, self-closing tag, character reference) at every single place; pairs of them");
    let texts: Vec<String> = schemas.iter().map(render).collect();
    let cuts: Vec<Vec<usize>> = texts.iter().map(|t| t.match_indices('>').map(|m| m.0 + 1).filter(|p| *p < t.len() && !t[..*p].ends_with("<xs:documentation>")).collect()).collect();
    let bits = [" ", "\n\n\t", "<!-- x -->", "<!-- <xs:element name=\"evil\"/> -->", "<?p name=\"evil\"?>", "\r\n<!---->\r\n"];
    ctx.explore(
        "single pieces",
        0,
        |c| {
            let i = c.choose(texts.len());
            let two = if th { c.choose(2) } else { 0 };
            let mut at = vec![];
            for _ in 0..=two {
                at.push((c.choose(cuts[i].len()), c.choose(bits.len())));
            }
            if two == 1 && at[0].0 >= at[1].0 {
                return None;
            }
            let mut t = texts[i].clone();
            for (p, b) in at.iter().rev() {
                t.insert_str(cuts[i][*p], bits[*b]);
            }
            Some((i, t))
        },
        |x| hash64(x.1.as_str()),
        |x| x.1.clone(),
        |x| same(x.0, &x.1),
    );
    ctx.explore(
        "tags",
        0,
        |c| {
            let i = c.choose(texts.len());
            let t = &texts[i];
            let opens: Vec<usize> = t.match_indices("<xs:").map(|m| m.0).collect();
            let o = opens[c.choose(opens.len())];
            let e = o + t[o..].find('>').unwrap();
            let tag = &t[o..e];
            let rest = &t[e + 1..];
            let name = tag[1..].split(' ').next().unwrap().to_string();
            let new = match c.choose(7) {
                0 => format!("{} id=\"i1\">{}", tag, rest),
                1 => format!("{}\n  >{}", tag.replacen(' ', "\n\t ", 1), rest),
                2 => format!("{} xmlns:extra=\"urn:extra\" extra:name=\"evil\" extra:type=\"xs:int\">{}", tag, rest),
                3 => match rest.strip_prefix(&format!("</{}>", name)) {
                    Some(r) => format!("{}/>{}", tag, r),
                    None => return None,
                },
                4 => format!("{}>{}", tag.replace(" name=\"", " name=\"&#x0;").replace("&#x0;", ""), rest.replacen(&format!("</{}>", name), &format!("</{} \n>", name), 1)),
                // a character written as a reference
                5 => match tag.find("=\"") {
                    Some(p) if tag.len() > p + 3 && !tag.contains("xmlns") && tag[p + 2..].starts_with(|c: char| c.is_ascii_alphanumeric()) => {
                        let ch = tag.as_bytes()[p + 2];
                        format!("{}&#{};{}>{}", &tag[..p + 2], ch, &tag[p + 3..], rest)
                    }
                    _ => return None,
                },
                _ => {
                    if name == "xs:schema" || tag.contains("annotation") || tag.contains("documentation") {
                        return None;
                    }
                    format!("{}><xs:annotation><xs:appinfo source=\"urn:a\">{}</xs:appinfo></xs:annotation>{}", tag, "x", rest)
                }
            };
            if rest.starts_with("<xs:annotation") && new.contains("<xs:appinfo") {
                return None;
            }
            Some((i, format!("{}{}", &t[..o], new)))
        },
        |x| hash64(x.1.as_str()),
        |x| x.1.clone(),
        |x| same(x.0, &x.1),
    );
}

// ------------------------------------------------------------------ C13

/// Schemas with differing namespace settings, so that left-over state of another schema would show.
pub fn variety() -> Vec<Schema> {
    let mut v = corpus();
    v.push(schema(pool().into_iter().map(|c| c.item).collect()));
    let n = v.len();
    let mut out = vec![];
    for (i, mut s) in v.into_iter().enumerate() {
        match i % 4 {
            0 => {}
            1 => {
                s.style.xsd = None;
                s.style.target = Some((Some("t"), "urn:t"));
            }
            2 => {
                s.style.xsd = Some("xsd");
                s.style.target = Some((None, "urn:default"));
                s.style.others = vec![("tns", "urn:tns"), ("xs", "urn:xs")];
            }
            _ => {
                s.style.xsd = Some("tns");
                s.style.target = Some((Some("xs"), "urn:xs"));
                s.style.others = vec![("t", "urn:t")];
            }
        }
        if i % 4 != 0 || i < n {
            out.push(s);
        }
    }
    // many of everything, so that an unordered collection would show
    let groups = ["GrpA", "GrpB", "GrpC", "GrpD", "GrpE", "GrpF"];
    let mut items: Vec<Item> = groups
        .iter()
        .map(|g| Item::AttrGroup(AttrGroup { name: g.to_string(), attrs: ["one", "two", "three"].iter().map(|a| attr(&format!("{}{}", a, g), xs("int"))).collect(), doc: None }))
        .collect();
    let many = |p: &str| seq(["red", "green", "blue", "black", "white", "grey"].iter().map(|n| elem(&format!("{}{}", p, n), xs("string"))).collect());
    items.push(Item::Complex(Complex { name: "Wide".into(), doc: None, content: many("a"), attrs: groups.iter().map(|g| AttrItem::Group(tn(g))).collect() }));
    items.push(Item::Complex(complex("Wider", Content::Derived { restriction: false, base: tn("Wide"), content: Box::new(many("b")), attrs: vec![] })));
    items.push(Item::Complex(complex("Widest", Content::Derived { restriction: true, base: tn("Wider"), content: Box::new(many("a")), attrs: vec![] })));
    items.push(Item::Complex(complex("Nest", seq((0..6).map(|i| anon(&format!("inner{}", groups[i]), ElemTy::Complex(Box::new(complex("", many("c")))))).collect()))));
    items.push(Item::Simple(enumeration("Colours", &["Red", "Green", "Blue", "Black", "White", "Grey", "Pink"])));
    items.push(Item::Simple(simple("Some", SimpleDef::Union(vec![xs("int"), tn("Colours"), xs("date"), xs("boolean")], vec![enumeration("", &["Up", "Down"]), simple("", SimpleDef::List(xs("int"))), enumeration("", &["Left"])]))));
    items.push(Item::Simple(simple("Bound", SimpleDef::Restr { base: xs("int"), facets: ["minInclusive", "maxInclusive", "minExclusive", "maxExclusive"].iter().map(|f| facet(f, "5")).collect() })));
    let mut wide = schema(items);
    wide.style.others = vec![("oth", "urn:1"), ("a", "urn:2"), ("b", "urn:3"), ("c", "urn:4"), ("tns2", "urn:5"), ("also", "http://example.com")];
    out.insert(0, wide);
    // no target namespace at all
    let mut s = schema(vec![Item::Complex(complex("Own", seq(vec![elem("a", xs("int")), elem("b", tn("Own"))])))]);
    s.style.target = None;
    out.push(s);
    out
}

/// Files compared across processes and threads.
fn emitted() -> Vec<Schema> {
    let mut v = variety();
    let mut prev = xs("string");
    let mut items = vec![];
    for i in 0..9 {
        let inner = if i == 0 { seq(vec![elem("e0", xs("int"))]) } else { Content::Derived { restriction: i % 3 == 2, base: prev.clone(), content: Box::new(seq(vec![elem(&format!("e{}", i), xs("int"))])), attrs: vec![] } };
        items.push(Item::Complex(complex(&format!("Level{}", i), inner)));
        prev = tn(&format!("Level{}", i));
    }
    v.push(schema(items));
    v.extend(crate::grand::rich(300));
    v
}

/// Every file generated the given number of times; a differing result is printed as well.
pub fn emit(times: usize) {
    let texts: Vec<String> = emitted().iter().map(render).collect();
    let first: Vec<_> = texts.iter().map(|t| format!("{:?}", generate(t))).collect();
    let mut out = first.clone();
    for _ in 1..times {
        for (i, t) in texts.iter().enumerate() {
            let again = format!("{:?}", generate(t));
            if again != first[i] {
                out[i] = again;
            }
        }
    }
    for o in out {
        println!("{}", o);
    }
}

pub fn c13(ctx: &Ctx) {
    use xsd_parser::generator::builder::GeneratorBuilder;
    use xsd_parser::parser::parse;
    let th = ctx.thorough();
    let all = variety();
    let texts: Vec<String> = all.iter().map(render).collect();
    let want: Vec<String> = texts.iter().map(|t| generate(t).unwrap_or_else(|e| format!("<<{}>>", e))).collect();
    // files that between them use every namespace setting and every kind of component
    let pickf: Vec<usize> = if th { vec![0, 1, 2, 3, 7, 9, texts.len() - 2, texts.len() - 1] } else { vec![0, 1, 2, 7, texts.len() - 2, texts.len() - 1] };
    let len = if th { 6 } else { 5 };
    ctx.bound(format!("histories: all sequences of up to {} generations over 2 generators and {} parsed files; the parsed files compared before and after", len, pickf.len()));
    ctx.explore(
        "histories",
        0,
        |c| {
            let n = 1 + c.choose(len);
            Some((0..n).map(|_| (c.choose(2), *c.pick(&pickf))).collect::<Vec<_>>())
        },
        |h| hash64(h),
        |h| format!("{:?}", h),
        |h| {
            let files: BTreeMap<usize, _> = h.iter().map(|x| (x.1, parse(&texts[x.1]))).collect();
            let before: Vec<String> = files.values().map(|f| format!("{:?}", f)).collect();
            let gens = [GeneratorBuilder::default().build(), GeneratorBuilder::default().build()];
            for (k, (g, f)) in h.iter().enumerate() {
                let file = files[f].as_ref().map_err(|_| viol("parse-fails", texts[*f].clone(), "parsed", "error"))?;
                let got = gens[*g].generate_rs_file(file);
                if got != want[*f] {
                    return Err(viol("history-dependent", format!("step {} of (generator, file) {:?}; schema {}", k, h, texts[*f]), want[*f].clone(), got));
                }
            }
            let after: Vec<String> = files.values().map(|f| format!("{:?}", f)).collect();
            if before != after {
                return Err(viol("parsed-file-changed", format!("{:?}", h), before.join("\n"), after.join("\n")));
            }
            ok(h.len() as u64, "same text every time")
        },
    );
    ctx.bound(format!("every ordered pair of {} files through one generator, each generated twice; parsing twice gives equal files", texts.len()));
    ctx.explore(
        "pairs",
        0,
        |c| Some((c.choose(texts.len()), c.choose(texts.len()))),
        |h| hash64(h),
        |h| format!("{:?}", h),
        |(a, b)| {
            let gen = GeneratorBuilder::default().build();
            let (fa, fb) = (parse(&texts[*a]).unwrap(), parse(&texts[*b]).unwrap());
            let fb2 = parse(&texts[*b]).unwrap();
            if format!("{:?}", fb) != format!("{:?}", fb2) {
                return Err(viol("parsing-differs", texts[*b].clone(), format!("{:?}", fb), format!("{:?}", fb2)));
            }
            for (f, i) in [(&fa, a), (&fb, b), (&fb, b), (&fa, a), (&fb2, b)] {
                let got = gen.generate_rs_file(f);
                if got != want[*i] {
                    return Err(viol("history-dependent", format!("files {} and {}: {}", a, b, texts[*i]), want[*i].clone(), got));
                }
            }
            // component by component
            for e in &fb.types {
                gen.generate(e);
            }
            let pieces: String = fb.types.iter().map(|e| gen.generate(e)).collect();
            if squash(&pieces) != squash(&want[*b]) {
                // the generator still carries the namespaces of the file generated last
                return Err(viol("pieces-differ", texts[*b].clone(), want[*b].clone(), pieces));
            }
            ok(5, "same text every time")
        },
    );
    let long = if th { 1000 } else { 150 };
    ctx.bound(format!("long histories: {} generations with one generator, going round the {} files in steps of every size; every file generated {} times", long, texts.len(), long));
    ctx.explore(
        "long histories",
        0,
        |c| Some((c.choose(texts.len()), c.choose(texts.len()), c.flag())),
        |h| hash64(h),
        |h| format!("(first file, step, parsed anew each time) {:?}", h),
        |&(first, step, anew)| {
            let gen = GeneratorBuilder::default().build();
            let files: Vec<_> = texts.iter().map(|t| parse(t).unwrap()).collect();
            let mut i = first;
            for k in 0..long {
                let got = if anew { gen.generate_rs_file(&parse(&texts[i]).unwrap()) } else { gen.generate_rs_file(&files[i]) };
                if got != want[i] {
                    return Err(viol("history-dependent", format!("generation {} starting with file {} in steps of {}: {}", k, first, step, texts[i]), want[i].clone(), got));
                }
                i = (i + step) % texts.len();
            }
            ok(long as u64, "same text every time")
        },
    );
    // real threads, one step at a time under a scheduler which enumerates all interleavings
    let threads = if th { 3 } else { 2 };
    let steps = 4; // parse, build, generate, generate again
    ctx.bound(format!("interleavings: all schedules of {} threads x {} steps (parse, build, generate, generate) x {} choices of files, at the granularity of calls", threads, steps, pickf.len()));
    ctx.explore(
        "interleavings",
        0,
        |c| {
            let files: Vec<usize> = (0..threads).map(|i| if i == 0 { *c.pick(&pickf) } else if i == 1 { *c.pick(&pickf[..3]) } else { pickf[1] }).collect();
            let mut left = vec![steps; threads];
            let mut sched = vec![];
            while left.iter().any(|l| *l > 0) {
                let run: Vec<usize> = (0..threads).filter(|t| left[*t] > 0).collect();
                let t = *c.pick(&run);
                left[t] -= 1;
                sched.push(t);
            }
            Some((files, sched))
        },
        |h| hash64(h),
        |h| format!("{:?}", h),
        |(files, sched)| {
            let (outs, turn) = (Mutex::new(vec![]), (Mutex::new(0usize), std::sync::Condvar::new()));
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (turn, outs, text) = (&turn, &outs, &texts[files[t]]);
                    s.spawn(move || {
                        let step = |f: &mut dyn FnMut()| {
                            let mut g = turn.0.lock().unwrap();
                            while *g < sched.len() && sched[*g] != t {
                                g = turn.1.wait(g).unwrap();
                            }
                            f();
                            *g += 1;
                            turn.1.notify_all();
                        };
                        let (mut file, mut gen) = (None, None);
                        let (mut a, mut b) = (String::new(), String::new());
                        step(&mut || file = guard(|| parse(text).ok()).ok().flatten());
                        step(&mut || gen = Some(GeneratorBuilder::default().build()));
                        step(&mut || a = guard(|| gen.as_ref().unwrap().generate_rs_file(file.as_ref().unwrap())).unwrap_or_else(|e| e));
                        step(&mut || b = guard(|| gen.as_ref().unwrap().generate_rs_file(file.as_ref().unwrap())).unwrap_or_else(|e| e));
                        outs.lock().unwrap().push((t, a, b));
                    });
                }
            });
            for (t, a, b) in outs.into_inner().unwrap() {
                if a != want[files[t]] || b != want[files[t]] {
                    return Err(viol("thread-dependent", format!("files {:?}, schedule {:?}, thread {}", files, sched, t), want[files[t]].clone(), if a != want[files[t]] { a } else { b }));
                }
            }
            ok(2 * threads as u64, "same text in every interleaving")
        },
    );
    let texts: Vec<String> = emitted().iter().map(render).collect();
    let want: Vec<String> = texts.iter().map(|t| generate(t).unwrap_or_else(|e| format!("<<{}>>", e))).collect();
    crate::grand::indifferent(ctx);
    crate::grand::other_words(ctx);
    // other processes, and threads running freely
    let envs: [&[(&str, &str)]; 8] = [
        &[],
        &[("LANG", "C"), ("TZ", "UTC"), ("RUST_BACKTRACE", "0")],
        &[("LANG", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo"), ("RUST_BACKTRACE", "1"), ("HOME", "/tmp"), ("PATH", "/bin")],
        &[("LC_ALL", "tr_TR.UTF-8"), ("LC_CTYPE", "C"), ("LANGUAGE", "tr")],
        &[("LC_ALL", "C.UTF-8"), ("USER", "nobody"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("COLUMNS", "40")],
        &[("SOURCE_DATE_EPOCH", "0"), ("DEBUG", "1"), ("RUST_LOG", "trace"), ("CARGO_MANIFEST_DIR", "/repo"), ("OUT_DIR", "/tmp"), ("CI", "true")],
        &[("TMPDIR", "/nonexistent"), ("PWD", "/nonexistent"), ("HOSTNAME", "other"), ("CARGO_PKG_NAME", "other"), ("CARGO_PKG_VERSION", "9.9.9")],
        &[("LD_BIND_NOW", "1"), ("RUST_MIN_STACK", "16777216"), ("MALLOC_ARENA_MAX", "1")],
    ];
    let dirs = ["/", "/tmp", "/proc"];
    // the environment given alone, or added to this one
    let procs = envs.len() * dirs.len() * 2;
    ctx.bound(format!("{} further processes ({} environments, alone or added to the present one, in {} directories) and 8 free-running threads over all {} files; in every second process each file a hundred times", procs, envs.len(), dirs.len(), texts.len()));
    if ctx.replay.is_none() {
        let exe = std::env::current_exe().unwrap();
        let line: Vec<String> = want.iter().map(|w| format!("{:?}\n", Ok::<_, String>(w))).collect();
        let expect = line.concat();
        for p in 0..procs {
            let mut cmd = std::process::Command::new(&exe);
            cmd.arg("emit").arg(["1", "100"][p % 2]).current_dir(dirs[p / 2 % 3]);
            if p % 2 == 0 {
                cmd.env_clear();
            }
            let o = cmd.envs(envs[p / 6].iter().copied()).output().unwrap();
            let got = String::from_utf8_lossy(&o.stdout).into_owned();
            if got != expect {
                let i = got.lines().zip(expect.lines()).position(|(a, b)| a != b).unwrap_or(0);
                ctx.report(viol("process-dependent", format!("environment {:?}{}, directory {}: {}", envs[p / 6], ["", " added"][p % 2], dirs[p / 2 % 3], texts.get(i).cloned().unwrap_or_default()), expect.lines().nth(i).unwrap_or("").to_string(), got.lines().nth(i).unwrap_or("").to_string()));
            }
        }
        let barrier = std::sync::Barrier::new(8);
        std::thread::scope(|s| {
            for t in 0..8 {
                let (texts, want, barrier) = (&texts, &want, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    for k in 0..texts.len() {
                        let i = (k * (t % 3 + 1) + t) % texts.len();
                        let got = generate(&texts[i]).unwrap_or_else(|e| format!("<<{}>>", e));
                        if got != want[i] {
                            ctx.report(viol("thread-dependent", texts[i].clone(), want[i].clone(), got));
                        }
                    }
                });
            }
        });
        ctx.add("processes and free threads", (procs + 8) as u64, ((procs + 8) * texts.len()) as u64, ((procs + 8) * texts.len()) as u64);
        ctx.class("same text in other processes and threads", ((procs + 8) * texts.len()) as u64);
    }
}
