//! C10: documentation only ever produces comments, and does produce them.
use crate::ir::*;
use crate::mc::*;
use crate::model::*;
use crate::refs::*;
use crate::*;

/// Schemas which between them contain every component that may carry documentation.
pub fn corpus() -> Vec<Schema> {
    let inner = |n: &str| Box::new(complex("", seq(vec![elem(n, xs("int"))])));
    let with = |c: Content, attrs: Vec<AttrItem>| Complex { name: "Holder".into(), doc: None, content: c, attrs };
    let base = || Item::Complex(complex("Base", seq(vec![elem("x", xs("string"))])));
    vec![
        // 0: members of every kind
        schema(vec![Item::Complex(with(
            Content::Seq(vec![
                Particle::Elem(elem("plain", xs("int"))),
                Particle::Elem(Elem { name: "list".into(), ty: ElemTy::Named(tn("Part")), min: Some("0"), max: Some("unbounded"), doc: None }),
                Particle::Elem(anon("inner", ElemTy::Complex(inner("deep")))),
                Particle::Elem(anon("mode", ElemTy::Simple(Box::new(enumeration("", &["On", "Off"]))))),
                Particle::Any { min: None, max: None },
            ]),
            vec![attr("code", xs("int")), AttrItem::Ref { to: other("kind"), us: Use::Required }, AttrItem::Any],
        ))]),
        // 1: alternatives
        schema(vec![Item::Complex(with(Content::Choice(vec![elem("one", xs("int")), anon("two", ElemTy::Untyped)]), vec![attr("code", xs("int"))]))]),
        schema(vec![Item::Complex(with(Content::Seq(vec![Particle::Choice(vec![elem("one", xs("int")), elem("two", xs("string"))]), Particle::Elem(elem("last", xs("int")))]), vec![]))]),
        // 3: all
        schema(vec![Item::Complex(with(Content::All(vec![Particle::Elem(elem("plain", xs("int")))]), vec![]))]),
        schema(vec![Item::Complex(with(Content::None, vec![attr("code", xs("int"))]))]),
        // 5: simple types
        schema(vec![Item::Simple(enumeration("Mode", &["On", "Off"])), Item::Simple(simple("Other", SimpleDef::List(tn("Mode"))))]),
        schema(vec![Item::Simple(simple("Range", SimpleDef::Restr { base: xs("int"), facets: vec![facet("minInclusive", "1"), facet("maxExclusive", "9")] }))]),
        schema(vec![Item::Simple(simple("Either", SimpleDef::Union(vec![xs("int")], vec![enumeration("", &["On"]), simple("", SimpleDef::List(xs("int")))])))]),
        schema(vec![Item::Simple(simple("Nested", SimpleDef::ListOf(Box::new(enumeration("", &["On", "Off"])))))]),
        // 9: derivation
        schema(vec![
            base(),
            Item::Complex(with(Content::Derived { restriction: false, base: tn("Base"), content: Box::new(seq(vec![elem("more", xs("int"))])), attrs: vec![attr("code", xs("int"))] }, vec![])),
        ]),
        schema(vec![base(), Item::Complex(with(Content::Derived { restriction: true, base: tn("Base"), content: Box::new(Content::None), attrs: vec![attr("code", xs("int"))] }, vec![]))]),
        schema(vec![Item::Complex(with(Content::SimpleExt { base: xs("int"), attrs: vec![attr("unit", xs("string"))] }, vec![]))]),
        // 12: global elements and attributes
        schema(vec![Item::Element(GElem { name: "root".into(), doc: None, ty: ElemTy::Named(tn("Holder")) }), Item::Complex(with(seq(vec![elem("x", xs("int"))]), vec![]))]),
        schema(vec![Item::Element(GElem { name: "root".into(), doc: None, ty: ElemTy::Complex(inner("x")) })]),
        schema(vec![Item::Element(GElem { name: "root".into(), doc: None, ty: ElemTy::Simple(Box::new(enumeration("", &["On", "Off"]))) })]),
        schema(vec![Item::Element(GElem { name: "root".into(), doc: None, ty: ElemTy::Untyped })]),
        schema(vec![Item::Element(GElem { name: "root".into(), doc: None, ty: ElemTy::Complex(Box::new(complex("", Content::Choice(vec![elem("one", xs("int"))])))) })]),
        schema(vec![Item::Attribute(GAttr { name: "kind".into(), doc: None, ty: GAttrTy::Named(xs("int")) })]),
        schema(vec![Item::Attribute(GAttr { name: "kind".into(), doc: None, ty: GAttrTy::Simple(wrapper("", xs("int"))) })]),
        // 19: attribute groups and imports
        schema(vec![
            Item::AttrGroup(AttrGroup { name: "Common".into(), attrs: vec![attr("code", xs("int"))], doc: None }),
            Item::Complex(with(Content::None, vec![AttrItem::Group(tn("Common"))])),
        ]),
        schema(vec![Item::Import { namespace: "http://other.example.com".into(), location: "other.xsd".into(), include: false }, Item::Import { namespace: String::new(), location: "more.xsd".into(), include: true }, base()]),
        // 21: a member that is inherited
        schema(vec![
            Item::Complex(complex("Base", seq(vec![anon("inner", ElemTy::Complex(inner("deep")))]))),
            Item::Complex(with(Content::Derived { restriction: false, base: tn("Base"), content: Box::new(Content::None), attrs: vec![] }, vec![])),
        ]),
        schema(vec![
            base(),
            Item::Complex(with(Content::Derived { restriction: false, base: tn("Base"), content: Box::new(Content::Choice(vec![elem("one", xs("int"))])), attrs: vec![] }, vec![])),
        ]),
    ]
}

/// End offsets of all start tags in a rendered schema, with the local name of the tag.
fn places(t: &str) -> Vec<(usize, String)> {
    let mut out = vec![];
    let mut i = 0;
    while let Some(p) = t[i..].find('<') {
        let s = i + p;
        let e = s + t[s..].find('>').unwrap();
        if !t[s..].starts_with("</") {
            let tag = t[s + 1..e].split(|c: char| c.is_whitespace()).next().unwrap();
            out.push((e + 1, tag.rsplit(':').next().unwrap().to_string()));
        }
        i = e;
    }
    out
}

fn xml_text(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o += "&amp;",
            '<' => o += "&lt;",
            '>' => o += "&gt;",
            '\r' => o += "&#13;",
            c => o.push(c),
        }
    }
    o
}

/// Ways to write documentation: plain text, and forms whose words need not survive.
fn annotation(form: usize, text: &str) -> (String, bool) {
    let t = xml_text(text);
    match form {
        0 => (format!("<xs:annotation><xs:documentation>{}</xs:documentation></xs:annotation>", t), true),
        1 => (format!("<xs:annotation>\n  <xs:documentation xml:lang=\"en\" source=\"urn:x\">\n    {}\n  </xs:documentation>\n</xs:annotation>", t), true),
        2 => (format!("<xs:annotation><xs:appinfo><tns:element name=\"evil\"/>{}</xs:appinfo></xs:annotation>", t), false),
        3 => (format!("<xs:annotation><xs:documentation><p>{}</p></xs:documentation><xs:documentation>{}</xs:documentation></xs:annotation>", t, t), false),
        4 => (format!("<xs:annotation id=\"a\"><xs:documentation>{} <xs:element name=\"evil\" type=\"xs:int\"/> {}</xs:documentation></xs:annotation>", t, t), false),
        5 => ("<xs:annotation/>".into(), false),
        6 => ("<xs:annotation><xs:documentation/></xs:annotation>".into(), false),
        7 => (format!("<xs:annotation><xs:appinfo>note</xs:appinfo><xs:documentation>{}</xs:documentation></xs:annotation>", t), true),
        _ => (format!("<xs:annotation><!-- c --><?pi?><xs:documentation><![CDATA[{}]]></xs:documentation></xs:annotation>", text.replace("]]>", "")), true),
    }
}
const FORMS: usize = 9;

pub fn words_of(comments: &[(usize, String)]) -> Vec<String> {
    comments.iter().flat_map(|c| c.1.split_whitespace().map(|w| w.to_string()).collect::<Vec<_>>()).collect()
}

/// Whether documentation of the component at the place is documentation of a type, field or value.
fn documents(tag: &str) -> bool {
    matches!(tag, "complexType" | "simpleType" | "element" | "attribute" | "enumeration")
}

struct Case {
    schema: usize,
    text: String,
    /// (place, tag, form, text)
    notes: Vec<(usize, String, usize, String)>,
}

pub fn c10(ctx: &Ctx) {
    let corpus = corpus();
    let texts: Vec<String> = corpus.iter().map(render).collect();
    let plain: Vec<String> = texts
        .iter()
        .map(|t| match generate(t) {
            Ok(s) => tokens_of(&s).unwrap_or_else(|e| format!("<<{}>>", e)),
            Err(e) => format!("<<{}>>", e),
        })
        .collect();
    let make = |schema: usize, notes: Vec<(usize, usize, String)>| -> Case {
        let pl = places(&texts[schema]);
        let mut out = texts[schema].clone();
        let mut sorted = notes.clone();
        sorted.sort();
        for (k, form, text) in sorted.iter().rev() {
            out.insert_str(pl[*k].0, &annotation(*form, text).0);
        }
        Case { schema, text: out, notes: notes.into_iter().map(|(k, f, t)| (k, pl[k].1.clone(), f, t)).collect() }
    };
    let verify = |c: &Case| -> Result<Obs, Viol> {
        let src = generate(&c.text).map_err(|e| viol("generation-fails", c.text.clone(), "generated code", e))?;
        let t = tokens_of(&src).map_err(|e| viol("invalid-rust", c.text.clone(), "valid Rust", format!("{}\n{}", e, src)))?;
        if t != plain[c.schema] {
            return Err(viol("code-changed", c.text.clone(), format!("the code without documentation: {}", plain[c.schema]), format!("{}\nSOURCE:\n{}", t, src)));
        }
        let have = words_of(&comments(&src));
        for (_, tag, form, text) in &c.notes {
            let want: Vec<&str> = text.split_whitespace().collect();
            if !documents(tag) || !annotation(*form, text).1 || want.len() < 2 {
                continue;
            }
            if !have.windows(want.len()).any(|w| w == &want[..]) {
                return Err(viol(format!("words-lost/{}", tag), c.text.clone(), format!("words {:?} in the comments", want), format!("{:?}\nSOURCE:\n{}", have, src)));
            }
        }
        ok(1, "same code")
    };
    let tokens: Vec<String> = [
        " ", "\n", "\r\n", "\t", "ab", "*/", "/*", "//", "///", "//!", "\"q\"", "\\n", "{}", "};", "#[x]", "r#\"", "é中", "\u{2028}xx", "pub", "fn main(){}", "<a>", "&amp;",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain([("long".to_string() + &"x".repeat(90)), "y".repeat(76), "\r".into(), "\u{85}zz".into()])
    .collect();
    let len = if ctx.thorough() { 4 } else { 3 };
    // the main kinds of component, one place each: (schema, place)
    let spots: Vec<(usize, usize)> = {
        let mut v: Vec<(usize, usize)> = vec![];
        let mut seen = std::collections::BTreeSet::new();
        for (i, t) in texts.iter().enumerate() {
            for (k, (_, tag)) in places(t).iter().enumerate() {
                let parent = if k == 0 { String::new() } else { places(t)[k - 1].1.clone() };
                if tag != "schema" && documents(tag) && seen.insert((tag.clone(), parent)) {
                    v.push((i, k));
                }
            }
        }
        v
    };
    ctx.bound(format!("texts: all sequences of up to {} of {} tokens (blanks, line breaks, comment openers and closers, quotes, code, long words) x {} kinds of place", len, tokens.len(), spots.len()));
    ctx.explore(
        "texts",
        0,
        |c| {
            let (i, k) = *c.pick(&spots);
            let n = 1 + c.choose(len);
            let t: String = (0..n).map(|_| c.pick(&tokens).clone()).collect();
            // lines of a single character may be left out: not in the alphabet
            Some(make(i, vec![(k, 0, t)]))
        },
        |c| hash64(&(c.schema, c.text.as_str())),
        |c| c.text.clone(),
        verify,
    );
    // where lines are broken: word lengths around every column, many words, many lines
    let word = |letter: &str, k: usize, n: usize| -> String {
        let head: String = k.to_string().chars().take(n.saturating_sub(1)).collect();
        format!("{}{}", head, letter.repeat(n - head.len()))
    };
    let top = if ctx.thorough() { 200 } else { 130 };
    ctx.bound(format!("lengths: a word of every length up to {} followed by words of 11 lengths, in one-, two- and three-byte letters; up to 400 words of 6 lengths; up to 200 lines; x {} kinds of place", top, spots.len()));
    ctx.explore(
        "lengths",
        0,
        |c| {
            let (i, k) = *c.pick(&spots);
            let letter = *c.pick(&["a", "é", "日"]);
            let t = match c.choose(3) {
                0 => {
                    let first = word(letter, 0, 1 + c.choose(top));
                    let n = *c.pick(&[1usize, 2, 3, 5, 9, 20, 39, 40, 74, 80, 100]);
                    format!("{} {} {}", first, word(letter, 1, n), word(letter, 2, 2))
                }
                1 => {
                    let n = *c.pick(&[1usize, 2, 5, 9, 13, 38]);
                    let count = *c.pick(&[3usize, 10, 25, 50, 100, 257, 400]);
                    (0..count).map(|j| word(letter, j, n)).collect::<Vec<_>>().join(" ")
                }
                _ => {
                    let n = *c.pick(&[2usize, 7, 60, 81]);
                    let count = *c.pick(&[2usize, 3, 9, 10, 11, 33, 100, 200]);
                    (0..count).map(|j| format!("{} {}", word(letter, j, n), j)).collect::<Vec<_>>().join(*c.pick(&["\n", "\r\n", "\n\n", "\n    "]))
                }
            };
            Some(make(i, vec![(k, 0, t)]))
        },
        |c| hash64(&(c.schema, c.text.as_str())),
        |c| c.text.clone(),
        verify,
    );
    let few = ["two words", "first line\n\n  second line\r\nthird */ /* line", "a quite long line of documentation which has to be broken somewhere because it does not fit into eighty columns"];
    ctx.bound(format!("places: every place of {} schemas x {} ways of writing an annotation x {} texts; every pair of places; all places at once", corpus.len(), FORMS, few.len()));
    ctx.explore(
        "places",
        0,
        |c| {
            let i = c.choose(corpus.len());
            let n = places(&texts[i]).len();
            // schema itself excluded from forms that are declarations of their own
            let k = c.choose(n);
            let form = c.choose(FORMS);
            Some(make(i, vec![(k, form, c.pick(&few).to_string())]))
        },
        |c| hash64(&(c.schema, c.text.as_str())),
        |c| c.text.clone(),
        verify,
    );
    ctx.explore(
        "pairs of places",
        0,
        |c| {
            let i = c.choose(corpus.len());
            let n = places(&texts[i]).len();
            let k = c.choose(n);
            let l = c.choose(n);
            let (f, g) = (c.choose(2), c.choose(FORMS));
            if k >= l {
                return None;
            }
            let texts = [("alpha beta gamma", few[1]), (few[1], "alpha beta gamma"), ("same words here", "same words here"), ("head of it", "head of it and more"), ("head of it and more", "of it and")];
            let (a, b) = *c.pick(&texts);
            Some(make(i, vec![(k, f, a.into()), (l, g, b.into())]))
        },
        |c| hash64(&(c.schema, c.text.as_str())),
        |c| c.text.clone(),
        verify,
    );
    ctx.explore(
        "all places",
        0,
        |c| {
            let i = c.choose(corpus.len());
            let n = places(&texts[i]).len();
            let form = c.choose(FORMS);
            let skip = c.choose(n + 1);
            Some(make(i, (0..n).filter(|k| *k != skip).map(|k| (k, form, format!("note number {} here", k))).collect()))
        },
        |c| hash64(&(c.schema, c.text.as_str())),
        |c| c.text.clone(),
        verify,
    );
}

/// Visits every place for documentation.
pub fn redocumented(mut s: Schema, f: &mut dyn FnMut(&mut Doc)) -> Schema {
    for i in s.items.iter_mut() {
        match i {
            Item::Complex(c) => complex_docs(c, f),
            Item::Simple(s) => simple_docs(s, f),
            Item::Element(e) => {
                f(&mut e.doc);
                type_docs(&mut e.ty, f)
            }
            Item::Attribute(a) => {
                f(&mut a.doc);
                if let GAttrTy::Simple(s) = &mut a.ty {
                    simple_docs(s, f)
                }
            }
            // documentation of a group shows where the group is used
            _ => {}
        }
    }
    s
}
fn attr_docs(v: &mut [AttrItem], f: &mut dyn FnMut(&mut Doc)) {
    for a in v {
        if let AttrItem::Attr { doc, us, .. } = a {
            if !matches!(us, Use::Prohibited) {
                f(doc)
            }
        }
    }
}
fn elem_docs(e: &mut Elem, f: &mut dyn FnMut(&mut Doc)) {
    f(&mut e.doc);
    type_docs(&mut e.ty, f)
}
fn type_docs(t: &mut ElemTy, f: &mut dyn FnMut(&mut Doc)) {
    match t {
        ElemTy::Complex(c) => complex_docs(c, f),
        ElemTy::Simple(s) => simple_docs(s, f),
        _ => {}
    }
}
fn simple_docs(s: &mut Simple, f: &mut dyn FnMut(&mut Doc)) {
    f(&mut s.doc);
    definition_docs(&mut s.def, f)
}
fn definition_docs(d: &mut SimpleDef, f: &mut dyn FnMut(&mut Doc)) {
    match d {
        // values which become variants
        SimpleDef::Restr { facets, .. } if facets.iter().all(|x| x.kind != "enumeration" || is_plain_word(&x.value)) => facets.iter_mut().filter(|x| x.kind == "enumeration").for_each(|x| f(&mut x.doc)),
        SimpleDef::ListOf(i) => {
            // a wrapped item leaves no type of its own
            let kept = matches!(&i.def, SimpleDef::Restr { facets, .. } if facets.iter().any(|x| x.kind == "enumeration"));
            if kept {
                simple_docs(i, f)
            } else {
                definition_docs(&mut i.def, f)
            }
        }
        SimpleDef::Union(_, a) => a.iter_mut().for_each(|x| simple_docs(x, f)),
        _ => {}
    }
}
fn content_docs(c: &mut Content, f: &mut dyn FnMut(&mut Doc)) {
    match c {
        Content::Seq(v) | Content::All(v) => {
            for p in v {
                match p {
                    Particle::Elem(e) => elem_docs(e, f),
                    Particle::Choice(v) => v.iter_mut().for_each(|e| elem_docs(e, f)),
                    _ => {}
                }
            }
        }
        Content::Choice(v) => v.iter_mut().for_each(|e| elem_docs(e, f)),
        Content::SimpleExt { attrs, .. } => attr_docs(attrs, f),
        Content::Derived { content, attrs, .. } => {
            content_docs(content, f);
            attr_docs(attrs, f)
        }
        _ => {}
    }
}
fn complex_docs(c: &mut Complex, f: &mut dyn FnMut(&mut Doc)) {
    f(&mut c.doc);
    content_docs(&mut c.content, f);
    attr_docs(&mut c.attrs, f)
}
