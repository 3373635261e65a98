//! Documents around one value type: how the value is spelt, what surrounds it, what is written.
use crate::mc::*;
use crate::types::*;

fn esc(c: char) -> String {
    match c {
        '<' => "&lt;".into(),
        '&' => "&amp;".into(),
        '"' => "&quot;".into(),
        c => c.to_string(),
    }
}
fn text(s: &str) -> String {
    s.chars().map(esc).collect()
}

/// One way of writing the characters of a literal into an element.
#[derive(Clone, Debug)]
enum Spell {
    Plain,
    Around(&'static str, &'static str),
    /// a comment (false) or processing instruction (true) before the i-th character
    Split(Vec<(usize, bool)>),
    Cdata,
    CdataFrom(usize, usize),
    Refs(bool),
    SelfClosing,
    EmptyCdata,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Deco {
    None,
    OtherPrefix,
    DefaultNs,
    ExtraNs,
    ForeignAttr,
    SameNamedAttr,
    SpaceInTag,
}

fn content(sp: &Spell, lit: &str) -> Option<String> {
    let cs: Vec<char> = lit.chars().collect();
    let ws = |i: usize| (i > 0 && cs[i - 1] == ' ') || (i < cs.len() && cs[i] == ' ');
    Some(match sp {
        Spell::Plain => text(lit),
        Spell::Around(a, b) => format!("{}{}{}", a, text(lit), b),
        Spell::Split(at) => {
            let mut o = String::new();
            for i in 0..=cs.len() {
                for (p, pi) in at {
                    if *p == i {
                        // next to white space the reader trims the pieces: outside the model
                        if ws(i) {
                            return None;
                        }
                        o += if *pi { "<?pi 7?>" } else { "<!-- 7 -->" };
                    }
                }
                if i < cs.len() {
                    o += &esc(cs[i]);
                }
            }
            o
        }
        Spell::Cdata => format!("<![CDATA[{}]]>", lit),
        Spell::CdataFrom(a, b) => {
            if ws(*a) || ws(*b) {
                return None;
            }
            let s = |r: &[char]| r.iter().map(|c| esc(*c)).collect::<String>();
            format!("{}<![CDATA[{}]]>{}", s(&cs[..*a]), cs[*a..*b].iter().collect::<String>(), s(&cs[*b..]))
        }
        Spell::Refs(hex) => cs.iter().map(|c| if *hex { format!("&#x{:x};", *c as u32) } else { format!("&#{};", *c as u32) }).collect(),
        Spell::SelfClosing if lit.is_empty() => String::new(),
        Spell::EmptyCdata if lit.is_empty() => "<![CDATA[]]>".into(),
        _ => return None,
    })
}

fn element(ns: bool, name: &str, sp: &Spell, deco: Deco, lit: &str) -> Option<String> {
    let c = content(sp, lit)?;
    let (open, close) = match deco {
        _ if !ns && matches!(deco, Deco::OtherPrefix | Deco::DefaultNs) => return None,
        Deco::OtherPrefix => (format!("q:{} xmlns:q=\"urn:p\"", name), format!("q:{}", name)),
        Deco::DefaultNs => (format!("{} xmlns=\"urn:p\"", name), name.to_string()),
        _ => {
            let n = if ns { format!("p:{}", name) } else { name.to_string() };
            let a = match deco {
                Deco::ExtraNs => " xmlns:z=\"urn:z\"",
                Deco::ForeignAttr => " xmlns:z=\"urn:z\" z:note=\"9\"",
                Deco::SameNamedAttr => " at=\"9\" value=\"9\" plain=\"9\"",
                Deco::SpaceInTag => "\n\t ",
                _ => "",
            };
            (format!("{}{}", n, a), if deco == Deco::SpaceInTag { format!("{} ", n) } else { n })
        }
    };
    Some(if matches!(sp, Spell::SelfClosing) { format!("<{}/>", open) } else { format!("<{}>{}</{}>", open, c, close) })
}

fn attr(sp: &Spell, name: &str, lit: &str) -> Option<String> {
    Some(match sp {
        Spell::Plain => format!(" {}=\"{}\"", name, text(lit)),
        Spell::Around(a, b) => format!(" {}=\"{}{}{}\"", name, a, text(lit), b),
        Spell::Cdata => format!(" {}='{}'", name, text(lit)),
        Spell::Refs(_) => format!(" {} = \"{}\"", name, content(sp, lit)?),
        _ => return None,
    })
}

fn spell(c: &mut Chooser, lit: &str, deep: bool) -> Spell {
    let n = lit.chars().count();
    match c.choose(9) {
        0 => Spell::Plain,
        1 => {
            let e = ["", " ", "\n  ", "\t\r\n"];
            Spell::Around(c.pick(&e), c.pick(&e))
        }
        2 => Spell::Split(vec![(c.choose(n + 1), c.flag())]),
        3 => {
            let a = c.choose(n + 1);
            let b = if deep { c.choose(n + 1) } else { (a + 1).min(n) };
            Spell::Split(vec![(a, c.flag()), (b, c.flag())])
        }
        4 => Spell::Cdata,
        5 => {
            let a = c.choose(n + 1);
            let b = a + c.choose(n + 1 - a);
            Spell::CdataFrom(a, b)
        }
        6 => Spell::Refs(c.flag()),
        7 => Spell::SelfClosing,
        _ => Spell::EmptyCdata,
    }
}

const DECOS: [Deco; 7] = [Deco::None, Deco::OtherPrefix, Deco::DefaultNs, Deco::ExtraNs, Deco::ForeignAttr, Deco::SameNamedAttr, Deco::SpaceInTag];

/// White space at the edges of a literal belongs to the value.
fn keeps_space(o: &Ops) -> bool {
    o.name.starts_with("wrapper of string") || o.name.starts_with("union of int and string") || o.name.contains("list of int and string")
}

fn dbg(o: &Ops, lit: &str) -> String {
    (o.parse)(lit).unwrap_or_else(|| panic!("{}: {:?} is a literal", o.name, lit))
}

fn model(o: &Ops, c: &Content) -> Content {
    let d = |s: &String| dbg(o, s);
    Content {
        at: c.at.as_ref().map(d),
        first: c.first.clone(),
        plain: d(&c.plain),
        opt: c.opt.as_ref().map(d),
        many: c.many.iter().map(d).collect(),
        bare: c.bare.as_ref().map(d),
        nested: c.nested.as_ref().map(|(a, b)| (d(a), d(b))),
        last: c.last.clone(),
    }
}

fn nonempty<'a>(o: &'a Ops, i: usize) -> &'a str {
    o.valid[i % o.valid.len()]
}

struct Doc {
    ty: usize,
    kind: usize,
    xml: String,
    want: Result<Content, ()>,
    pick: Option<Result<Pick, ()>>,
    root: Option<Result<String, ()>>,
}

fn check_doc(ops: &[Ops], d: &Doc) -> Result<Obs, Viol> {
    let o = &ops[d.ty];
    let (got, want) = if let Some(w) = &d.root {
        ((o.read_root)(&d.xml).map(|v| format!("{:?}", v)), w.as_ref().map(|v| format!("{:?}", v)))
    } else if let Some(w) = &d.pick {
        ((o.read_pick)(&d.xml).map(|v| format!("{:?}", v)), w.as_ref().map(|v| format!("{:?}", v)))
    } else {
        ((o.read[d.kind])(&d.xml).map(|v| format!("{:?}", v)), d.want.as_ref().map(|v| format!("{:?}", v)))
    };
    match (&got, &want) {
        (Err(_), Err(_)) => ok(1, "refused as modelled"),
        (Ok(a), Ok(b)) if a == b => ok(1, "read as modelled"),
        _ => Err(viol(
            format!("read:{}", o.name),
            format!("{}: {}", o.name, d.xml),
            match want {
                Ok(w) => w,
                Err(_) => "an error: the literal is not one of the type".into(),
            },
            match got {
                Ok(g) => g,
                Err(e) => format!("error: {}", e),
            },
        )),
    }
}

// ---------------------------------------------------------------- documents
const NS_HOLDER: &str = " xmlns:p=\"urn:p\"";

fn holder_open(ns: bool, name: &str) -> (String, String) {
    if ns {
        (format!("p:{}{}", name, NS_HOLDER), format!("p:{}", name))
    } else {
        (name.to_string(), name.to_string())
    }
}

fn simple(ns: bool, name: &str, lit: &str) -> String {
    if lit.is_empty() {
        element(ns, name, &Spell::SelfClosing, Deco::None, lit).unwrap()
    } else {
        element(ns, name, &Spell::Plain, Deco::None, lit).unwrap()
    }
}

fn spellings(ctx: &Ctx, ops: &[Ops], what: &str) {
    let deep = ctx.thorough();
    ctx.bound(what.to_string() + "spellings: every type x position (attribute, plain, optional, repeated first/second/third, unprefixed, nested child, nested attribute, choice alternatives, document root; holder with and without namespace) x 3 valid and up to 3 invalid literals x {as is, white space around, comment or processing instruction before every character and pairs of them, CDATA whole and every part, character references, empty element forms} x 7 decorations of the element");
    ctx.explore(
        &format!("{}spellings of one value", what),
        0,
        |c| {
            let ty = c.choose(ops.len());
            let o = &ops[ty];
            let li = c.choose(o.valid.len() + o.invalid.len());
            let (lit, good) = if li < o.valid.len() { (o.valid[li], true) } else { (o.invalid[li - o.valid.len()], false) };
            let pos = c.choose(14);
            let sp = spell(c, lit, deep);
            if keeps_space(o) && matches!(sp, Spell::Around(a, b) if a != b || !a.is_empty()) {
                return None;
            }
            let is_attr = pos < 2;
            let deco = if is_attr { Deco::None } else { *c.pick(&DECOS) };
            let kind = if (9..=13).contains(&pos) { 0 } else { c.choose(2) };
            let ns = kind == 0;
            let v = |i: usize| nonempty(o, li + 1 + i).to_string();
            let el = |name: &str, here: bool, l: &str| -> Option<String> {
                if here {
                    element(ns, name, &sp, deco, lit)
                } else {
                    Some(simple(ns, name, l))
                }
            };
            if pos == 13 {
                // document root: the element's name is the user's choice
                if matches!(deco, Deco::OtherPrefix | Deco::DefaultNs) {
                    return None;
                }
                let xml = element(false, "it", &sp, deco, lit)?;
                return Some(Doc { ty, kind, xml, want: Err(()), pick: None, root: Some(if good { Ok(dbg(o, lit)) } else { Err(()) }) });
            }
            if pos >= 9 {
                let (open, close) = holder_open(true, "pick");
                let mut p = Pick { alt: 0, vals: vec![], first: Some("f".into()), last: Some("z".into()) };
                let mut x = format!("<{}>{}", open, simple(true, "first", "f"));
                match pos {
                    9 | 10 => {
                        p.alt = pos - 9;
                        p.vals = vec![lit.to_string()];
                        x += &el(["one", "two"][p.alt], true, lit)?;
                    }
                    _ => {
                        p.alt = 2;
                        for i in 0..3 {
                            let here = i == pos - 11;
                            let l = if here { lit.to_string() } else { v(i) };
                            x += &el("three", here, &l)?;
                            p.vals.push(l);
                        }
                    }
                }
                x += &simple(true, "last", "z");
                x += &format!("</{}>", close);
                let want = if good {
                    p.vals = p.vals.iter().map(|l| dbg(o, l)).collect();
                    Ok(p)
                } else {
                    Err(())
                };
                return Some(Doc { ty, kind, xml: x, want: Err(()), pick: Some(want), root: None });
            }
            let mut k = Content { at: Some(v(0)), first: Some("f".into()), plain: v(1), opt: Some(v(2)), many: vec![v(0), v(1), v(2)], bare: Some(v(1)), nested: Some((v(2), v(0))), last: Some("z".into()) };
            let at = if pos == 0 { attr(&sp, "at", lit)? } else { attr(&Spell::Plain, "at", k.at.as_ref().unwrap())? };
            let na = if pos == 1 { attr(&sp, "na", lit)? } else { attr(&Spell::Plain, "na", &k.nested.as_ref().unwrap().0)? };
            let (open, close) = holder_open(ns, "holder");
            let mut x = format!("<{}{}>", open, at);
            x += &simple(ns, "first", "f");
            x += &el("plain", pos == 2, &k.plain)?;
            x += &el("opt", pos == 3, k.opt.as_ref().unwrap())?;
            for i in 0..3 {
                x += &el("many", pos == 4 + i, &k.many[i])?;
            }
            x += &if pos == 7 { element(false, "bare", &sp, deco, lit)? } else { simple(false, "bare", k.bare.as_ref().unwrap()) };
            let pre = if ns { "p:" } else { "" };
            x += &format!("<{}nested{}>{}</{}nested>", pre, na, el("inner", pos == 8, &k.nested.as_ref().unwrap().1)?, pre);
            x += &simple(ns, "last", "z");
            x += &format!("</{}>", close);
            let l = lit.to_string();
            match pos {
                0 => k.at = Some(l),
                1 => k.nested.as_mut().unwrap().0 = l,
                2 => k.plain = l,
                3 => k.opt = Some(l),
                4..=6 => k.many[pos - 4] = l,
                7 => k.bare = Some(l),
                _ => k.nested.as_mut().unwrap().1 = l,
            }
            Some(Doc { ty, kind, xml: x, want: if good { Ok(model(o, &k)) } else { Err(()) }, pick: None, root: None })
        },
        |d| hash64(&(d.ty, d.kind, &d.xml)),
        |d| format!("{}: {}", ops[d.ty].name, d.xml),
        |d| check_doc(ops, d),
    );
}

const NOISE: [&str; 9] = [
    "",
    " \n\t",
    "<!-- 7 -->",
    "<?pi 7?>",
    "<p:other>12</p:other>",
    "<p:other/>",
    "<x:other xmlns:x=\"urn:x\"><p:plain>9</p:plain><p:many>7</p:many><opt/></x:other>",
    "<p:other><p:other><p:holder at=\"3\"/></p:other>tail</p:other>",
    "<!-- <p:plain>9</p:plain> --> <?pi?> \n",
];

fn arrangements(ctx: &Ctx, ops: &[Ops], what: &str) {
    let budget = if ctx.thorough() { 3 } else { 2 };
    ctx.bound(format!("{}arrangements: every type x up to {} deviations from the full document among: each optional part absent, 0..5 repeats, another rotation of values, one of 8 kinds of surrounding content (white space, comments, processing instructions, unknown elements empty, with text, with nested known names) in any of the gaps or inside the nested element, any child moved to any place, a foreign attribute, no namespace", what, budget));
    ctx.explore(
        &format!("{}arrangements of siblings", what),
        budget,
        |c| {
            let ty = c.choose(ops.len());
            let o = &ops[ty];
            let kind = c.dev(2);
            let ns = kind == 0;
            let rot = c.dev(3);
            let v = |i: usize| nonempty(o, rot + i).to_string();
            let at = if c.dev(2) == 0 { Some(v(0)) } else { None };
            let first = if c.dev(2) == 0 { Some("f".to_string()) } else { None };
            let opt = if c.dev(2) == 0 { Some(v(2)) } else { None };
            let many: Vec<String> = (0..[3, 0, 1, 2, 4, 5][c.dev(6)]).map(v).collect();
            let bare = if c.dev(2) == 0 { Some(v(1)) } else { None };
            let nested = if c.dev(2) == 0 { Some((v(2), v(0))) } else { None };
            let last = if c.dev(2) == 0 { Some("z".to_string()) } else { None };
            let foreign = c.dev(3);
            let k = Content { at, first, plain: v(1), opt, many, bare, nested, last };
            let noise = |c: &mut Chooser| {
                let n = c.dev(NOISE.len());
                if ns {
                    NOISE[n].to_string()
                } else {
                    NOISE[n].replace("p:", "")
                }
            };
            let mut kids: Vec<String> = vec![];
            if let Some(f) = &k.first {
                kids.push(simple(ns, "first", f));
            }
            kids.push(simple(ns, "plain", &k.plain));
            if let Some(f) = &k.opt {
                kids.push(simple(ns, "opt", f));
            }
            for m in &k.many {
                kids.push(simple(ns, "many", m));
            }
            if let Some(f) = &k.bare {
                kids.push(simple(false, "bare", f));
            }
            if let Some((a, b)) = &k.nested {
                let pre = if ns { "p:" } else { "" };
                let (n1, n2) = (noise(c), noise(c));
                kids.push(format!("<{}nested{}>{}{}{}</{}nested>", pre, attr(&Spell::Plain, "na", a).unwrap(), n1, simple(ns, "inner", b), n2, pre));
            }
            if let Some(f) = &k.last {
                kids.push(simple(ns, "last", f));
            }
            // move one child elsewhere (repeats keep their order: moving one past another of its kind is not modelled)
            let from = c.dev(kids.len() + 1);
            if from > 0 {
                let to = c.choose(kids.len());
                let kid = kids.remove(from - 1);
                if kid.contains("many") && (from - 1).abs_diff(to) > 0 {
                    let (lo, hi) = (to.min(from - 1), to.max(from - 1));
                    if kids[lo..hi].iter().any(|x| x.contains("<p:many>") || x.contains("<many>") || x.contains("many/>")) {
                        return None;
                    }
                }
                kids.insert(to, kid);
            }
            let (open, close) = holder_open(ns, "holder");
            let mut x = String::new();
            if c.dev(2) == 1 {
                x += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- p:holder --><?pi?>\n";
            }
            x += &format!("<{}{}{}>", open, k.at.as_ref().map(|a| attr(&Spell::Plain, "at", a).unwrap()).unwrap_or_default(), ["", " xmlns:z=\"urn:z\" z:other=\"3\"", " other=\"3\" plain=\"4\""][foreign]);
            for kid in &kids {
                x += &noise(c);
                x += kid;
            }
            x += &noise(c);
            x += &format!("</{}>", close);
            Some(Doc { ty, kind, xml: x, want: Ok(model(o, &k)), pick: None, root: None })
        },
        |d| hash64(&(d.ty, d.kind, &d.xml)),
        |d| format!("{}: {}", ops[d.ty].name, d.xml),
        |d| check_doc(ops, d),
    );
    ctx.explore(
        &format!("{}arrangements around a choice", what),
        budget,
        |c| {
            let ty = c.choose(ops.len());
            let o = &ops[ty];
            let alt = c.choose(3);
            let rot = c.choose(3);
            let n = if alt == 2 { 1 + c.choose(4) } else { 1 };
            let v = |i: usize| nonempty(o, rot + i).to_string();
            let vals: Vec<String> = (0..n).map(v).collect();
            let first = if c.dev(2) == 0 { Some("f".to_string()) } else { None };
            let last = if c.dev(2) == 0 { Some("z".to_string()) } else { None };
            // the choice is re-read from what the other fields left: unknown elements with known names inside are outside
            let noise = |c: &mut Chooser| NOISE[..6][c.dev(6)];
            let (open, close) = holder_open(true, "pick");
            let mut x = format!("<{}>", open);
            if let Some(f) = &first {
                x += &(noise(c).to_string() + &simple(true, "first", f));
            }
            for l in &vals {
                x += &(noise(c).to_string() + &simple(true, ["one", "two", "three"][alt], l));
            }
            if let Some(f) = &last {
                x += &(noise(c).to_string() + &simple(true, "last", f));
            }
            x += noise(c);
            x += &format!("</{}>", close);
            let want = Pick { alt, vals: vals.iter().map(|l| dbg(o, l)).collect(), first, last };
            Some(Doc { ty, kind: 0, xml: x, want: Err(()), pick: Some(Ok(want)), root: None })
        },
        |d| hash64(&(d.ty, &d.xml)),
        |d| format!("{}: {}", ops[d.ty].name, d.xml),
        |d| check_doc(ops, d),
    );
}

// ---------------------------------------------------------------- writing
/// Canonical text of an XML tree, made by an independent reader.
pub fn canon(x: &str) -> Result<String, String> {
    fn go(n: roxmltree::Node, o: &mut String) {
        if n.is_element() {
            *o += &format!("<{{{}}}{}", n.tag_name().namespace().unwrap_or(""), n.tag_name().name());
            let mut a: Vec<String> = n.attributes().map(|a| format!(" {{{}}}{}={:?}", a.namespace().unwrap_or(""), a.name(), a.value())).collect();
            a.sort();
            *o += &a.concat();
            *o += ">";
            for c in n.children() {
                go(c, o);
            }
            *o += "</>";
        } else if n.is_text() {
            *o += &format!("{:?}", n.text().unwrap_or(""));
        }
    }
    let d = roxmltree::Document::parse(x).map_err(|e| e.to_string())?;
    let mut o = String::new();
    go(d.root_element(), &mut o);
    Ok(o)
}

fn leaf(ns: &str, name: &str, text: &str) -> String {
    format!("<{{{}}}{}>{}</>", ns, name, if text.is_empty() { String::new() } else { format!("{:?}", text) })
}

enum Write {
    Holder(usize, Content),
    Pick(Pick),
    Root(String),
}

fn writing(ctx: &Ctx, ops: &[Ops]) {
    let all = ctx.thorough();
    ctx.bound("writing: every type x holder with/without namespace x every subset of optional parts x 0..3 repeats x every assignment of 3 values to the positions (rotations in the quick tier); every choice alternative with up to 3 values; document root; the written text is read by an independent XML reader and read back by the type");
    ctx.explore(
        "writing",
        0,
        |c| {
            let ty = c.choose(ops.len());
            let o = &ops[ty];
            let form = c.choose(4);
            if form == 3 {
                return Some((ty, Write::Root(c.pick(o.valid).to_string())));
            }
            let mut n = 0;
            let rot = c.choose(3);
            let mut v = |c: &mut Chooser| -> String {
                n += 1;
                if all {
                    c.pick(o.valid).to_string()
                } else {
                    nonempty(o, rot + n).to_string()
                }
            };
            if form == 2 {
                let alt = c.choose(3);
                let k = if alt == 2 { 1 + c.choose(3) } else { 1 };
                let vals = (0..k).map(|_| v(c)).collect();
                return Some((ty, Write::Pick(Pick { alt, vals, first: if c.flag() { Some("f&<x>".into()) } else { None }, last: if c.flag() { Some("z".into()) } else { None } })));
            }
            let k = Content {
                at: if c.flag() { Some(v(c)) } else { None },
                first: if c.flag() { Some("f&<x>".into()) } else { None },
                plain: v(c),
                opt: if c.flag() { Some(v(c)) } else { None },
                many: (0..c.choose(4)).map(|_| v(c)).collect(),
                bare: if c.flag() { Some(v(c)) } else { None },
                nested: if c.flag() { Some((v(c), v(c))) } else { None },
                last: if c.flag() { Some("z".into()) } else { None },
            };
            Some((ty, Write::Holder(form, k)))
        },
        |(ty, w)| match w {
            Write::Holder(k, c) => hash64(&(ty, k, format!("{:?}", c))),
            Write::Pick(p) => hash64(&(ty, format!("{:?}", p))),
            Write::Root(l) => hash64(&(ty, l)),
        },
        |(ty, w)| {
            format!(
                "{}: write {}",
                ops[*ty].name,
                match w {
                    Write::Holder(k, c) => format!("{} {:?}", ["with namespace", "without namespace"][*k], c),
                    Write::Pick(p) => format!("{:?}", p),
                    Write::Root(l) => format!("root {:?}", l),
                }
            )
        },
        |(ty, w)| {
            let o = &ops[*ty];
            let pr = |l: &String| (o.print)(l).unwrap();
            let fail = |what: &str, want: String, got: String| Err(viol(format!("write:{}", o.name), format!("{}: {}", o.name, what), want, got));
            match w {
                Write::Root(l) => {
                    let x = match (o.write_root)(l) {
                        Ok(x) => x,
                        Err(e) => return fail(&format!("root {:?}", l), "written".into(), e),
                    };
                    let c = canon(&x).unwrap_or_else(|e| e);
                    // the name of a root element is not part of the property
                    let body = c.find('>').map(|i| c[i + 1..].to_string()).unwrap_or(c.clone());
                    let want = leaf("", "", &pr(l));
                    if format!("<{{}}>{}", body) != want || c[..c.find('>').unwrap_or(0)].contains(' ') {
                        return fail(&format!("root {:?}", l), want, x);
                    }
                    let back = (o.read_root)(&x);
                    if back != Ok(dbg(o, l)) {
                        return fail(&x, dbg(o, l), format!("{:?}", back));
                    }
                    ok(2, "written and read back")
                }
                Write::Pick(p) => {
                    let x = match (o.write_pick)(p) {
                        Ok(x) => x,
                        Err(e) => return fail(&format!("{:?}", p), "written".into(), e),
                    };
                    let mut want = "<{urn:p}pick>".to_string();
                    if let Some(f) = &p.first {
                        want += &leaf("urn:p", "first", f);
                    }
                    for l in &p.vals {
                        want += &leaf("urn:p", ["one", "two", "three"][p.alt], &pr(l));
                    }
                    if let Some(f) = &p.last {
                        want += &leaf("urn:p", "last", f);
                    }
                    want += "</>";
                    let c = canon(&x).unwrap_or_else(|e| e);
                    if c != want {
                        return fail(&format!("{:?}", p), want, c);
                    }
                    let back = (o.read_pick)(&x);
                    let m = Pick { vals: p.vals.iter().map(|l| dbg(o, l)).collect(), ..p.clone() };
                    if back.as_ref() != Ok(&m) {
                        return fail(&x, format!("{:?}", m), format!("{:?}", back));
                    }
                    ok(2, "written and read back")
                }
                Write::Holder(k, c0) => {
                    let x = match (o.write[*k])(c0) {
                        Ok(x) => x,
                        Err(e) => return fail(&format!("{:?}", c0), "written".into(), e),
                    };
                    let ns = ["urn:p", ""][*k];
                    let mut want = format!("<{{{}}}holder", ns);
                    if let Some(a) = &c0.at {
                        want += &format!(" {{}}at={:?}", pr(a));
                    }
                    want += ">";
                    if let Some(f) = &c0.first {
                        want += &leaf(ns, "first", f);
                    }
                    want += &leaf(ns, "plain", &pr(&c0.plain));
                    if let Some(f) = &c0.opt {
                        want += &leaf(ns, "opt", &pr(f));
                    }
                    for m in &c0.many {
                        want += &leaf(ns, "many", &pr(m));
                    }
                    if let Some(f) = &c0.bare {
                        want += &leaf("", "bare", &pr(f));
                    }
                    if let Some((a, b)) = &c0.nested {
                        want += &format!("<{{{}}}nested {{}}na={:?}>{}</>", ns, pr(a), leaf(ns, "inner", &pr(b)));
                    }
                    if let Some(f) = &c0.last {
                        want += &leaf(ns, "last", f);
                    }
                    want += "</>";
                    let c = canon(&x).unwrap_or_else(|e| e);
                    if c != want {
                        return fail(&format!("{:?}", c0), want, c);
                    }
                    let back = (o.read[*k])(&x);
                    let m = model(o, c0);
                    if back.as_ref() != Ok(&m) {
                        return fail(&x, format!("{:?}", m), format!("{:?}", back));
                    }
                    ok(2, "written and read back")
                }
            }
        },
    );
}

pub fn reading(ctx: &Ctx, ops: &[Ops], what: &str) {
    spellings(ctx, ops, what);
    arrangements(ctx, ops, what);
}

pub fn run(ctx: &Ctx, ops: Vec<Ops>) {
    reading(ctx, &ops, "");
    writing(ctx, &ops);
    sizes(ctx, &ops);
}

fn sizes(ctx: &Ctx, ops: &[Ops]) {
    let counts: Vec<usize> = (0..=70).chain([99, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 4096, 5000]).collect();
    ctx.bound("sizes: every type x holder with and without namespace x repeated elements 0 to 70 times and 15 counts up to 5000, written, compared through an independent reader and read back; the value in the last repetition, or before it, invalid");
    ctx.explore(
        "many repetitions",
        0,
        |c| {
            let ty = c.choose(ops.len());
            let k = c.choose(2);
            let n = *c.pick(&counts);
            let bad = c.choose(3);
            if bad > 0 && (ops[ty].invalid.is_empty() || n == 0) {
                return None;
            }
            Some((ty, k, n, bad))
        },
        |x| hash64(x),
        |(ty, k, n, bad)| format!("{}: {} repetitions, {}, {}", ops[*ty].name, n, ["with namespace", "without"][*k], ["all valid", "the last invalid", "the middle invalid"][*bad]),
        |&(ty, k, n, bad)| {
            let o = &ops[ty];
            let fail = |what: &str, want: String, got: String| Err(viol(format!("many:{}", o.name), format!("{}: {} of {} repetitions", o.name, what, n), want, got));
            let lits: Vec<String> = (0..n).map(|i| nonempty(o, i).to_string()).collect();
            let mut c = Content { plain: nonempty(o, 1).into(), ..Content::default() };
            if bad > 0 {
                let at = [n - 1, n / 2][bad - 1];
                let (open, close) = holder_open(k == 0, "holder");
                let mut x = format!("<{}>{}", open, simple(k == 0, "plain", &c.plain));
                for (i, l) in lits.iter().enumerate() {
                    x += &simple(k == 0, "many", if i == at { o.invalid[0] } else { l });
                }
                x += &format!("</{}>", close);
                return match (o.read[k])(&x) {
                    Err(_) => ok(1, "refused as modelled"),
                    Ok(c) => fail("one invalid", "an error".into(), format!("{} values", c.many.len())),
                };
            }
            c.many = lits.clone();
            let x = match (o.write[k])(&c) {
                Ok(x) => x,
                Err(e) => return fail("writing", "written".into(), e),
            };
            let ns = ["urn:p", ""][k];
            let mut want = format!("<{{{}}}holder>{}", ns, leaf(ns, "plain", &(o.print)(&c.plain).unwrap()));
            for l in &lits {
                want += &leaf(ns, "many", &(o.print)(l).unwrap());
            }
            want += "</>";
            let got = canon(&x).unwrap_or_else(|e| e);
            if got != want {
                return fail("writing", format!("{} bytes", want.len()), format!("{} bytes: {}", got.len(), got.chars().take(200).collect::<String>()));
            }
            match (o.read[k])(&x) {
                Ok(b) if b == model(o, &c) => ok(2, "written and read back"),
                b => fail("reading back", format!("{} values", n), b.map(|b| format!("{} values", b.many.len())).unwrap_or_else(|e| e)),
            }
        },
    );
    let ns = named();
    ctx.bound(format!("names: {} element names and 4 attribute names of every kind at once (underscores, dots, hyphens, other scripts, keywords, 300 characters), with no prefix, a plain and an unusual one, x 5 types x 3 rotations of values", NAMES.len()));
    ctx.explore(
        "names",
        0,
        |c| Some((c.choose(ns.len()), c.choose(3))),
        |x| hash64(x),
        |(i, r)| format!("{} with prefix {:?}, rotation {}", ns[*i].name, ns[*i].prefix, r),
        |&(i, r)| {
            let o = &ns[i];
            let fail = |what: &str, want: String, got: String| Err(viol(format!("names:{}", o.name), format!("{} with prefix {:?}, rotation {}: {}", o.name, o.prefix, r, what), want, got));
            let lits: Vec<String> = (0..3).map(|k| o.valid[(k + r) % o.valid.len()].to_string()).collect();
            let x = match (o.write)(&lits) {
                Ok(x) => x,
                Err(e) => return fail("writing", "written".into(), e),
            };
            let uri = if o.prefix.is_empty() { "" } else { "urn:p" };
            let mut at: Vec<String> = ["k__l", "_k", "k.b-c", "K\u{e9}\u{4e2d}"].iter().enumerate().map(|(k, n)| format!(" {{}}{}={:?}", n, (o.print)(&lits[k % 3]))).collect();
            at.sort();
            let mut want = format!("<{{{}}}holder{}>", uri, at.concat());
            for (k, n) in NAMES.iter().enumerate() {
                want += &leaf(uri, n, &(o.print)(&lits[k % 3]));
            }
            want += "</>";
            let got = canon(&x).unwrap_or_else(|e| e);
            if got != want {
                return fail("writing", want, got);
            }
            let show = |n: usize| (0..n).map(|k| (o.show)(&lits[k % 3])).collect::<Vec<_>>();
            let model = (show(NAMES.len()), show(4));
            match (o.read)(&x) {
                Ok(b) if b == model => ok(2, "written and read back"),
                b => fail("reading back", format!("{:?}", model), format!("{:?}", b)),
            }
        },
    );
    let Some(s) = ops.iter().find(|o| o.name == "wrapper of string") else { return };
    let longs: Vec<usize> = (1..=70).chain([127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 65535, 65536, 70000]).collect();
    ctx.bound("texts: every character XML allows (alone, doubled around a letter, between two) and texts of 87 lengths up to 70000 in a wrapped string, as child, repeated child, attribute (no markup there) and root");
    let text_states = |name: &str, pick: &(dyn Fn(&mut Chooser) -> Option<String> + Sync)| {
        ctx.explore(
            name,
            0,
            |c| {
                let t = pick(c)?;
                let blank = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r');
                if t.starts_with(blank) || t.ends_with(blank) || t.contains('\r') {
                    return None;
                }
                Some((c.choose(2), t))
            },
            |x| hash64(x),
            |(k, t)| format!("{} of {} characters {:?}", ["child and attribute", "root"][*k], t.chars().count(), t.chars().take(30).collect::<String>()),
            |(k, t)| {
                let fail = |what: &str, want: String, got: String| Err(viol("texts", format!("wrapped string {:?}, {}", t.chars().take(60).collect::<String>(), what), want.chars().take(300).collect::<String>(), got.chars().take(300).collect::<String>()));
                if *k == 1 {
                    let x = match (s.write_root)(t) {
                        Ok(x) => x,
                        Err(e) => return fail("root", "written".into(), e),
                    };
                    let c = canon(&x).unwrap_or_else(|e| e);
                    let body = c.find('>').map(|i| &c[i..]).unwrap_or(&c).to_string();
                    if body != format!(">{:?}</>", t) {
                        return fail("root", format!(">{:?}</>", t), body);
                    }
                    let back = (s.read_root)(&x);
                    return if back == Ok(dbg(s, t)) { ok(2, "written and read back") } else { fail("root", dbg(s, t), format!("{:?}", back)) };
                }
                let markup = t.contains(['<', '&', '"', '\'', '>', '\t', '\n', '\u{85}', '\u{2028}']);
                let c = Content { at: if markup { None } else { Some(t.clone()) }, plain: t.clone(), many: vec![t.clone(), t.clone()], ..Content::default() };
                let x = match (s.write[0])(&c) {
                    Ok(x) => x,
                    Err(e) => return fail("child", "written".into(), e),
                };
                let mut want = "<{urn:p}holder".to_string();
                if let Some(a) = &c.at {
                    want += &format!(" {{}}at={:?}", a);
                }
                want += ">";
                want += &leaf("urn:p", "plain", t);
                want += &leaf("urn:p", "many", t).repeat(2);
                want += "</>";
                let got = canon(&x).unwrap_or_else(|e| e);
                if got != want {
                    return fail("child", want, got);
                }
                match (s.read[0])(&x) {
                    Ok(b) if b == model(s, &c) => ok(2, "written and read back"),
                    b => fail("child", t.clone(), format!("{:?}", b)),
                }
            },
        );
    };
    text_states("characters", &|c| {
        let ch = xml_char(c)?;
        Some(match c.choose(3) {
            0 => ch.to_string(),
            1 => format!("{}a{}", ch, ch),
            _ => format!("1{}2", ch),
        })
    });
    let fills = ["x", "1", "é", "😀", "ab ", "]", "&", "<>", "-"];
    text_states("long texts", &|c| {
        let n = *c.pick(&longs);
        Some(c.pick(&fills).chars().cycle().take(n).collect::<String>().trim().to_string())
    });
}
