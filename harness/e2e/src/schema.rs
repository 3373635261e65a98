//! C15: bounded schemas, the documents valid for them, and the canonical form of a document.
use crate::mc::Chooser;

/// What an element or attribute may hold.
#[derive(Clone, Debug)]
pub enum T {
    Simple(&'static [&'static str]),
    Complex(C),
}
#[derive(Clone, Debug, Default)]
pub struct C {
    /// namespace of the elements inside
    pub ns: &'static str,
    pub attrs: Vec<A>,
    pub mode: Mode,
    pub parts: Vec<P>,
}
#[derive(Clone, Debug)]
pub struct A {
    pub name: String,
    pub values: &'static [&'static str],
    pub required: bool,
}
#[derive(Clone, Debug)]
pub struct P {
    /// None: that of the type it stands in
    pub ns: Option<&'static str>,
    pub name: String,
    pub counts: &'static [usize],
    pub t: T,
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum Mode {
    #[default]
    Seq,
    All,
    /// one alternative, repeated so many times
    Choice(&'static [usize]),
    /// (sequence parts up to n, then a choice of the others)
    SeqChoice(usize, &'static [usize]),
}

pub const STR: &[&str] = &["x", "a b", "é<&>\"'", "日本", "-"];
/// (markup characters inside attributes are lost by yaserde)
pub const ASTR: &[&str] = &["x", "a b", "é", "日本"];
pub const INT: &[&str] = &["5", "-7", "0"];
pub const BOOL: &[&str] = &["true", "false"];
pub const DATE: &[&str] = &["2020-02-29", "2020-01-02+00:00", "0044-03-15+05:30"];
pub const DEC: &[&str] = &["1.5", "-0.25", "12345678901234567890"];
pub const DBL: &[&str] = &["1.5", "-3", "0.001"];
pub const DT: &[&str] = &["2020-01-02T03:04:05+00:00", "1999-12-31T23:59:59.500-14:00"];
pub const TIME: &[&str] = &["03:04:05", "23:59:59.500+00:00"];
pub const DUR: &[&str] = &["P1DT2H", "-PT0.5S", "P2Y"];
pub const YEAR: &[&str] = &["2020", "-0044+00:00"];
pub const WORD: &[&str] = &["red", "dark-blue", "x9"];
pub const NUMS: &[&str] = &["1", "2", "30"];
pub const INTS: &[&str] = &["1 2 3", "7", "-1 0"];
pub const STRS: &[&str] = &["a b", "c", "é x y"];
pub const BIG: &[&str] = &["123456789012345678901234567890", "-1"];

/// Kinds of content; (label, markup, definitions, content)
pub enum Use {
    Type(&'static str),
    Inline(&'static str),
    Ref(&'static str),
}
pub struct Kind {
    pub label: &'static str,
    pub how: Use,
    pub defs: &'static [&'static str],
}
const fn k(label: &'static str, how: Use, defs: &'static [&'static str]) -> Kind {
    Kind { label, how, defs }
}

const ENUM: &str = "<xs:simpleType name=\"Color\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"red\"/><xs:enumeration value=\"dark-blue\"/><xs:enumeration value=\"x9\"/></xs:restriction></xs:simpleType>";
const NUMENUM: &str = "<xs:simpleType name=\"Level\"><xs:restriction base=\"xs:int\"><xs:enumeration value=\"1\"/><xs:enumeration value=\"2\"/><xs:enumeration value=\"30\"/></xs:restriction></xs:simpleType>";
const WRAP: &str = "<xs:simpleType name=\"Count\"><xs:restriction base=\"xs:int\"><xs:maxInclusive value=\"1000\"/></xs:restriction></xs:simpleType>";
const SWRAP: &str = "<xs:simpleType name=\"Label\"><xs:restriction base=\"xs:string\"><xs:maxLength value=\"9\"/></xs:restriction></xs:simpleType>";
const DWRAP: &str = "<xs:simpleType name=\"Day\"><xs:restriction base=\"xs:date\"/></xs:simpleType>";
const BWRAP: &str = "<xs:simpleType name=\"Flag\"><xs:restriction base=\"xs:boolean\"/></xs:simpleType>";
const WRAP2: &str = "<xs:simpleType name=\"SmallCount\"><xs:restriction base=\"{t}Count\"/></xs:simpleType>";
const LIST: &str = "<xs:simpleType name=\"Ints\"><xs:list itemType=\"xs:int\"/></xs:simpleType>";
const SLIST: &str = "<xs:simpleType name=\"Words\"><xs:list itemType=\"xs:string\"/></xs:simpleType>";
const WLIST: &str = "<xs:simpleType name=\"Counts\"><xs:list itemType=\"{t}Count\"/></xs:simpleType>";
const BAR: &str = "<xs:complexType name=\"Bar\"><xs:sequence><xs:element name=\"inner\" type=\"xs:string\"/><xs:element name=\"more\" type=\"xs:int\" minOccurs=\"0\" maxOccurs=\"unbounded\"/></xs:sequence><xs:attribute name=\"id\" type=\"xs:int\"/></xs:complexType>";
const SUB: &str = "<xs:complexType name=\"SubBar\"><xs:complexContent><xs:extension base=\"{t}Bar\"><xs:attribute name=\"lang\" type=\"xs:string\" use=\"required\"/></xs:extension></xs:complexContent></xs:complexType>";
const PICK: &str = "<xs:complexType name=\"Pick\"><xs:choice><xs:element name=\"num\" type=\"xs:int\"/><xs:element name=\"word\" type=\"xs:string\"/><xs:element name=\"pair\" type=\"{t}Pair\"/></xs:choice></xs:complexType>";
const PAIR: &str = "<xs:complexType name=\"Pair\"><xs:sequence><xs:element name=\"left\" type=\"xs:int\"/><xs:element name=\"right\" type=\"xs:date\" minOccurs=\"0\"/></xs:sequence></xs:complexType>";
const EMPTY: &str = "<xs:complexType name=\"Nothing\"/>";
const ATTRS: &str = "<xs:complexType name=\"Marks\"><xs:attribute name=\"m\" type=\"xs:int\" use=\"required\"/><xs:attribute name=\"n\" type=\"xs:string\"/></xs:complexType>";
const GLOB: &str = "<xs:element name=\"Glob\"><xs:complexType><xs:sequence><xs:element name=\"g\" type=\"xs:date\" minOccurs=\"0\"/></xs:sequence></xs:complexType></xs:element>";
const GLOBS: &str = "<xs:element name=\"Plain\"><xs:simpleType><xs:restriction base=\"xs:int\"/></xs:simpleType></xs:element>";
const GRP: &str = "<xs:attributeGroup name=\"Common\"><xs:attribute name=\"c1\" type=\"xs:string\"/><xs:attribute name=\"c2\" type=\"xs:boolean\" use=\"required\"/></xs:attributeGroup>";
const GRPD: &str = "<xs:complexType name=\"Grouped\"><xs:sequence><xs:element name=\"inner\" type=\"xs:string\"/></xs:sequence><xs:attributeGroup ref=\"{t}Common\"/></xs:complexType>";
const RESTR: &str = "<xs:complexType name=\"ResBar\"><xs:complexContent><xs:restriction base=\"{t}Bar\"><xs:sequence><xs:element name=\"inner\" type=\"xs:string\"/></xs:sequence></xs:restriction></xs:complexContent></xs:complexType>";
const KNOT: &str = "<xs:complexType name=\"Knot\"><xs:sequence><xs:element name=\"tie\" type=\"{t}Foo\" minOccurs=\"0\" maxOccurs=\"unbounded\"/></xs:sequence><xs:attribute name=\"len\" type=\"xs:int\"/></xs:complexType>";
const OBOX: &str = "o!<xs:complexType name=\"Box\"><xs:sequence><xs:element name=\"inner\" type=\"xs:string\"/><xs:element name=\"extra\" type=\"xs:int\" minOccurs=\"0\"/></xs:sequence><xs:attribute name=\"id\" type=\"xs:int\"/></xs:complexType>";
const OWRAP: &str = "o!<xs:simpleType name=\"Size\"><xs:restriction base=\"xs:int\"/></xs:simpleType>";
const OLIST: &str = "o!<xs:simpleType name=\"Sizes\"><xs:list itemType=\"xs:int\"/></xs:simpleType>";
const OGLOB: &str = "o!<xs:element name=\"Pack\"><xs:complexType><xs:sequence><xs:element name=\"g\" type=\"xs:date\" minOccurs=\"0\"/></xs:sequence></xs:complexType></xs:element>";
const DEEP: &str = "<xs:complexType name=\"Deep\"><xs:sequence><xs:element name=\"one\"><xs:complexType><xs:sequence><xs:element name=\"two\" maxOccurs=\"2\"><xs:complexType><xs:sequence><xs:element name=\"three\" type=\"xs:int\"/></xs:sequence><xs:attribute name=\"at\" type=\"xs:string\"/></xs:complexType></xs:element></xs:sequence></xs:complexType></xs:element></xs:sequence></xs:complexType>";

pub const KINDS: &[Kind] = &[
    k("string", Use::Type("xs:string"), &[]),
    k("int", Use::Type("xs:int"), &[]),
    k("boolean", Use::Type("xs:boolean"), &[]),
    k("date", Use::Type("xs:date"), &[]),
    k("decimal", Use::Type("xs:decimal"), &[]),
    k("double", Use::Type("xs:double"), &[]),
    k("dateTime", Use::Type("xs:dateTime"), &[]),
    k("time", Use::Type("xs:time"), &[]),
    k("duration", Use::Type("xs:duration"), &[]),
    k("gYear", Use::Type("xs:gYear"), &[]),
    k("integer", Use::Type("xs:integer"), &[]),
    k("anyURI", Use::Type("xs:anyURI"), &[]),
    k("enum", Use::Type("{t}Color"), &[ENUM]),
    k("number enum", Use::Type("{t}Level"), &[NUMENUM]),
    k("wrapper", Use::Type("{t}Count"), &[WRAP]),
    k("string wrapper", Use::Type("{t}Label"), &[SWRAP]),
    k("date wrapper", Use::Type("{t}Day"), &[DWRAP]),
    k("boolean wrapper", Use::Type("{t}Flag"), &[BWRAP]),
    k("wrapper of wrapper", Use::Type("{t}SmallCount"), &[WRAP, WRAP2]),
    k("list", Use::Type("{t}Ints"), &[LIST]),
    k("string list", Use::Type("{t}Words"), &[SLIST]),
    k("wrapper list", Use::Type("{t}Counts"), &[WRAP, WLIST]),
    k("complex", Use::Type("{t}Bar"), &[BAR]),
    k("derived", Use::Type("{t}SubBar"), &[BAR, SUB]),
    k("restricted", Use::Type("{t}ResBar"), &[BAR, RESTR]),
    k("choice", Use::Type("{t}Pick"), &[PAIR, PICK]),
    k("empty", Use::Type("{t}Nothing"), &[EMPTY]),
    k("attributes only", Use::Type("{t}Marks"), &[ATTRS]),
    k("attribute group", Use::Type("{t}Grouped"), &[GRP, GRPD]),
    k("deep", Use::Type("{t}Deep"), &[DEEP]),
    k("anonymous complex", Use::Inline("<xs:complexType><xs:sequence><xs:element name=\"inner\" type=\"xs:string\" maxOccurs=\"2\"/></xs:sequence><xs:attribute name=\"k\" type=\"xs:boolean\"/></xs:complexType>"), &[]),
    k("anonymous wrapper", Use::Inline("<xs:simpleType><xs:restriction base=\"xs:int\"><xs:minInclusive value=\"-9\"/></xs:restriction></xs:simpleType>"), &[]),
    k("anonymous enum", Use::Inline("<xs:simpleType><xs:restriction base=\"xs:string\"><xs:enumeration value=\"red\"/><xs:enumeration value=\"dark-blue\"/><xs:enumeration value=\"x9\"/></xs:restriction></xs:simpleType>"), &[]),
    k("anonymous list", Use::Inline("<xs:simpleType><xs:list itemType=\"xs:int\"/></xs:simpleType>"), &[]),
    k("anonymous choice", Use::Inline("<xs:complexType><xs:choice><xs:element name=\"num\" type=\"xs:int\"/><xs:element name=\"word\" type=\"xs:string\"/></xs:choice></xs:complexType>"), &[]),
    k("reference", Use::Ref("Glob"), &[GLOB]),
    k("reference to wrapper", Use::Ref("Plain"), &[GLOBS]),
    k("foreign complex", Use::Type("o:Box"), &[OBOX]),
    k("foreign wrapper", Use::Type("o:Size"), &[OWRAP]),
    k("foreign list", Use::Type("o:Sizes"), &[OLIST]),
    k("foreign reference", Use::Ref("o:Pack"), &[OGLOB]),
    k("recursive", Use::Type("{t}Knot"), &[KNOT]),
];

pub const T_NS: &str = "urn:t";
pub const O_NS: &str = "urn:o";
pub fn tns() -> C {
    C { ns: T_NS, ..Default::default() }
}
pub fn part(name: &str, counts: &'static [usize], t: T) -> P {
    P { ns: None, name: name.into(), counts, t }
}
pub fn attr(name: &str, values: &'static [&'static str], required: bool) -> A {
    A { name: name.into(), values, required }
}
fn bar() -> C {
    C { ns: T_NS, attrs: vec![attr("id", INT, false)], mode: Mode::Seq, parts: vec![part("inner", &[1], T::Simple(STR)), part("more", &[0, 1, 2], T::Simple(INT))] }
}

/// The content of a kind.
pub fn content(label: &str, whole: &Schema) -> T {
    match label {
        "string" => T::Simple(STR),
        "int" | "wrapper" | "wrapper of wrapper" | "anonymous wrapper" | "reference to wrapper" => T::Simple(INT),
        "boolean" | "boolean wrapper" => T::Simple(BOOL),
        "date" | "date wrapper" => T::Simple(DATE),
        "decimal" => T::Simple(DEC),
        "double" => T::Simple(DBL),
        "dateTime" => T::Simple(DT),
        "time" => T::Simple(TIME),
        "duration" => T::Simple(DUR),
        "gYear" => T::Simple(YEAR),
        "integer" => T::Simple(BIG),
        "anyURI" => T::Simple(&["http://e.com/a?b=c&d#e", "x"]),
        "foreign complex" => T::Complex(C { ns: O_NS, attrs: vec![attr("id", INT, false)], parts: vec![part("inner", &[1], T::Simple(STR)), part("extra", &[0, 1], T::Simple(INT))], ..tns() }),
        "foreign wrapper" => T::Simple(INT),
        "foreign list" => T::Simple(INTS),
        "foreign reference" => T::Complex(C { ns: O_NS, parts: vec![part("g", &[0, 1], T::Simple(DATE))], ..tns() }),
        "enum" | "anonymous enum" => T::Simple(WORD),
        "number enum" => T::Simple(NUMS),
        "string wrapper" => T::Simple(STR),
        "list" | "anonymous list" | "wrapper list" => T::Simple(INTS),
        "string list" => T::Simple(STRS),
        "complex" => T::Complex(bar()),
        "derived" => {
            let mut b = bar();
            b.attrs.push(attr("lang", ASTR, true));
            T::Complex(b)
        }
        "restricted" => {
            let mut b = bar();
            b.parts.pop();
            T::Complex(b)
        }
        "choice" => T::Complex(C { ns: T_NS, attrs: vec![], mode: Mode::Choice(&[1]), parts: vec![part("num", &[1], T::Simple(INT)), part("word", &[1], T::Simple(STR)), part("pair", &[1], T::Complex(C { parts: vec![part("left", &[1], T::Simple(INT)), part("right", &[0, 1], T::Simple(DATE))], ..tns() }))] }),
        "empty" => T::Complex(tns()),
        "attributes only" => T::Complex(C { attrs: vec![attr("m", INT, true), attr("n", ASTR, false)], ..tns() }),
        "attribute group" => T::Complex(C { ns: T_NS, attrs: vec![attr("c1", ASTR, false), attr("c2", BOOL, true)], mode: Mode::Seq, parts: vec![part("inner", &[1], T::Simple(STR))] }),
        "deep" => T::Complex(C {
            parts: vec![part("one", &[1], T::Complex(C { parts: vec![part("two", &[1, 2], T::Complex(C { attrs: vec![attr("at", ASTR, false)], parts: vec![part("three", &[1], T::Simple(INT))], ..tns() }))], ..tns() }))],
            ..tns()
        }),
        "anonymous complex" => T::Complex(C { attrs: vec![attr("k", BOOL, false)], parts: vec![part("inner", &[1, 2], T::Simple(STR))], ..tns() }),
        "anonymous choice" => T::Complex(C { mode: Mode::Choice(&[1]), parts: vec![part("num", &[1], T::Simple(INT)), part("word", &[1], T::Simple(STR))], ..tns() }),
        "reference" => T::Complex(C { parts: vec![part("g", &[0, 1], T::Simple(DATE))], ..tns() }),
        "recursive" => {
            // once: a nested Foo without another one inside
            T::Complex(C { attrs: vec![attr("len", INT, false)], parts: vec![part("tie", &[0, 1, 2], T::Complex(contents(whole, true)))], ..tns() })
        }
        l => panic!("content of {}", l),
    }
}

/// Occurrence of a particle: (minOccurs, maxOccurs, counts tried)
pub const OCC: &[(&str, &[usize])] = &[
    ("", &[1]),
    (" minOccurs=\"0\"", &[1, 0]),
    (" minOccurs=\"0\" maxOccurs=\"unbounded\"", &[1, 0, 2, 3]),
    (" maxOccurs=\"unbounded\"", &[1, 2, 3]),
    (" minOccurs=\"2\" maxOccurs=\"3\"", &[2, 3]),
    (" minOccurs=\"0\" maxOccurs=\"2\"", &[1, 0, 2]),
    (" minOccurs=\"1\" maxOccurs=\"1\"", &[1]),
];
pub const ATTR_KINDS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, FOREIGN + 1, FOREIGN + 2];
const FOREIGN: usize = 37;
pub const NAMES: &[[&str; 3]] = &[
    ["alpha", "beta", "gamma"],
    ["Alpha", "betaGamma", "GAMMA"],
    ["type", "self", "match"],
    ["al-pha", "be.ta", "ga_mma"],
    ["a1", "b22c", "über"],
    ["item", "itemList", "items"],
];
pub const ATTR_NAMES: &[[&str; 2]] = &[["first", "second"], ["type", "ref"], ["xLink", "X-pos"]];

#[derive(Clone, Debug, Default)]
pub struct Field {
    pub kind: usize,
    pub occ: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub fields: Vec<Field>,
    pub attrs: Vec<(usize, bool)>,
    /// 0 sequence, 1 all, 2 choice, 3 first in a sequence and then a choice of the others
    pub mode: usize,
    pub all_names: &'static [[&'static str; 3]],
    pub names: usize,
    pub attr_words: Option<[&'static str; 2]>,
    pub attr_names: usize,
    /// 0 named type, 1 element with anonymous type
    pub root: usize,
    /// prefixes
    pub style: usize,
}

pub fn schema(c: &mut Chooser, names: &'static [[&'static str; 3]]) -> Option<Schema> {
    let mut s = Schema { all_names: names, ..Default::default() };
    s.mode = c.dev(4);
    let n = match s.mode {
        0 | 1 => 1 + c.dev(3),
        2 => 2 + c.dev(2),
        _ => 3,
    };
    for _ in 0..n {
        let kind = c.dev(KINDS.len());
        let mut occ = match s.mode {
            0 => c.dev(OCC.len()),
            1 => c.dev(2),
            _ => 0,
        };
        if KINDS[kind].label == "recursive" {
            // must be able to end
            if s.mode != 0 || s.fields.iter().any(|f: &Field| KINDS[f.kind].label == "recursive") {
                return None;
            }
            if OCC[occ].1 != OCC[1].1 && OCC[occ].1 != OCC[2].1 {
                occ = 2;
            }
        }
        s.fields.push(Field { kind, occ });
    }
    // yaserde loses the attributes of alternatives, and a choice after elements which are not of primitive types
    let first_alternative = match s.mode { 2 => 0, 3 => 1, _ => n };
    if s.fields[first_alternative..].iter().any(|f| matches!(content(KINDS[f.kind].label, &s), T::Complex(c) if !c.attrs.is_empty())) {
        return None;
    }
    // anonymous types of alternatives are dropped, foreign elements lose their declaration (recorded findings)
    if s.fields[first_alternative..].iter().any(|f| matches!(KINDS[f.kind].how, Use::Inline(_) | Use::Ref("o:Pack"))) {
        return None;
    }
    if s.mode == 3 && !["string", "int", "boolean", "double", "anyURI"].contains(&KINDS[s.fields[0].kind].label) {
        return None;
    }
    let na = c.dev(3);
    for _ in 0..na {
        let kind = ATTR_KINDS[c.dev(ATTR_KINDS.len())];
        let req = c.dev(2) == 1;
        s.attrs.push((kind, req));
    }
    s.names = c.dev(names.len());
    if na > 0 {
        s.attr_names = c.dev(ATTR_NAMES.len());
    }
    // (a recorded finding)
    if (0..na).any(|i| (0..n).any(|j| attr_name(&s, i) == s.all_names[s.names][j])) {
        return None;
    }
    s.root = c.dev(2);
    if s.root == 1 && s.fields.iter().any(|f| KINDS[f.kind].label == "recursive") {
        return None;
    }
    s.style = c.dev(4);
    // one reference per declaration: the name of the field is that of the element
    for l in ["reference", "reference to wrapper", "foreign reference"] {
        if s.fields.iter().filter(|f| KINDS[f.kind].label == l).count() > 1 {
            return None;
        }
    }
    Some(s)
}

pub fn field_name(s: &Schema, i: usize) -> String {
    match KINDS[s.fields[i].kind].how {
        Use::Ref(n) => n.trim_start_matches("o:").into(),
        _ => s.all_names[s.names][i].into(),
    }
}

fn attr_name(s: &Schema, i: usize) -> &'static str {
    s.attr_words.unwrap_or(ATTR_NAMES[s.attr_names])[i]
}

/// the content model of the root
pub fn root(s: &Schema) -> C {
    contents(s, false)
}
fn contents(s: &Schema, inner: bool) -> C {
    let parts: Vec<P> = (0..s.fields.len()).filter(|&i| !inner || KINDS[s.fields[i].kind].label != "recursive").map(|i| P { ns: if KINDS[s.fields[i].kind].label == "foreign reference" { Some(O_NS) } else { None }, name: field_name(s, i), counts: OCC[s.fields[i].occ].1, t: content(KINDS[s.fields[i].kind].label, s) }).collect();
    let attrs = s
        .attrs
        .iter()
        .enumerate()
        .map(|(i, (k, req))| {
            let T::Simple(values) = content(KINDS[*k].label, s) else { unreachable!() };
            let values = if values == STR { ASTR } else { values };
            A { name: attr_name(s, i).into(), values, required: *req }
        })
        .collect();
    let mode = match s.mode {
        0 => Mode::Seq,
        1 => Mode::All,
        2 => Mode::Choice(&[1]),
        _ => Mode::SeqChoice(1, &[1]),
    };
    C { ns: T_NS, attrs, mode, parts }
}

pub fn xsd(s: &Schema) -> String {
    // style 0: prefix tns, 1: XML Schema by default, 2: target by default
    let (t, x) = match s.style {
        0 => ("tns:", "xs:"),
        1 => ("p:", ""),
        // target by default; no target namespace
        _ => ("", "xs:"),
    };
    let mut fields = String::new();
    for (i, f) in s.fields.iter().enumerate() {
        let occ = OCC[f.occ].0;
        let name = s.all_names[s.names][i];
        fields += &match KINDS[f.kind].how {
            Use::Type(ty) => format!("<xs:element name=\"{}\" type=\"{}\"{}/>", name, ty, occ),
            Use::Inline(b) => format!("<xs:element name=\"{}\"{}>{}</xs:element>", name, occ, b),
            Use::Ref(n) if n.starts_with("o:") => format!("<xs:element ref=\"{}\"{}/>", n, occ),
            Use::Ref(n) => format!("<xs:element ref=\"{{t}}{}\"{}/>", n, occ),
        };
        if s.mode == 3 && i == 0 {
            fields += "<xs:choice>";
        }
    }
    let body = match s.mode {
        0 => format!("<xs:sequence>{}</xs:sequence>", fields),
        1 => format!("<xs:all>{}</xs:all>", fields),
        2 => format!("<xs:choice>{}</xs:choice>", fields),
        _ => format!("<xs:sequence>{}</xs:choice></xs:sequence>", fields),
    };
    let mut attrs = String::new();
    for (i, (k, req)) in s.attrs.iter().enumerate() {
        let Use::Type(ty) = KINDS[*k].how else { unreachable!() };
        attrs += &format!("<xs:attribute name=\"{}\" type=\"{}\"{}/>", attr_name(s, i), ty, if *req { " use=\"required\"" } else { "" });
    }
    let mut defs: Vec<&str> = vec![];
    for k in s.fields.iter().map(|f| f.kind).chain(s.attrs.iter().map(|a| a.0)) {
        for d in KINDS[k].defs {
            if !d.starts_with("o!") && !defs.contains(d) {
                defs.push(d)
            }
        }
    }
    let main = if s.root == 0 {
        format!("<xs:complexType name=\"Foo\">{}{}</xs:complexType><xs:element name=\"Foo\" type=\"{{t}}Foo\"/>", body, attrs)
    } else {
        format!("<xs:element name=\"Foo\"><xs:complexType>{}{}</xs:complexType></xs:element>", body, attrs)
    };
    let ns = match s.style {
        0 => "xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:tns=\"urn:t\"",
        1 => "xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:p=\"urn:t\"",
        2 => "xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns=\"urn:t\"",
        _ => "xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"",
    };
    let target = if s.style == 3 { "" } else { "targetNamespace=\"urn:t\"" };
    let (o, import) = if foreign(s).is_empty() {
        ("", String::new())
    } else {
        ("xmlns:o=\"urn:o\"", format!("<{}import namespace=\"urn:o\" schemaLocation=\"o.xsd&#10;(the second schema)\"/>\n", x))
    };
    let all = format!("{}\n{}", main, defs.join("\n")).replace("{t}", t).replace("xs:", x);
    let el = format!("{}schema", x);
    format!("<{el} {ns} {o} {target} elementFormDefault=\"qualified\">\n{import}{all}\n</{el}>")
}

/// definitions of the other schema
fn foreign(s: &Schema) -> Vec<&'static str> {
    let mut out: Vec<&str> = vec![];
    for k in s.fields.iter().map(|f| f.kind).chain(s.attrs.iter().map(|a| a.0)) {
        for d in KINDS[k].defs {
            if let Some(d) = d.strip_prefix("o!") {
                if !out.contains(&d) {
                    out.push(d)
                }
            }
        }
    }
    out
}
pub fn other_xsd(s: &Schema) -> Option<String> {
    let d = foreign(s);
    if d.is_empty() {
        return None;
    }
    Some(format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:o=\"urn:o\" targetNamespace=\"urn:o\" elementFormDefault=\"qualified\">\n{}\n</xs:schema>", d.join("\n")))
}
/// Namespaces as the schema has them.
pub fn settle(e: &mut E) {
    if e.ns == T_NS {
        e.ns = "";
    }
    e.kids.iter_mut().for_each(settle);
}

// ---------------------------------------------------------------- documents

#[derive(Clone, Debug)]
pub struct E {
    pub ns: &'static str,
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<E>,
    pub text: Option<String>,
    pub unordered: bool,
}

fn many(c: &mut Chooser, ns: &'static str, p: &P, out: &mut Vec<E>) {
    let n = p.counts[c.dev(p.counts.len())];
    for _ in 0..n {
        out.push(element(c, p.ns.unwrap_or(ns), &p.name, &p.t));
    }
}

pub fn element(c: &mut Chooser, ns: &'static str, name: &str, t: &T) -> E {
    let mut e = E { ns, name: name.into(), attrs: vec![], kids: vec![], text: None, unordered: false };
    match t {
        T::Simple(v) => e.text = Some(c.dev_pick(v).to_string()),
        T::Complex(k) => {
            for a in &k.attrs {
                let n = c.dev(a.values.len() + !a.required as usize);
                if a.required {
                    e.attrs.push((a.name.clone(), a.values[n].into()));
                } else if n > 0 {
                    e.attrs.push((a.name.clone(), a.values[n - 1].into()));
                }
            }
            match k.mode {
                Mode::Seq => k.parts.iter().for_each(|p| many(c, k.ns, p, &mut e.kids)),
                Mode::All => {
                    e.unordered = true;
                    let rot = c.dev(k.parts.len());
                    (0..k.parts.len()).for_each(|i| many(c, k.ns, &k.parts[(i + rot) % k.parts.len()], &mut e.kids));
                }
                Mode::Choice(times) => {
                    let n = times[c.dev(times.len())];
                    for _ in 0..n {
                        let p = &k.parts[c.dev(k.parts.len())];
                        e.kids.push(element(c, p.ns.unwrap_or(k.ns), &p.name, &p.t));
                    }
                }
                Mode::SeqChoice(first, times) => {
                    k.parts[..first].iter().for_each(|p| many(c, k.ns, p, &mut e.kids));
                    let n = times[c.dev(times.len())];
                    for _ in 0..n {
                        let p = &k.parts[first + c.dev(k.parts.len() - first)];
                        e.kids.push(element(c, p.ns.unwrap_or(k.ns), &p.name, &p.t));
                    }
                }
            }
        }
    }
    e
}

fn esc(s: &str, attr: bool) -> String {
    let s = s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;");
    if attr {
        s.replace('"', "&quot;")
    } else {
        s
    }
}

/// Ways of writing the same document down.
pub const STYLES: usize = 5;
pub fn print(e: &E, style: usize) -> String {
    fn go(e: &E, style: usize, depth: usize, default: &'static str, out: &mut String) {
        let p = match (style, e.ns) {
            (_, "") | (1, _) => "",
            (0, T_NS) => "tns:",
            (2 | 4, T_NS) => "q:",
            (_, T_NS) if depth % 2 == 0 => "tns:",
            (_, T_NS) => "t2:",
            (3, _) if depth % 2 == 1 => "o2:",
            _ => "o:",
        };
        out.push_str(&format!("<{}{}", p, e.name));
        if depth == 0 {
            out.push_str(match style {
                0 => " xmlns:tns=\"urn:t\" xmlns:o=\"urn:o\"",
                1 => "",
                2 | 4 => " xmlns:o=\"urn:o\" xmlns:unused=\"urn:u\" xmlns:q=\"urn:t\"",
                _ => " xmlns:tns=\"urn:t\" xmlns:t2=\"urn:t\" xmlns:o2=\"urn:o\" xmlns:o=\"urn:o\"",
            });
        }
        let mut default = default;
        if style == 1 && default != e.ns {
            out.push_str(&format!(" xmlns=\"{}\"", e.ns));
            default = e.ns;
        }
        let mut attrs = e.attrs.clone();
        if style == 2 {
            attrs.reverse();
        }
        for (n, v) in &attrs {
            if style == 2 {
                out.push_str(&format!("\n {}='{}'", n, esc(v, true).replace('\'', "&apos;")));
            } else {
                out.push_str(&format!(" {}=\"{}\"", n, esc(v, true)));
            }
        }
        match (&e.text, e.kids.is_empty()) {
            (None, true) => out.push_str(if style == 2 { "></" } else { "/>" }),
            (None, false) => {
                out.push('>');
                for k in &e.kids {
                    if style == 2 {
                        out.push_str("\n  <!-- note --> ");
                    }
                    if style == 4 {
                        out.push_str("<?pi data?>\n");
                    }
                    go(k, style, depth + 1, default, out);
                }
                if style == 2 {
                    out.push('\n');
                }
                out.push_str("</");
            }
            (Some(t), _) => {
                out.push('>');
                out.push_str(&esc(t, false));
                out.push_str("</");
            }
        }
        if out.ends_with("</") {
            out.push_str(&format!("{}{}>", p, e.name));
        }
    }
    let mut out = String::new();
    if style == 2 {
        out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- head -->\n");
    }
    go(e, style, 0, "", &mut out);
    out
}

/// Canonical form: names with namespaces, sorted attributes, text of leaves, order of children
/// (sorted below the elements of `unordered`, given by the expected document).
pub fn canon_doc(e: &E) -> String {
    let mut a: Vec<String> = e.attrs.iter().map(|(n, v)| format!(" {{}}{}={:?}", n, v)).collect();
    a.sort();
    let mut kids: Vec<String> = e.kids.iter().map(canon_doc).collect();
    if e.unordered {
        kids.sort();
    }
    format!("<{{{}}}{}{}>{}{}</>", e.ns, e.name, a.concat(), e.text.clone().unwrap_or_default(), kids.concat())
}

pub fn canon_xml(text: &str, like: &E) -> Result<String, String> {
    let d = roxmltree::Document::parse(text).map_err(|e| format!("output is no XML: {}", e))?;
    fn go(n: roxmltree::Node, like: Option<&E>) -> String {
        let mut a: Vec<String> = n.attributes().map(|a| format!(" {{{}}}{}={:?}", a.namespace().unwrap_or(""), a.name(), a.value())).collect();
        a.sort();
        let elems: Vec<roxmltree::Node> = n.children().filter(|c| c.is_element()).collect();
        let mut kids: Vec<String> = elems.iter().map(|c| go(*c, like.and_then(|l| l.kids.iter().find(|k| k.name == c.tag_name().name())))).collect();
        if like.map_or(false, |l| l.unordered) {
            kids.sort();
        }
        let text: String = n.children().filter(|c| c.is_text()).map(|c| c.text().unwrap_or("")).collect();
        let text = if elems.is_empty() { text } else { text.trim().to_string() };
        format!("<{{{}}}{}{}>{}{}</>", n.tag_name().namespace().unwrap_or(""), n.tag_name().name(), a.concat(), text, kids.concat())
    }
    Ok(go(d.root_element(), Some(like)))
}
