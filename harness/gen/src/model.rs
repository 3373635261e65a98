//! Abstract schemas, their rendering as XSD text and the reference model's prediction of what must be
//! generated for them.  The model knows namespaces, never prefix spellings.
use crate::ir::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ns {
    Xsd,
    Target,
    /// index into Schema::others
    Other(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ref {
    pub ns: Ns,
    pub local: String,
}
pub fn xs(l: &str) -> Ref {
    Ref { ns: Ns::Xsd, local: l.into() }
}
pub fn tn(l: &str) -> Ref {
    Ref { ns: Ns::Target, local: l.into() }
}
pub fn other(l: &str) -> Ref {
    Ref { ns: Ns::Other(0), local: l.into() }
}

pub type Doc = Option<String>;

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub style: Style,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Style {
    /// prefix of XML Schema; None = default namespace
    pub xsd: Option<&'static str>,
    /// prefix and URI of the target namespace; None = no target namespace
    pub target: Option<(Option<&'static str>, &'static str)>,
    pub others: Vec<(&'static str, &'static str)>,
    /// extra attributes on the schema element
    pub root_extra: &'static str,
    /// insignificant markup between the items: 0 none
    pub noise: usize,
    /// order in which attributes are written: 0 natural, 1 reversed
    pub attr_order: usize,
    /// namespace declarations written in reverse order
    pub ns_reversed: bool,
    pub quote: char,
    /// markup that says nothing about the generated types, on every element: 0 none
    pub decor: usize,
    pub prolog: &'static str,
}
impl Default for Style {
    fn default() -> Self {
        Style {
            xsd: Some("xs"),
            target: Some((Some("tns"), "http://example.com")),
            others: vec![("oth", "http://other.example.com")],
            root_extra: "",
            noise: 0,
            attr_order: 0,
            ns_reversed: false,
            quote: '"',
            decor: 0,
            prolog: "",
        }
    }
}

#[derive(Clone, Debug)]
pub enum Item {
    Complex(Complex),
    Simple(Simple),
    Element(GElem),
    Attribute(GAttr),
    AttrGroup(AttrGroup),
    Import { namespace: String, location: String, include: bool },
    Annotation(String),
}

#[derive(Clone, Debug, Default)]
pub struct Complex {
    pub name: String,
    pub doc: Doc,
    pub content: Content,
    pub attrs: Vec<AttrItem>,
}

#[derive(Clone, Debug, Default)]
pub enum Content {
    #[default]
    None,
    Seq(Vec<Particle>),
    All(Vec<Particle>),
    Choice(Vec<Elem>),
    /// simpleContent extension; attributes are those of the extension
    SimpleExt { base: Ref, attrs: Vec<AttrItem> },
    /// complexContent
    Derived { restriction: bool, base: Ref, content: Box<Content>, attrs: Vec<AttrItem> },
}

#[derive(Clone, Debug)]
pub enum Particle {
    Elem(Elem),
    Choice(Vec<Elem>),
    Any { min: Option<&'static str>, max: Option<&'static str> },
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub name: String,
    pub ty: ElemTy,
    pub min: Option<&'static str>,
    pub max: Option<&'static str>,
    pub doc: Doc,
}
#[derive(Clone, Debug)]
pub enum ElemTy {
    Named(Ref),
    Ref(Ref),
    Complex(Box<Complex>),
    Simple(Box<Simple>),
    /// no type at all (only inside choices)
    Untyped,
}

#[derive(Clone, Debug)]
pub struct GElem {
    pub name: String,
    pub doc: Doc,
    pub ty: ElemTy,
}
#[derive(Clone, Debug)]
pub struct GAttr {
    pub name: String,
    pub doc: Doc,
    pub ty: GAttrTy,
}
#[derive(Clone, Debug)]
pub enum GAttrTy {
    Named(Ref),
    Simple(Simple),
}

#[derive(Clone, Debug, Default)]
pub struct AttrGroup {
    pub name: String,
    pub attrs: Vec<AttrItem>,
    pub doc: Doc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Use {
    Default,
    Optional,
    Required,
    Prohibited,
}

#[derive(Clone, Debug)]
pub enum AttrItem {
    Attr { name: String, ty: Option<Ref>, us: Use, doc: Doc },
    Ref { to: Ref, us: Use },
    /// reference qualified with the predefined xml prefix
    Xml { name: String, us: Use },
    Group(Ref),
    Any,
}

#[derive(Clone, Debug)]
pub struct Simple {
    pub name: String,
    pub doc: Doc,
    pub def: SimpleDef,
}
#[derive(Clone, Debug)]
pub enum SimpleDef {
    Restr { base: Ref, facets: Vec<Facet> },
    List(Ref),
    ListOf(Box<Simple>),
    Union(Vec<Ref>, Vec<Simple>),
}
#[derive(Clone, Debug)]
pub struct Facet {
    pub kind: &'static str,
    pub value: String,
    pub doc: Doc,
}

pub fn elem(name: &str, ty: Ref) -> Elem {
    Elem { name: name.into(), ty: ElemTy::Named(ty), min: None, max: None, doc: None }
}
pub fn attr(name: &str, ty: Ref) -> AttrItem {
    AttrItem::Attr { name: name.into(), ty: Some(ty), us: Use::Default, doc: None }
}
pub fn complex(name: &str, content: Content) -> Complex {
    Complex { name: name.into(), content, ..Default::default() }
}
pub fn enumeration(name: &str, values: &[&str]) -> Simple {
    Simple {
        name: name.into(),
        doc: None,
        def: SimpleDef::Restr { base: xs("string"), facets: values.iter().map(|v| Facet { kind: "enumeration", value: v.to_string(), doc: None }).collect() },
    }
}
pub fn wrapper(name: &str, base: Ref) -> Simple {
    Simple { name: name.into(), doc: None, def: SimpleDef::Restr { base, facets: vec![] } }
}

// ------------------------------------------------------------------ rendering

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o += "&amp;",
            '<' => o += "&lt;",
            '>' => o += "&gt;",
            '"' => o += "&quot;",
            '\'' => o += "&apos;",
            '\n' => o += "&#10;",
            '\t' => o += "&#9;",
            '\r' => o += "&#13;",
            c => o.push(c),
        }
    }
    o
}
fn esc_text(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o += "&amp;",
            '<' => o += "&lt;",
            '>' => o += "&gt;",
            '\r' => o += "&#13;",
            c => o.push(c),
        }
    }
    o
}

pub struct W<'a> {
    st: &'a Style,
    pub out: String,
    depth: usize,
}

impl<'a> W<'a> {
    fn tag(&self, t: &str) -> String {
        if t != "schema" && matches!(self.st.decor, 12 | 16) {
            return format!("zx:{}", t);
        }
        match self.st.xsd {
            Some(p) => format!("{}:{}", p, t),
            None => t.into(),
        }
    }
    /// The reference as the schema spells it.
    pub fn q(&self, r: &Ref) -> String {
        match r.ns {
            // prefixes bound where they are used
            Ns::Xsd if matches!(self.st.decor, 12..=14 | 17..=19) => format!("zx:{}", r.local),
            Ns::Target if matches!(self.st.decor, 12..=14 | 17..=19) && self.st.target.is_some() => format!("zt:{}", r.local),
            _ => qname(self.st, r),
        }
    }
    fn noise(&mut self) {
        match self.st.noise {
            0 => {}
            1 => self.out += &format!("\n{}", "  ".repeat(self.depth)),
            2 => self.out += "<!-- a <comment> & \"noise\" -->",
            3 => self.out += "<?noise instruction?>",
            4 => self.out += "\r\n\t \n\n\n",
            _ => self.out += "\n<!--x-->\n<?p?> ",
        }
    }
    fn open(&mut self, t: &str, at: &[(&str, String)]) {
        self.noise();
        let mut at: Vec<_> = at.iter().collect();
        if self.st.attr_order == 1 {
            at.reverse();
        }
        let q = self.st.quote;
        let value = |v: &str| match self.st.decor {
            8 => format!(" {}\n\t ", esc(v)),
            11 => v.chars().map(|c| format!("&#x{:X};", c as u32)).collect(),
            15 => format!("&#10;{}&#9;&#13;", esc(v).replace(' ', "&#10;&#9; ")),
            19 => format!("&#10;{}&#9;&#13;", esc(v).replace(' ', "&#10;")),
            _ => esc(v),
        };
        let mut s: String = at.iter().map(|(k, v)| format!(" {}={}{}{}", k, q, if *k == "value" { esc(v) } else { value(v) }, q)).collect();
        let is_ref = at.iter().any(|a| a.0 == "ref");
        match (self.st.decor, t) {
            (1, "element") if !is_ref => s += " nillable='true' form='qualified'",
            (2, "element") if !is_ref => s += " default='1' block='#all'",
            (3, "complexType") => s += " mixed='true' abstract='true' final='#all'",
            (4, "attribute") if !is_ref => s += " form='qualified' default='1'",
            (5, _) => {
                let p = self.st.others[0].0;
                for (k, v) in [("name", "Ghost"), ("type", "ghost"), ("ref", "ghost"), ("base", "ghost"), ("minOccurs", "0"), ("maxOccurs", "unbounded"), ("use", "required"), ("itemType", "ghost"), ("memberTypes", "ghost"), ("value", "7")] {
                    s += &format!(" {}:{}='{}'", p, k, v);
                }
            }
            (9, _) => s += &format!(" id='id{}'", self.out.len()),
            (12 | 13, _) => s += &self.local_prefixes(),
            (14 | 16, _) if self.depth == 1 => s += &self.local_prefixes(),
            // only on the very elements that refer to something
            (17..=19, _) if s.contains("zx:") || s.contains("zt:") => s += &self.local_prefixes(),
            _ => {}
        }
        self.out += &format!("<{}{}>", self.tag(t), s);
        self.depth += 1;
        let documented = matches!(t, "element" | "complexType" | "simpleType" | "enumeration") || t.ends_with("clusive") || t.ends_with("ength") || (matches!(t, "attribute" | "attributeGroup") && !is_ref);
        if !documented {
            self.aside();
        }
    }
    fn local_prefixes(&self) -> String {
        let target = self.st.target.map(|t| format!(" xmlns:zt='{}'", esc(t.1))).unwrap_or_default();
        format!(" xmlns:zx='http://www.w3.org/2001/XMLSchema'{}", target)
    }
    /// Annotation for machines.
    fn aside(&mut self) {
        if let 6 | 7 = self.st.decor {
            let i = self.appinfo();
            self.out += &format!("<{}>{}</{}>", self.tag("annotation"), i, self.tag("annotation"));
        }
    }
    fn appinfo(&self) -> String {
        let ghost = match self.st.decor {
            6 => format!("<{}:hint name='Ghost'>for <b>machines</b></{}:hint>", self.st.others[0].0, self.st.others[0].0),
            7 => ["element", "attribute", "simpleType", "sequence", "enumeration", "schema", "complexType", "choice", "attributeGroup", "import", "restriction", "documentation"].iter().map(|t| format!("<{} name='Ghost' type='ghost' value='ghost'/>", self.tag(t))).collect(),
            _ => return String::new(),
        };
        format!("<{}>{}</{}>", self.tag("appinfo"), ghost, self.tag("appinfo"))
    }
    fn close(&mut self, t: &str) {
        self.depth -= 1;
        self.noise();
        self.out += &format!("</{}>", self.tag(t));
    }
    fn doc(&mut self, d: &Doc) {
        if d.is_none() {
            self.aside();
        }
        if let Some(d) = d {
            let bound = if self.depth == 1 && matches!(self.st.decor, 12 | 16) { self.local_prefixes() } else { String::new() };
            self.out += &format!("<{}{}>{}<{}>{}</{}></{}>", self.tag("annotation"), bound, self.appinfo(), self.tag("documentation"), esc_text(d), self.tag("documentation"), self.tag("annotation"));
        }
    }
    fn elem(&mut self, e: &Elem) {
        let mut at = vec![];
        match &e.ty {
            ElemTy::Ref(r) => at.push(("ref", self.q(r))),
            ElemTy::Named(r) => {
                at.push(("name", e.name.clone()));
                at.push(("type", self.q(r)));
            }
            _ => at.push(("name", e.name.clone())),
        }
        if let Some(m) = e.min {
            at.push(("minOccurs", m.into()));
        }
        if let Some(m) = e.max {
            at.push(("maxOccurs", m.into()));
        }
        self.open("element", &at);
        self.doc(&e.doc);
        match &e.ty {
            ElemTy::Complex(c) => self.complex(c, false),
            ElemTy::Simple(s) => self.simple(s, false),
            _ => {}
        }
        if !matches!(e.ty, ElemTy::Ref(_)) {
            self.constraints();
        }
        self.close("element");
    }
    /// Identity constraints.
    fn constraints(&mut self) {
        if self.st.decor == 10 {
            for (k, n) in [("unique", "once"), ("key", "name")] {
                self.open(k, &[("name", n.into())]);
                self.open("selector", &[("xpath", ".//*".into())]);
                self.close("selector");
                self.open("field", &[("xpath", "@id".into())]);
                self.close("field");
                self.close(k);
            }
        }
    }
    fn attrs(&mut self, v: &[AttrItem]) {
        for a in v {
            match a {
                AttrItem::Attr { name, ty, us, doc } => {
                    let mut at = vec![("name", name.clone())];
                    if let Some(t) = ty {
                        at.push(("type", self.q(t)));
                    }
                    self.us(*us, &mut at);
                    self.open("attribute", &at);
                    self.doc(doc);
                    self.close("attribute");
                }
                AttrItem::Ref { to, us } => {
                    let mut at = vec![("ref", self.q(to))];
                    self.us(*us, &mut at);
                    self.open("attribute", &at);
                    self.close("attribute");
                }
                AttrItem::Xml { name, us } => {
                    let mut at = vec![("ref", format!("xml:{}", name))];
                    self.us(*us, &mut at);
                    self.open("attribute", &at);
                    self.close("attribute");
                }
                AttrItem::Group(r) => {
                    let at = [("ref", self.q(r))];
                    self.open("attributeGroup", &at);
                    self.close("attributeGroup");
                }
                AttrItem::Any => {
                    self.open("anyAttribute", &[("namespace", "##any".into()), ("processContents", "lax".into())]);
                    self.close("anyAttribute");
                }
            }
        }
    }
    fn us(&self, u: Use, at: &mut Vec<(&str, String)>) {
        match u {
            Use::Default => {}
            Use::Optional => at.push(("use", "optional".into())),
            Use::Required => at.push(("use", "required".into())),
            Use::Prohibited => at.push(("use", "prohibited".into())),
        }
    }
    fn particles(&mut self, tag: &str, ps: &[Particle]) {
        self.open(tag, &[]);
        for p in ps {
            match p {
                Particle::Elem(e) => self.elem(e),
                Particle::Choice(v) => self.choice(v),
                Particle::Any { min, max } => {
                    let mut at = vec![("namespace", "##other".to_string()), ("processContents", "lax".to_string())];
                    if let Some(m) = min {
                        at.push(("minOccurs", m.to_string()));
                    }
                    if let Some(m) = max {
                        at.push(("maxOccurs", m.to_string()));
                    }
                    self.open("any", &at);
                    self.close("any");
                }
            }
        }
        self.close(tag);
    }
    fn choice(&mut self, v: &[Elem]) {
        self.open("choice", &[]);
        for e in v {
            self.elem(e);
        }
        self.close("choice");
    }
    fn content(&mut self, c: &Content) {
        match c {
            Content::None => {}
            Content::Seq(p) => self.particles("sequence", p),
            Content::All(p) => self.particles("all", p),
            Content::Choice(v) => self.choice(v),
            Content::SimpleExt { base, attrs } => {
                self.open("simpleContent", &[]);
                let at = [("base", self.q(base))];
                self.open("extension", &at);
                self.attrs(attrs);
                self.close("extension");
                self.close("simpleContent");
            }
            Content::Derived { restriction, base, content, attrs } => {
                self.open("complexContent", &[]);
                let t = if *restriction { "restriction" } else { "extension" };
                let at = [("base", self.q(base))];
                self.open(t, &at);
                self.content(content);
                self.attrs(attrs);
                self.close(t);
                self.close("complexContent");
            }
        }
    }
    fn complex(&mut self, c: &Complex, named: bool) {
        let at = if named { vec![("name", c.name.clone())] } else { vec![] };
        self.open("complexType", &at);
        self.doc(&c.doc);
        self.content(&c.content);
        self.attrs(&c.attrs);
        self.close("complexType");
    }
    fn simple(&mut self, s: &Simple, named: bool) {
        let at = if named { vec![("name", s.name.clone())] } else { vec![] };
        self.open("simpleType", &at);
        self.doc(&s.doc);
        match &s.def {
            SimpleDef::Restr { base, facets } => {
                let at = [("base", self.q(base))];
                self.open("restriction", &at);
                for f in facets {
                    self.open(f.kind, &[("value", f.value.clone())]);
                    self.doc(&f.doc);
                    self.close(f.kind);
                }
                self.close("restriction");
            }
            SimpleDef::List(r) => {
                let at = [("itemType", self.q(r))];
                self.open("list", &at);
                self.close("list");
            }
            SimpleDef::ListOf(i) => {
                self.open("list", &[]);
                self.simple(i, false);
                self.close("list");
            }
            SimpleDef::Union(m, a) => {
                let at = if m.is_empty() { vec![] } else { vec![("memberTypes", m.iter().map(|r| self.q(r)).collect::<Vec<_>>().join(" "))] };
                self.open("union", &at);
                for x in a {
                    self.simple(x, false);
                }
                self.close("union");
            }
        }
        self.close("simpleType");
    }
    fn item(&mut self, i: &Item) {
        match i {
            Item::Complex(c) => self.complex(c, true),
            Item::Simple(s) => self.simple(s, true),
            Item::Element(e) => {
                let mut at = vec![("name", e.name.clone())];
                if let ElemTy::Named(r) = &e.ty {
                    at.push(("type", self.q(r)));
                }
                self.open("element", &at);
                self.doc(&e.doc);
                match &e.ty {
                    ElemTy::Complex(c) => self.complex(c, false),
                    ElemTy::Simple(s) => self.simple(s, false),
                    _ => {}
                }
                self.constraints();
                self.close("element");
            }
            Item::Attribute(a) => {
                let mut at = vec![("name", a.name.clone())];
                if let GAttrTy::Named(r) = &a.ty {
                    at.push(("type", self.q(r)));
                }
                self.open("attribute", &at);
                self.doc(&a.doc);
                if let GAttrTy::Simple(s) = &a.ty {
                    self.simple(s, false);
                }
                self.close("attribute");
            }
            Item::AttrGroup(g) => {
                self.open("attributeGroup", &[("name", g.name.clone())]);
                self.doc(&g.doc);
                self.attrs(&g.attrs);
                self.close("attributeGroup");
            }
            Item::Import { namespace, location, include } => {
                if *include {
                    self.open("include", &[("schemaLocation", location.clone())]);
                    self.close("include");
                } else {
                    self.open("import", &[("namespace", namespace.clone()), ("schemaLocation", location.clone())]);
                    self.close("import");
                }
            }
            Item::Annotation(d) => self.doc(&Some(d.clone())),
        }
    }
}

/// The reference spelled with the prefixes of the root element.
pub fn qname(st: &Style, r: &Ref) -> String {
    let p = match r.ns {
        Ns::Xsd => st.xsd,
        Ns::Target => st.target.and_then(|t| t.0),
        Ns::Other(i) => Some(st.others[i].0),
    };
    match p {
        Some(p) => format!("{}:{}", p, r.local),
        None => r.local.clone(),
    }
}

pub fn render(s: &Schema) -> String {
    let st = &s.style;
    let mut w = W { st, out: st.prolog.to_string(), depth: 0 };
    let mut at: Vec<(String, String)> = vec![];
    at.push((st.xsd.map(|p| format!("xmlns:{}", p)).unwrap_or("xmlns".into()), "http://www.w3.org/2001/XMLSchema".into()));
    if let Some((p, u)) = st.target {
        match p {
            Some(p) => at.push((format!("xmlns:{}", p), u.into())),
            None => at.push(("xmlns".into(), u.into())),
        }
        at.push(("targetNamespace".into(), u.into()));
    }
    for (p, u) in &st.others {
        at.push((format!("xmlns:{}", p), u.to_string()));
    }
    if matches!(st.decor, 13 | 18) {
        // other meanings of these prefixes outside
        at.push(("xmlns:zt".into(), "urn:shadowed:t".into()));
        at.push(("xmlns:zx".into(), "urn:shadowed:x".into()));
    }
    if st.ns_reversed {
        at.reverse();
    }
    let q = st.quote;
    let a: String = at.iter().map(|(k, v)| format!(" {}={}{}{}", k, q, esc(v), q)).collect();
    w.out += &format!("<{}{}{}>", w.tag("schema"), a, st.root_extra);
    w.depth = 1;
    for i in &s.items {
        w.item(i);
    }
    w.depth = 0;
    w.noise();
    w.out += &format!("</{}>", w.tag("schema"));
    w.out
}

// ------------------------------------------------------------------ prediction

/// The mapping table of the README.
pub const BUILTIN: &[(&str, &str)] = &[
    ("hexBinary", "String"),
    ("base64Binary", "String"),
    ("boolean", "bool"),
    ("integer", "xs::Integer"),
    ("nonNegativeInteger", "xs::NonNegativeInteger"),
    ("positiveInteger", "xs::PositiveInteger"),
    ("nonPositiveInteger", "xs::NonPositiveInteger"),
    ("negativeInteger", "xs::NegativeInteger"),
    ("long", "i64"),
    ("int", "i32"),
    ("short", "i16"),
    ("byte", "i8"),
    ("unsignedLong", "u64"),
    ("unsignedInt", "u32"),
    ("unsignedShort", "u16"),
    ("unsignedByte", "u8"),
    ("decimal", "xs::Decimal"),
    ("double", "f64"),
    ("float", "f64"),
    ("date", "xs::Date"),
    ("time", "xs::Time"),
    ("dateTime", "xs::DateTime"),
    ("dateTimeStamp", "xs::DateTimeStamp"),
    ("duration", "xs::Duration"),
    ("gDay", "xs::GDay"),
    ("gMonth", "xs::GMonth"),
    ("gMonthDay", "xs::GMonthDay"),
    ("gYear", "xs::GYear"),
    ("gYearMonth", "xs::GYearMonth"),
    ("string", "String"),
    ("normalizedString", "String"),
    ("token", "String"),
    ("language", "String"),
    ("Name", "String"),
    ("NCName", "String"),
    ("ENTITY", "String"),
    ("ID", "String"),
    ("IDREF", "String"),
    ("NMTOKEN", "String"),
    ("anyURI", "String"),
    ("QName", "String"),
    ("NOTATION", "String"),
    ("ENTITIES", "Vec<String>"),
    ("IDREFS", "Vec<String>"),
    ("NMTOKENS", "Vec<String>"),
];

/// Pascal case (the published rules of the casing library: a word starts after a separator or digit, or
/// where an upper-case letter follows a lower-case one that is not itself the start of a word).
pub fn pascal(s: &str) -> String {
    let mut o = String::new();
    let (mut new_word, mut last) = (true, ' ');
    for c in s.trim_end_matches(|c: char| !c.is_alphanumeric()).chars() {
        if !c.is_alphanumeric() {
            if !o.is_empty() {
                new_word = true;
            }
        } else if c.is_numeric() {
            new_word = true;
            o.push(c);
        } else if new_word || (last.is_lowercase() && c.is_uppercase()) {
            new_word = false;
            o.push(c.to_ascii_uppercase());
        } else {
            last = c;
            o.push(c.to_ascii_lowercase());
        }
    }
    o
}
/// Snake case; a letter or digit starts a word where it is no lower-case letter and has a lower-case neighbour.
pub fn snake(s: &str) -> String {
    let t: Vec<char> = s.trim_end_matches(|c: char| !c.is_alphanumeric()).chars().collect();
    let all: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut first = true;
    let mut next = 0;
    for &c in t.iter() {
        // Inflector looks for the neighbours at the place in bytes, counted in characters
        let i = next;
        next += c.len_utf8();
        if !c.is_alphanumeric() {
            if !first {
                first = true;
                o.push('_');
            }
            continue;
        }
        let near_lower = all.get(i + 1).map(|c| c.is_lowercase()).unwrap_or(false) || (i > 0 && all.get(i - 1).map(|c| c.is_lowercase()).unwrap_or(false));
        if !first && c == c.to_ascii_uppercase() && near_lower {
            o.push('_');
        }
        first = false;
        o.push(c.to_ascii_lowercase());
    }
    o
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Card {
    One,
    Opt,
    Many,
}
/// Module that stands for a foreign namespace: its prefix, made an identifier
pub fn module_of(prefix: &str) -> String {
    prefix.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect()
}
/// None: the property does not say (an upper bound of zero, or below the lower bound).
pub fn cardinality(min: Option<&str>, max: Option<&str>) -> Option<Card> {
    let lo: u64 = min.map(|m| m.parse().unwrap()).unwrap_or(1);
    let hi: Option<u64> = match max {
        None => Some(1),
        Some("unbounded") => None,
        Some(m) => Some(m.parse().unwrap()),
    };
    match hi {
        Some(h) if h < lo => None,
        Some(0) => Some(Card::Opt),
        Some(1) => Some(if lo == 0 { Card::Opt } else { Card::One }),
        _ => Some(Card::Many),
    }
}
pub fn wrap(card: Card, ty: &str) -> String {
    match card {
        Card::One => ty.into(),
        Card::Opt => format!("Option<{}>", ty),
        Card::Many => format!("Vec<{}>", ty),
    }
}

#[derive(Clone)]
struct Member {
    /// XML name as written, the identity for "each member name once"
    id: String,
    ident: String,
    /// type relative to the struct that carries it; `{mod}` stands for that struct's module
    ty: String,
    kind: Kind,
    sub: Vec<Node>,
    attr: bool,
    /// prohibited: keeps an inherited attribute of that name out
    hidden: bool,
}

/// What a list of particles is directly enclosed by: a named type, or the anonymous type of a global element.
#[derive(Clone, Copy)]
enum Own<'n> {
    Type(&'n str),
    Element(&'n str),
    Neither,
}
impl Own<'_> {
    fn card(self, card: Card, e: &ElemTy) -> Card {
        match (self, e) {
            (Own::Type(n), ElemTy::Named(r)) | (Own::Element(n), ElemTy::Ref(r)) if r.ns == Ns::Target && r.local == n => Card::Many,
            _ => card,
        }
    }
}

pub struct Model<'a> {
    s: &'a Schema,
    complex: BTreeMap<String, &'a Complex>,
    groups: BTreeMap<String, &'a AttrGroup>,
}

impl<'a> Model<'a> {
    pub fn new(s: &'a Schema) -> Self {
        let mut complex = BTreeMap::new();
        let mut groups = BTreeMap::new();
        for i in &s.items {
            match i {
                Item::Complex(c) => {
                    complex.insert(c.name.clone(), c);
                }
                Item::AttrGroup(g) => {
                    groups.insert(g.name.clone(), g);
                }
                _ => {}
            }
        }
        Model { s, complex, groups }
    }

    pub fn ns(&self) -> NsAttr {
        match self.s.style.target {
            None => NsAttr::default(),
            Some((None, u)) => NsAttr { prefix: Some("".into()), namespace: Some(u.into()), default: Some("".into()) },
            Some((Some(p), u)) => NsAttr { prefix: Some(p.into()), namespace: Some(format!("{}: {}", p, u)), default: None },
        }
    }
    fn tprefix(&self) -> Option<String> {
        self.s.style.target.map(|t| t.0.unwrap_or("").to_string())
    }
    pub fn ty(&self, r: &Ref) -> String {
        match r.ns {
            Ns::Xsd => BUILTIN.iter().find(|b| b.0 == r.local).map(|b| b.1.to_string()).unwrap_or_else(|| panic!("not a builtin: {}", r.local)),
            Ns::Target => pascal(&r.local),
            Ns::Other(i) => format!("{}::{}", module_of(self.s.style.others[i].0), pascal(&r.local)),
        }
    }

    /// Expected reduction of the whole generated source.
    pub fn predict(&self) -> Vec<Node> {
        let mut v: Vec<Node> = self.s.items.iter().flat_map(|i| self.item(i)).collect();
        sort(&mut v);
        v
    }

    pub fn item(&self, i: &Item) -> Vec<Node> {
        match i {
            Item::Complex(c) => self.complex_nodes(c, &c.name, Own::Type(&c.name)),
            Item::Simple(s) => self.simple_nodes(s, &s.name, &s.name),
            Item::Element(e) => match &e.ty {
                ElemTy::Named(_) => vec![],
                ElemTy::Ref(_) => unreachable!(),
                ElemTy::Complex(c) => self.complex_nodes(c, &e.name, Own::Element(&e.name)),
                ElemTy::Simple(s) => self.simple_nodes(s, &e.name, &e.name),
                ElemTy::Untyped => vec![Node::Struct { name: pascal(&e.name), ns: self.ns(), elems: vec![], attrs: vec![] }],
            },
            Item::Attribute(a) => match &a.ty {
                GAttrTy::Named(_) => vec![],
                GAttrTy::Simple(s) => self.simple_nodes(s, &a.name, &a.name),
            },
            _ => vec![],
        }
    }

    fn attr_members(&self, v: &[AttrItem], seen: &mut Vec<String>) -> Vec<Member> {
        let mut out = vec![];
        for a in v {
            let (id, ty, us, kind, ident) = match a {
                AttrItem::Attr { name, ty, us, .. } => {
                    (name.clone(), ty.as_ref().map(|t| self.ty(t)).unwrap_or("String".into()), us, Kind::Attr { prefix: None, name: name.clone() }, snake(name))
                }
                AttrItem::Ref { to, us } => {
                    let q = qname(&self.s.style, to);
                    let prefix = q.split_once(':').map(|x| x.0.to_string());
                    (q.clone(), self.ty(to), us, Kind::Attr { prefix, name: to.local.clone() }, snake(&to.local))
                }
                AttrItem::Xml { name, us } => {
                    (format!("xml:{}", name), format!("xml::{}", pascal(name)), us, Kind::Attr { prefix: Some("xml".into()), name: name.clone() }, snake(name))
                }
                AttrItem::Group(r) => {
                    if r.ns == Ns::Target && !seen.contains(&r.local) {
                        if let Some(g) = self.groups.get(&r.local) {
                            seen.push(r.local.clone());
                            out.extend(self.attr_members(&g.attrs, seen));
                        }
                    }
                    continue;
                }
                AttrItem::Any => continue,
            };
            let ty = match us {
                Use::Required => ty,
                Use::Prohibited => ty,
                _ => format!("Option<{}>", ty),
            };
            out.push(Member { id, ident, ty, kind, sub: vec![], attr: true, hidden: *us == Use::Prohibited });
        }
        out
    }

    fn elem_member(&self, e: &Elem, own: Own) -> Member {
        let card = own.card(cardinality(e.min, e.max).expect("unspecified cardinality in a model schema"), &e.ty);
        match &e.ty {
            ElemTy::Named(r) => {
                Member {
                    id: e.name.clone(),
                    ident: snake(&e.name),
                    ty: wrap(card, &self.ty(r)),
                    kind: Kind::Elem { prefix: self.tprefix(), name: e.name.clone() },
                    sub: vec![],
                    attr: false,
                    hidden: false,
                }
            }
            ElemTy::Ref(r) => {
                let q = qname(&self.s.style, r);
                let prefix = q.split_once(':').map(|x| x.0.to_string()).or(self.tprefix());
                Member { id: q, ident: snake(&r.local), ty: wrap(card, &self.ty(r)), kind: Kind::Elem { prefix, name: r.local.clone() }, sub: vec![], attr: false, hidden: false }
            }
            ElemTy::Complex(c) => {
                let tname = format!("{}Type", e.name);
                Member {
                    id: e.name.clone(),
                    ident: snake(&e.name),
                    ty: wrap(card, &format!("{{mod}}::{}", pascal(&tname))),
                    kind: Kind::Elem { prefix: self.tprefix(), name: e.name.clone() },
                    sub: self.complex_nodes_named(c, &tname, &e.name, Own::Neither),
                    attr: false,
                    hidden: false,
                }
            }
            ElemTy::Simple(s) => {
                let tname = format!("{}Type", e.name);
                Member {
                    id: e.name.clone(),
                    ident: snake(&e.name),
                    ty: wrap(card, &format!("{{mod}}::{}", pascal(&tname))),
                    kind: Kind::Elem { prefix: self.tprefix(), name: e.name.clone() },
                    sub: self.simple_nodes(s, &tname, &e.name),
                    attr: false,
                    hidden: false,
                }
            }
            ElemTy::Untyped => unreachable!("untyped element outside a choice"),
        }
    }

    /// The enum of a choice; `encl` is the name of the enclosing declaration.
    fn choice_enum(&self, v: &[Elem], encl: &str, own: Own) -> Node {
        // alternatives are elements of the target namespace
        let tp = self.s.style.target.map(|t| t.0.unwrap_or("").to_string());
        let variants = v
            .iter()
            .map(|e| {
                let card = cardinality(e.min, e.max).expect("unspecified cardinality");
                match &e.ty {
                    ElemTy::Named(r) => Variant { ident: pascal(&e.name), name: e.name.clone(), prefix: tp.clone(), ty: Some(wrap(own.card(card, &e.ty), &self.ty(r))) },
                    ElemTy::Ref(r) => {
                        let q = qname(&self.s.style, r);
                        Variant { ident: pascal(&r.local), name: r.local.clone(), prefix: q.split_once(':').map(|x| x.0.to_string()).or(tp.clone()), ty: Some(wrap(own.card(card, &e.ty), &self.ty(r))) }
                    }
                    ElemTy::Untyped => Variant { ident: pascal(&e.name), name: e.name.clone(), prefix: tp.clone(), ty: None },
                    _ => unreachable!("anonymous type in a choice is not modelled"),
                }
            })
            .collect();
        Node::Enum { name: pascal(&format!("{}Choice", encl)), union: false, ns: self.ns(), variants, unknown: Some("String".into()) }
    }

    fn particle_members(&self, ps: &[Particle], encl_name: &str, own: Own) -> Vec<Member> {
        ps.iter()
            .filter_map(|p| match p {
                Particle::Elem(e) => Some(self.elem_member(e, own)),
                Particle::Choice(v) => Some(self.choice_member(v, encl_name, own)),
                Particle::Any { .. } => None,
            })
            .collect()
    }
    fn choice_member(&self, v: &[Elem], encl_name: &str, own: Own) -> Member {
        let n = format!("{}Choice", encl_name);
        Member { id: n.clone(), ident: snake(&n), ty: format!("{{mod}}::{}", pascal(&n)), kind: Kind::Flatten, sub: vec![self.choice_enum(v, encl_name, own)], attr: false, hidden: false }
    }

    /// All members of a complex type, own first, then inherited; and the nodes that stand next to it.
    fn members(&self, c: &Complex, encl_name: &str, own: Own, depth: usize) -> (Vec<Member>, Vec<Node>) {
        let mut seen = vec![];
        let mut beside = vec![];
        let mut out: Vec<Member>;
        match &c.content {
            Content::None => out = vec![],
            Content::Seq(p) | Content::All(p) => out = self.particle_members(p, encl_name, own),
            Content::Choice(v) => {
                let mut m = self.choice_member(v, encl_name, own);
                beside = std::mem::take(&mut m.sub);
                m.ty = m.ty.replace("{mod}::", "");
                out = vec![m];
            }
            Content::SimpleExt { base, attrs } => {
                out = self.attr_members(attrs, &mut seen);
                self.inherit(&mut out, base, depth);
            }
            Content::Derived { base, content, attrs, .. } => {
                out = match &**content {
                    Content::None => vec![],
                    Content::Seq(p) | Content::All(p) => self.particle_members(p, encl_name, own),
                    Content::Choice(v) => vec![self.choice_member(v, encl_name, own)],
                    _ => unreachable!(),
                };
                out.extend(self.attr_members(attrs, &mut seen));
                self.inherit(&mut out, base, depth);
            }
        }
        out.extend(self.attr_members(&c.attrs, &mut seen));
        (out, beside)
    }

    fn inherit(&self, out: &mut Vec<Member>, base: &Ref, depth: usize) {
        if base.ns != Ns::Target || depth > 2000 {
            return;
        }
        if let Some(b) = self.complex.get(&base.local) {
            for m in self.members(b, &b.name, Own::Type(&b.name), depth + 1).0 {
                if !out.iter().any(|o| o.id == m.id) {
                    out.push(m);
                }
            }
        }
    }

    fn complex_nodes(&self, c: &Complex, name: &str, own: Own) -> Vec<Node> {
        self.complex_nodes_named(c, name, name, own)
    }

    /// `name`: name of the struct; `encl`: name of the declaration around it.
    fn complex_nodes_named(&self, c: &Complex, name: &str, encl: &str, own: Own) -> Vec<Node> {
        let (members, beside) = self.members(c, encl, own, 0);
        let m = snake(name);
        let mut elems = vec![];
        let mut attrs = vec![];
        let mut sub = vec![];
        for x in members {
            if x.hidden {
                continue;
            }
            let f = Field { ident: x.ident, ty: x.ty.replace("{mod}", &m), kind: x.kind };
            sub.extend(x.sub);
            if x.attr {
                attrs.push(f)
            } else {
                elems.push(f)
            }
        }
        let mut out = vec![Node::Struct { name: pascal(name), ns: self.ns(), elems, attrs }];
        if !sub.is_empty() {
            out.push(Node::Mod { name: m, items: sub });
        }
        out.extend(beside);
        out
    }

    /// `encl`: name of the declaration an anonymous item type of a list is named after.
    fn simple_nodes(&self, s: &Simple, name: &str, encl: &str) -> Vec<Node> {
        match &s.def {
            SimpleDef::Restr { base, facets } => {
                let values: Vec<&str> = facets.iter().filter(|f| f.kind == "enumeration").map(|f| f.value.as_str()).collect();
                if !values.is_empty() && values.iter().all(|v| is_plain_word(v)) {
                    vec![Node::Enum {
                        name: pascal(name),
                        union: false,
                        ns: self.ns(),
                        variants: values.iter().map(|v| Variant { ident: value_ident(v), name: v.to_string(), prefix: None, ty: None }).collect(),
                        unknown: Some(self.ty(base)),
                    }]
                } else {
                    vec![Node::Wrapper { name: pascal(name), ty: self.ty(base) }]
                }
            }
            SimpleDef::List(r) => vec![Node::Wrapper { name: pascal(name), ty: format!("Vec<{}>", self.ty(r)) }],
            SimpleDef::ListOf(i) => match self.simple_nodes(i, &format!("{}Enum", encl), encl) {
                v if matches!(v[0], Node::Enum { .. }) => {
                    let mut out = vec![Node::Wrapper { name: pascal(name), ty: format!("Vec<{}>", v[0].name()) }];
                    out.extend(v);
                    out
                }
                mut v => match v.remove(0) {
                    Node::Wrapper { ty, .. } => {
                        v.insert(0, Node::Wrapper { name: pascal(name), ty: format!("Vec<{}>", ty) });
                        v
                    }
                    _ => unreachable!(),
                },
            },
            SimpleDef::Union(m, a) => {
                let mut variants: Vec<Variant> = m.iter().map(|r| Variant { ident: pascal(&r.local), name: pascal(&r.local), prefix: None, ty: Some(self.ty(r)) }).collect();
                let mut out = vec![];
                for (i, x) in a.iter().enumerate() {
                    variants.push(Variant { ident: format!("EnumCase{}", i), name: format!("EnumCase{}", i), prefix: None, ty: Some(format!("EnumCaseType{}", i)) });
                    out.extend(self.simple_nodes(x, &format!("EnumCaseType{}", i), encl));
                }
                out.push(Node::Enum { name: pascal(name), union: true, ns: NsAttr::default(), variants, unknown: Some("String".into()) });
                out
            }
        }
    }
}

/// letters, digits and hyphens, with at least one letter or digit to name the variant by
pub fn is_plain_word(v: &str) -> bool {
    v.chars().all(|c| c.is_alphanumeric() || c == '-') && v.chars().any(|c| c.is_alphanumeric())
}
/// identifier of an enumeration value made of simple words separated by hyphens
pub fn value_ident(v: &str) -> String {
    let p: String = v.split('-').filter(|w| !w.is_empty()).map(pascal).collect();
    if p.starts_with(|c: char| c.is_numeric()) {
        format!("_{}", p)
    } else {
        p
    }
}
