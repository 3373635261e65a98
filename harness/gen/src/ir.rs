//! Reduction of generated Rust source to what it means: the items, their members, their types and
//! their XML names.  Formatting, comments and item order inside a module are not part of it.
use quote::ToTokens;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Attr { prefix: Option<String>, name: String },
    Elem { prefix: Option<String>, name: String },
    Flatten,
    Plain,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Field {
    pub ident: String,
    pub ty: String,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Variant {
    pub ident: String,
    /// name used in XML
    pub name: String,
    pub prefix: Option<String>,
    pub ty: Option<String>,
}

/// `yaserde(prefix = .., namespace = ..)` of a type
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct NsAttr {
    pub prefix: Option<String>,
    pub namespace: Option<String>,
    /// written without prefix
    pub default: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Node {
    /// elements (and flattened choices) in order; attributes sorted
    Struct { name: String, ns: NsAttr, elems: Vec<Field>, attrs: Vec<Field> },
    Wrapper { name: String, ty: String },
    /// union = derives UtilsUnionSerDe
    Enum { name: String, union: bool, ns: NsAttr, variants: Vec<Variant>, unknown: Option<String> },
    Mod { name: String, items: Vec<Node> },
    /// anything not expected in generated code, or a broken convention
    Odd(String),
}

impl Node {
    pub fn name(&self) -> &str {
        match self {
            Node::Struct { name, .. } | Node::Wrapper { name, .. } | Node::Enum { name, .. } | Node::Mod { name, .. } => name,
            Node::Odd(s) => s,
        }
    }
}

pub fn toks(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

/// Token text of a whole source, insensitive to formatting and comments.
pub fn tokens_of(src: &str) -> Result<String, String> {
    let f = syn::parse_file(src).map_err(|e| format!("not valid Rust: {}", e))?;
    Ok(f.to_token_stream().to_string())
}

pub fn sort(items: &mut Vec<Node>) {
    for i in items.iter_mut() {
        match i {
            Node::Mod { items, .. } => sort(items),
            Node::Struct { attrs, .. } => attrs.sort(),
            _ => {}
        }
    }
    items.sort();
}

/// Names of the types declared at the top level, in source order.
pub fn top_names(src: &str) -> Result<Vec<String>, String> {
    let f = syn::parse_file(src).map_err(|e| format!("not valid Rust: {}", e))?;
    Ok(f.items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Struct(s) => Some(s.ident.to_string()),
            syn::Item::Enum(s) => Some(s.ident.to_string()),
            _ => None,
        })
        .collect())
}

pub fn extract(src: &str) -> Result<Vec<Node>, String> {
    let f = syn::parse_file(src).map_err(|e| format!("not valid Rust: {}", e))?;
    let mut v = items(&f.items, true);
    sort(&mut v);
    Ok(v)
}

#[derive(Default)]
struct Attrs {
    derives: Vec<String>,
    yaserde: BTreeMap<String, Option<String>>,
    has_yaserde: bool,
    other: Vec<String>,
}

fn attrs(a: &[syn::Attribute]) -> Attrs {
    let mut r = Attrs::default();
    for x in a {
        if x.path().is_ident("derive") {
            let _ = x.parse_nested_meta(|m| {
                r.derives.push(toks(&m.path));
                Ok(())
            });
        } else if x.path().is_ident("yaserde") {
            r.has_yaserde = true;
            let res = x.parse_nested_meta(|m| {
                let k = toks(&m.path);
                if m.input.peek(syn::Token![=]) {
                    let v: syn::LitStr = m.value()?.parse()?;
                    if r.yaserde.insert(k.clone(), Some(v.value())).is_some() {
                        r.other.push(format!("repeated yaserde key {}", k));
                    }
                } else if r.yaserde.insert(k.clone(), None).is_some() {
                    r.other.push(format!("repeated yaserde key {}", k));
                }
                Ok(())
            });
            if let Err(e) = res {
                r.other.push(format!("yaserde attribute: {}", e));
            }
        } else if x.path().is_ident("doc") || x.path().is_ident("allow") {
        } else {
            r.other.push(toks(x));
        }
    }
    r
}

fn ns_of(a: &Attrs, odd: &mut Vec<Node>, who: &str) -> NsAttr {
    for k in a.yaserde.keys() {
        if k != "prefix" && k != "namespace" && k != "default_namespace" {
            odd.push(Node::Odd(format!("{}: unexpected yaserde({})", who, k)));
        }
    }
    NsAttr { prefix: a.yaserde.get("prefix").cloned().flatten(), namespace: a.yaserde.get("namespace").cloned().flatten(), default: a.yaserde.get("default_namespace").cloned().flatten() }
}

fn need_derives(a: &Attrs, need: &[&str], odd: &mut Vec<Node>, who: &str) {
    for n in need {
        if !a.derives.iter().any(|d| d == n) {
            odd.push(Node::Odd(format!("{} does not derive {}", who, n)));
        }
    }
    for o in &a.other {
        odd.push(Node::Odd(format!("{}: {}", who, o)));
    }
}

fn is_pub(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}

fn items(list: &[syn::Item], top: bool) -> Vec<Node> {
    let mut out = vec![];
    let mut validates: Vec<String> = vec![];
    let mut defaults: Vec<String> = vec![];
    let mut uses_super = false;
    for it in list {
        match it {
            syn::Item::Struct(s) => {
                let name = s.ident.to_string();
                if !is_pub(&s.vis) {
                    out.push(Node::Odd(format!("{} is not public", name)));
                }
                if !s.generics.params.is_empty() {
                    out.push(Node::Odd(format!("{} is generic", name)));
                }
                let a = attrs(&s.attrs);
                match &s.fields {
                    syn::Fields::Named(fs) => {
                        need_derives(&a, &["Default", "Clone", "PartialEq", "Debug", "YaSerialize", "YaDeserialize"], &mut out, &name);
                        let ns = ns_of(&a, &mut out, &name);
                        let (mut elems, mut at) = (vec![], vec![]);
                        for f in &fs.named {
                            let ident = f.ident.as_ref().unwrap().to_string();
                            if !is_pub(&f.vis) {
                                out.push(Node::Odd(format!("{}.{} is not public", name, ident)));
                            }
                            let fa = attrs(&f.attrs);
                            for o in &fa.other {
                                out.push(Node::Odd(format!("{}.{}: {}", name, ident, o)));
                            }
                            let y = &fa.yaserde;
                            let prefix = y.get("prefix").cloned().flatten();
                            let rename = y.get("rename").cloned().flatten().unwrap_or_else(|| ident.clone());
                            for k in y.keys() {
                                if !["attribute", "flatten", "prefix", "rename"].contains(&k.as_str()) {
                                    out.push(Node::Odd(format!("{}.{}: unexpected yaserde({})", name, ident, k)));
                                }
                            }
                            let kind = if y.contains_key("flatten") {
                                if y.len() > 1 {
                                    out.push(Node::Odd(format!("{}.{}: flatten with other keys", name, ident)));
                                }
                                Kind::Flatten
                            } else if y.contains_key("attribute") {
                                Kind::Attr { prefix, name: rename }
                            } else if fa.has_yaserde {
                                Kind::Elem { prefix, name: rename }
                            } else {
                                Kind::Plain
                            };
                            let fld = Field { ident, ty: toks(&f.ty), kind };
                            if matches!(fld.kind, Kind::Attr { .. }) {
                                at.push(fld)
                            } else {
                                elems.push(fld)
                            }
                        }
                        out.push(Node::Struct { name, ns, elems, attrs: at });
                    }
                    syn::Fields::Unnamed(fs) => {
                        need_derives(&a, &["Default", "Clone", "PartialEq", "Debug", "UtilsTupleIo", "UtilsDefaultSerde"], &mut out, &name);
                        if fs.unnamed.len() != 1 || !is_pub(&fs.unnamed[0].vis) {
                            out.push(Node::Odd(format!("{} is not a wrapper of one public value", name)));
                            continue;
                        }
                        out.push(Node::Wrapper { name, ty: toks(&fs.unnamed[0].ty) });
                    }
                    syn::Fields::Unit => out.push(Node::Odd(format!("unit struct {}", name))),
                }
            }
            syn::Item::Enum(e) => {
                let name = e.ident.to_string();
                if !is_pub(&e.vis) {
                    out.push(Node::Odd(format!("{} is not public", name)));
                }
                let a = attrs(&e.attrs);
                let union = a.derives.iter().any(|d| d == "UtilsUnionSerDe");
                if union {
                    need_derives(&a, &["PartialEq", "Debug"], &mut out, &name);
                } else {
                    need_derives(&a, &["PartialEq", "Debug", "Clone", "YaSerialize", "YaDeserialize"], &mut out, &name);
                }
                let ns = ns_of(&a, &mut out, &name);
                let mut unknown = None;
                let mut variants = vec![];
                for v in &e.variants {
                    let ident = v.ident.to_string();
                    let va = attrs(&v.attrs);
                    for o in &va.other {
                        out.push(Node::Odd(format!("{}::{}: {}", name, ident, o)));
                    }
                    let ty = match &v.fields {
                        syn::Fields::Unit => None,
                        syn::Fields::Unnamed(f) if f.unnamed.len() == 1 => Some(toks(&f.unnamed[0].ty)),
                        o => {
                            out.push(Node::Odd(format!("{}::{} carries {}", name, ident, toks(o))));
                            None
                        }
                    };
                    if ident == "__Unknown__" {
                        if unknown.is_some() {
                            out.push(Node::Odd(format!("{} has two catch-all variants", name)));
                        }
                        unknown = ty.or(Some("()".into()));
                        continue;
                    }
                    for k in va.yaserde.keys() {
                        if !["prefix", "rename"].contains(&k.as_str()) {
                            out.push(Node::Odd(format!("{}::{}: unexpected yaserde({})", name, ident, k)));
                        }
                    }
                    variants.push(Variant {
                        name: va.yaserde.get("rename").cloned().flatten().unwrap_or_else(|| ident.clone()),
                        prefix: va.yaserde.get("prefix").cloned().flatten(),
                        ident,
                        ty,
                    });
                }
                out.push(Node::Enum { name, union, ns, variants, unknown });
            }
            syn::Item::Impl(i) => {
                let tr = i.trait_.as_ref().map(|t| toks(&t.1)).unwrap_or_default();
                let me = toks(&i.self_ty);
                match tr.as_str() {
                    "Validate" => validates.push(me),
                    "Default" => {
                        let body = toks(i);
                        if !body.contains("Self::__Unknown__(") && !body.contains(&format!("{}::__Unknown__(", me)) {
                            out.push(Node::Odd(format!("default of {} is not its catch-all variant", me)));
                        }
                        defaults.push(me)
                    }
                    _ => out.push(Node::Odd(format!("impl {} for {}", tr, me))),
                }
            }
            syn::Item::Mod(m) => {
                let name = m.ident.to_string();
                if !is_pub(&m.vis) {
                    out.push(Node::Odd(format!("mod {} is not public", name)));
                }
                match &m.content {
                    Some((_, c)) => out.push(Node::Mod { name, items: items(c, false) }),
                    None => out.push(Node::Odd(format!("mod {} without content", name))),
                }
            }
            syn::Item::Use(u) if toks(u) == "usesuper::*;" && !top => uses_super = true,
            o => out.push(Node::Odd(format!("item {}", toks(o).chars().take(200).collect::<String>()))),
        }
    }
    if !top && !uses_super {
        out.push(Node::Odd("module does not import its parent".into()));
    }
    let mut names: Vec<String> = vec![];
    let mut mods: Vec<String> = vec![];
    let mut enums: Vec<String> = vec![];
    for n in &out {
        match n {
            Node::Struct { name, .. } | Node::Wrapper { name, .. } => names.push(name.clone()),
            Node::Enum { name, .. } => {
                names.push(name.clone());
                enums.push(name.clone());
            }
            Node::Mod { name, .. } => mods.push(name.clone()),
            _ => {}
        }
    }
    let mut complain = |mut have: Vec<String>, mut want: Vec<String>, what: &str, out: &mut Vec<Node>| {
        have.sort();
        want.sort();
        if have != want {
            out.push(Node::Odd(format!("{} for {:?}, expected for {:?}", what, have, want)));
        }
    };
    complain(validates, names.clone(), "impl Validate", &mut out);
    complain(defaults, enums, "impl Default", &mut out);
    for (l, w) in [(&names, "type"), (&mods, "module")] {
        let mut s = l.clone();
        s.sort();
        for p in s.windows(2) {
            if p[0] == p[1] {
                out.push(Node::Odd(format!("{} {} declared twice", w, p[0])));
            }
        }
    }
    out
}

/// The `//` comments of a source in order, line by line, with the line number and the code that
/// follows on the same line ignored.  String literals are respected.
pub fn comments(src: &str) -> Vec<(usize, String)> {
    let b: Vec<char> = src.chars().collect();
    let mut out = vec![];
    let (mut i, mut line) = (0, 0);
    while i < b.len() {
        match b[i] {
            '\n' => line += 1,
            '"' => {
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' {
                        i += 1;
                    }
                    if i < b.len() && b[i] == '\n' {
                        line += 1;
                    }
                    i += 1;
                }
            }
            '/' if b.get(i + 1) == Some(&'/') => {
                let mut s = String::new();
                i += 2;
                while i < b.len() && b[i] != '\n' {
                    s.push(b[i]);
                    i += 1;
                }
                out.push((line, s));
                continue;
            }
            _ => {}
        }
        i += 1;
    }
    out
}

/// First difference between two reductions, for humans.
pub fn diff(want: &[Node], got: &[Node]) -> Option<(String, String)> {
    if want == got {
        return None;
    }
    for n in got {
        if let Node::Odd(s) = n {
            if !want.contains(n) {
                return Some(("only regular generated items".into(), s.clone()));
            }
        }
    }
    for n in 0..want.len().max(got.len()) {
        match (want.get(n), got.get(n)) {
            (Some(a), Some(b)) if a == b => continue,
            (Some(Node::Mod { name: a, items: x }), Some(Node::Mod { name: b, items: y })) if a == b => {
                if let Some((w, g)) = diff(x, y) {
                    return Some((format!("in mod {}: {}", a, w), format!("in mod {}: {}", b, g)));
                }
            }
            (Some(Node::Struct { name: a, elems: e, attrs: t, ns: n1 }), Some(Node::Struct { name: b, elems: f, attrs: u, ns: n2 })) if a == b => {
                let d = |x: &[Field], y: &[Field], w: &str| -> Option<(String, String)> {
                    for i in 0..x.len().max(y.len()) {
                        if x.get(i) != y.get(i) {
                            return Some((format!("struct {} {} {}: {:?}", a, w, i, x.get(i)), format!("{:?} (all: {:?})", y.get(i), y)));
                        }
                    }
                    None
                };
                if let Some(r) = d(e, f, "member").or(d(t, u, "attribute")) {
                    return Some(r);
                }
                return Some((format!("struct {} {:?}", a, n1), format!("{:?}", n2)));
            }
            (a, b) => return Some((format!("{:?}", a), format!("{:?}; all: {:?}", b, got))),
        }
    }
    Some(("?".into(), "?".into()))
}
