//! C14 custom generator parts.
use crate::derive::permute;
use crate::ir::*;
use crate::docs::redocumented;
use crate::local::variety;
use crate::mc::*;
use crate::model::*;
use crate::*;
use std::borrow::Cow;
use xsd_parser::generator::alias::{AliasGenerator, DefaultAliasGen};
use xsd_parser::generator::base::{BaseGenerator, DefaultBaseGenerator};
use xsd_parser::generator::builder::GeneratorBuilder;
use xsd_parser::generator::enum_case::{DefaultEnumCaseGen, EnumCaseGenerator};
use xsd_parser::generator::import::{DefaultImportGen, ImportGenerator};
use xsd_parser::generator::r#enum::{DefaultEnumGen, EnumGenerator};
use xsd_parser::generator::r#struct::{DefaultStructGen, StructGenerator};
use xsd_parser::generator::struct_field::{DefaultStructFieldGen, StructFieldGenerator};
use xsd_parser::generator::tuple_struct::{DefaultTupleStructGen, TupleStructGenerator};
use xsd_parser::generator::Generator;
use xsd_parser::parser::types as t;

/// Kinds of parts; the last one is the base part.
const KINDS: [char; 8] = ['S', 'T', 'F', 'E', 'C', 'A', 'I', 'B'];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// default output between markers
    Wrap,
    /// nothing but a word
    Replace,
    /// default output between markers, one hook of the part marked too
    Hook(usize),
}

/// One custom part of any kind; `v` tells versions of the same part apart.
struct Part {
    k: char,
    v: usize,
    mode: Mode,
}
impl Part {
    fn put(&self, default: String) -> String {
        if default.is_empty() {
            return default;
        }
        match self.mode {
            Mode::Replace => format!("<{}{}>", self.k, self.v),
            _ => format!("<{}{}[>{}<]{}{}>", self.k, self.v, default, self.k, self.v),
        }
    }
    fn hook(&self, i: usize, s: &str) -> String {
        if self.mode == Mode::Hook(i) {
            format!("<hook>{}", s)
        } else {
            s.to_string()
        }
    }
}
// The hooked default methods: a generator which overrides one hook and leaves the rest to the trait.
struct HookS<'a>(&'a Part);
impl StructGenerator for HookS<'_> {
    fn fields(&self, e: &t::Struct, g: &Generator) -> String {
        self.0.hook(0, &DefaultStructGen.fields(e, g))
    }
    fn subtypes(&self, e: &t::Struct, g: &Generator) -> String {
        self.0.hook(1, &DefaultStructGen.subtypes(e, g))
    }
    fn get_type_name(&self, e: &t::Struct, g: &Generator) -> String {
        self.0.hook(2, &DefaultStructGen.get_type_name(e, g))
    }
    fn macros(&self, e: &t::Struct, g: &Generator) -> Cow<'static, str> {
        self.0.hook(3, &DefaultStructGen.macros(e, g)).into()
    }
    fn format_comment(&self, e: &t::Struct, g: &Generator) -> String {
        self.0.hook(4, &DefaultStructGen.format_comment(e, g))
    }
    fn validation(&self, e: &t::Struct, g: &Generator) -> Cow<'static, str> {
        self.0.hook(5, &DefaultStructGen.validation(e, g)).into()
    }
}
impl StructGenerator for Part {
    fn generate(&self, e: &t::Struct, g: &Generator) -> String {
        self.put(HookS(self).generate(e, g))
    }
}
struct HookT<'a>(&'a Part);
impl TupleStructGenerator for HookT<'_> {
    fn subtypes(&self, e: &t::TupleStruct, g: &Generator) -> String {
        self.0.hook(0, &DefaultTupleStructGen.subtypes(e, g))
    }
    fn get_name(&self, e: &t::TupleStruct, g: &Generator) -> String {
        self.0.hook(1, &DefaultTupleStructGen.get_name(e, g))
    }
    fn macros(&self, e: &t::TupleStruct, g: &Generator) -> Cow<'static, str> {
        self.0.hook(2, &DefaultTupleStructGen.macros(e, g)).into()
    }
    fn format_comment(&self, e: &t::TupleStruct, g: &Generator) -> String {
        self.0.hook(3, &DefaultTupleStructGen.format_comment(e, g))
    }
    fn validation(&self, e: &t::TupleStruct, g: &Generator) -> Cow<'static, str> {
        self.0.hook(4, &DefaultTupleStructGen.validation(e, g)).into()
    }
}
impl TupleStructGenerator for Part {
    fn generate(&self, e: &t::TupleStruct, g: &Generator) -> String {
        self.put(HookT(self).generate(e, g))
    }
}
struct HookF<'a>(&'a Part);
impl StructFieldGenerator for HookF<'_> {
    fn get_type_name(&self, e: &t::StructField, g: &Generator) -> String {
        self.0.hook(0, &DefaultStructFieldGen.get_type_name(e, g))
    }
    fn get_name(&self, e: &t::StructField, g: &Generator) -> String {
        self.0.hook(1, &DefaultStructFieldGen.get_name(e, g))
    }
    fn format_comment(&self, e: &t::StructField, g: &Generator) -> String {
        self.0.hook(2, &DefaultStructFieldGen.format_comment(e, g))
    }
    fn macros(&self, e: &t::StructField, g: &Generator) -> String {
        self.0.hook(3, &DefaultStructFieldGen.macros(e, g))
    }
}
impl StructFieldGenerator for Part {
    fn generate(&self, e: &t::StructField, g: &Generator) -> String {
        self.put(HookF(self).generate(e, g))
    }
}
struct HookE<'a>(&'a Part);
impl EnumGenerator for HookE<'_> {
    fn cases(&self, e: &t::Enum, g: &Generator) -> String {
        self.0.hook(0, &DefaultEnumGen.cases(e, g))
    }
    fn subtypes(&self, e: &t::Enum, g: &Generator) -> String {
        self.0.hook(1, &DefaultEnumGen.subtypes(e, g))
    }
    fn get_type_name(&self, e: &t::Enum, g: &Generator) -> String {
        self.0.hook(2, &DefaultEnumGen.get_type_name(e, g))
    }
    fn get_name(&self, e: &t::Enum, g: &Generator) -> String {
        self.0.hook(3, &DefaultEnumGen.get_name(e, g))
    }
    fn macros(&self, e: &t::Enum, g: &Generator) -> Cow<'static, str> {
        self.0.hook(4, &DefaultEnumGen.macros(e, g)).into()
    }
    fn format_comment(&self, e: &t::Enum, g: &Generator) -> String {
        self.0.hook(5, &DefaultEnumGen.format_comment(e, g))
    }
    fn validation(&self, e: &t::Enum, g: &Generator) -> Cow<'static, str> {
        self.0.hook(6, &DefaultEnumGen.validation(e, g)).into()
    }
}
impl EnumGenerator for Part {
    fn generate(&self, e: &t::Enum, g: &Generator) -> String {
        self.put(HookE(self).generate(e, g))
    }
}
struct HookC<'a>(&'a Part);
impl EnumCaseGenerator for HookC<'_> {
    fn format_comment(&self, e: &t::EnumCase, g: &Generator) -> String {
        self.0.hook(0, &DefaultEnumCaseGen.format_comment(e, g))
    }
    fn macros(&self, e: &t::EnumCase, g: &Generator) -> String {
        self.0.hook(1, &DefaultEnumCaseGen.macros(e, g))
    }
    fn get_name(&self, e: &t::EnumCase, g: &Generator) -> String {
        self.0.hook(2, &DefaultEnumCaseGen.get_name(e, g))
    }
}
impl EnumCaseGenerator for Part {
    fn generate(&self, e: &t::EnumCase, g: &Generator) -> String {
        self.put(HookC(self).generate(e, g))
    }
}
struct HookA<'a>(&'a Part);
impl AliasGenerator for HookA<'_> {
    fn format_comment(&self, c: Option<&str>, g: &Generator) -> String {
        self.0.hook(0, &DefaultAliasGen.format_comment(c, g))
    }
    fn format_name(&self, n: &str, g: &Generator) -> String {
        self.0.hook(1, &DefaultAliasGen.format_name(n, g))
    }
    fn format_original_type(&self, n: &str, g: &Generator) -> String {
        self.0.hook(2, &DefaultAliasGen.format_original_type(n, g))
    }
}
impl AliasGenerator for Part {
    fn generate(&self, e: &t::Alias, g: &Generator) -> String {
        self.put(HookA(self).generate(e, g))
    }
}
impl ImportGenerator for Part {
    fn generate(&self, e: &t::Import, g: &Generator) -> String {
        self.put(DefaultImportGen.generate(e, g))
    }
}
const HOOKS: [(char, usize); 6] = [('S', 6), ('T', 5), ('F', 4), ('E', 7), ('C', 3), ('A', 3)];

/// The base part marks the names it makes, or overrides a single hook.
impl BaseGenerator for Part {
    fn indent(&self) -> String {
        if self.mode == Mode::Hook(0) {
            "\t".into()
        } else {
            " ".repeat(self.indent_size())
        }
    }
    fn indent_size(&self) -> usize {
        match self.mode {
            Mode::Hook(1) => 8,
            Mode::Hook(2) => 2,
            _ => DefaultBaseGenerator.indent_size(),
        }
    }
    fn format_type_name(&self, n: &str, g: &Generator) -> Cow<'_, str> {
        let d = DefaultBaseGenerator.format_type_name(n, g).to_string();
        if BUILTIN.iter().any(|b| b.1 == d) || matches!(self.mode, Mode::Hook(_)) {
            d.into()
        } else {
            format!("{}<B{}t>", d, self.v).into()
        }
    }
    fn format_name(&self, n: &str) -> Cow<'_, str> {
        if let Mode::Hook(_) = self.mode {
            return DefaultBaseGenerator.format_name(n).to_string().into();
        }
        format!("{}<B{}n>", DefaultBaseGenerator.format_name(n), self.v).into()
    }
    fn format_comment(&self, comment: Option<&str>, indent: usize) -> String {
        if self.mode == Mode::Hook(3) {
            return String::new();
        }
        DefaultBaseGenerator.format_comment(comment, indent)
    }
    fn modify_type(&self, type_name: &str, modifiers: &[t::TypeModifier]) -> Cow<'_, str> {
        let d = DefaultBaseGenerator.modify_type(type_name, modifiers).to_string();
        if self.mode == Mode::Hook(4) {
            return format!("Cell<{}>", d).into();
        }
        d.into()
    }
    fn mod_name(&self, n: &str) -> String {
        match self.mode {
            Mode::Hook(5) => format!("m_{}", DefaultBaseGenerator.mod_name(n)),
            Mode::Hook(_) => DefaultBaseGenerator.mod_name(n),
            _ => format!("{}_mod{}", DefaultBaseGenerator.mod_name(n), self.v),
        }
    }
    fn join_subtypes(&self, subtypes: &[t::RsEntity], g: &Generator) -> String {
        if self.mode == Mode::Hook(6) {
            return String::new();
        }
        DefaultBaseGenerator.join_subtypes(subtypes, g)
    }
}
const BASE_HOOKS: usize = 7;

/// Text between the markers, nested.
#[derive(Clone, Debug, PartialEq)]
enum Piece {
    Text(String),
    Region(char, usize, Vec<Piece>),
}
fn parse_regions(s: &str) -> Result<Vec<Piece>, String> {
    let mut stack: Vec<(char, usize, Vec<Piece>)> = vec![];
    let mut cur: Vec<Piece> = vec![];
    let mut text = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '<' && i + 4 < b.len() && KINDS.contains(&b[i + 1]) && b[i + 2].is_ascii_digit() && b[i + 3] == '[' && b[i + 4] == '>' {
            cur.push(Piece::Text(std::mem::take(&mut text)));
            stack.push((b[i + 1], b[i + 2] as usize - '0' as usize, std::mem::take(&mut cur)));
            i += 5;
        } else if b[i] == '<' && i + 4 < b.len() && b[i + 1] == ']' && b[i + 4] == '>' {
            cur.push(Piece::Text(std::mem::take(&mut text)));
            let (k, v, outer) = stack.pop().ok_or("unbalanced markers")?;
            if k != b[i + 2] || v != b[i + 3] as usize - '0' as usize {
                return Err("markers crossed".into());
            }
            let inner = std::mem::replace(&mut cur, outer);
            cur.push(Piece::Region(k, v, inner));
            i += 5;
        } else {
            text.push(b[i]);
            i += 1;
        }
    }
    if !stack.is_empty() {
        return Err("unbalanced markers".into());
    }
    cur.push(Piece::Text(text));
    Ok(cur)
}
/// What parts of the given kinds (with versions) must make of the wholly marked text.
fn expect(p: &[Piece], parts: &[(char, usize)], replace: bool, out: &mut String) {
    for x in p {
        match x {
            Piece::Text(s) => *out += s,
            Piece::Region(k, _, inner) => match parts.iter().find(|q| q.0 == *k) {
                Some((_, v)) if replace => *out += &format!("<{}{}>", k, v),
                Some((_, v)) => {
                    *out += &format!("<{}{}[>", k, v);
                    expect(inner, parts, replace, out);
                    *out += &format!("<]{}{}>", k, v);
                }
                None => expect(inner, parts, replace, out),
            },
        }
    }
}
fn tight(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn build<'i>(calls: &[(char, usize)], mode: Mode) -> Generator<'i> {
    let mut b = GeneratorBuilder::default();
    for (k, v) in calls {
        let p = Box::new(Part { k: *k, v: *v, mode });
        b = match k {
            'S' => b.with_struct_gen(p),
            'T' => b.with_tuple_struct_gen(p),
            'F' => b.with_struct_field_gen(p),
            'E' => b.with_enum_gen(p),
            'C' => b.with_enum_case_gen(p),
            'A' => b.with_alias_gen(p),
            'I' => b.with_import_gen(p),
            _ => b.with_base_gen(p),
        };
    }
    b.build()
}
fn gen_with(calls: &[(char, usize)], mode: Mode, text: &str) -> Result<String, String> {
    guard(|| {
        let file = xsd_parser::parser::parse(text).map_err(|_| "parse error".to_string())?;
        // the lifetime of a generator is tied to the file it is used with
        let gen: Generator = build(calls, mode);
        Ok::<_, String>(gen.generate_rs_file(&file))
    })
    .unwrap_or_else(|p| Err(format!("panic: {}", p)))
}

fn count(nodes: &[Node], n: &mut [usize; 5]) {
    for x in nodes {
        match x {
            Node::Struct { elems, attrs, .. } => {
                n[0] += 1;
                n[2] += elems.len() + attrs.len();
            }
            Node::Wrapper { .. } => n[1] += 1,
            Node::Enum { variants, .. } => {
                n[3] += 1;
                n[4] += variants.len();
            }
            Node::Mod { items, .. } => count(items, n),
            _ => {}
        }
    }
}
fn regions(p: &[Piece], n: &mut [usize; 7], bad: &mut Vec<String>) {
    for x in p {
        if let Piece::Region(k, _, inner) = x {
            n[KINDS.iter().position(|c| c == k).unwrap()] += 1;
            let own: String = inner.iter().map(|p| if let Piece::Text(s) = p { s.as_str() } else { "" }).collect();
            let own: String = own.lines().filter(|l| !l.trim_start().starts_with("//") || matches!(k, 'A' | 'I')).collect::<Vec<_>>().join("\n");
            let fits = match k {
                'S' => own.contains("pub struct ") && own.matches("pub struct ").count() == 1 && !own.contains("pub enum"),
                'T' => own.matches("pub struct ").count() == 1 && !own.contains("pub enum"),
                'E' => own.matches("pub enum ").count() == 1 && !own.contains("pub struct "),
                'F' => own.matches("pub ").count() == 1 && own.trim_end().ends_with(','),
                'C' => own.trim_end().ends_with(',') && !own.contains("pub "),
                'A' => own.contains("// pub type ") || own.contains("pub type"),
                _ => own.contains("use "),
            };
            if !fits {
                bad.push(format!("part {} made {:?}", k, own));
            }
            regions(inner, n, bad);
        }
    }
}

pub fn c14(ctx: &Ctx) {
    let th = ctx.thorough();
    let schemas: Vec<Schema> = variety();
    let texts: Vec<String> = schemas.iter().map(render).collect();
    let plain: Vec<String> = texts.iter().map(|t| generate(t).unwrap_or_else(|e| format!("<<{}>>", e))).collect();
    let all: Vec<(char, usize)> = KINDS[..7].iter().map(|k| (*k, 0)).collect();
    // the wholly marked text, with and without a custom base part
    let marked: Vec<[Result<Vec<Piece>, String>; 2]> = texts
        .iter()
        .map(|t| {
            let with_base: Vec<(char, usize)> = all.iter().cloned().chain([('B', 0)]).collect();
            [gen_with(&all, Mode::Wrap, t).and_then(|s| parse_regions(&s)), gen_with(&with_base, Mode::Wrap, t).and_then(|s| parse_regions(&s))]
        })
        .collect();
    ctx.bound(format!("all parts custom: {} schemas; every struct, wrapper, field, enum, variant, alias and import is made by its own part exactly once, the rest as by default", texts.len()));
    ctx.explore(
        "all parts custom",
        0,
        |c| Some((c.choose(texts.len()), c.choose(2))),
        |h| hash64(h),
        |h| format!("schema {} base {}: {}", h.0, h.1, texts[h.0]),
        |(i, b)| {
            let v = |k: &str, e: String, a: String| viol(k, texts[*i].clone(), e, a);
            let p = marked[*i][*b].as_ref().map_err(|e| v("markers", "nested regions".into(), e.clone()))?;
            let mut s = String::new();
            expect(p, &[], false, &mut s);
            if *b == 1 {
                if !s.contains("<B0") && !plain[*i].trim().is_empty() && plain[*i].contains("pub ") {
                    return Err(v("base-unused", "names made by the custom base part".into(), s));
                }
                s = s.replace("<B0t>", "").replace("<B0n>", "").replace("_mod0", "");
            }
            if tight(&s) != tight(&plain[*i]) {
                return Err(v("other-kinds-changed", plain[*i].clone(), s));
            }
            let mut n = [0; 7];
            let mut bad = vec![];
            regions(p, &mut n, &mut bad);
            if !bad.is_empty() {
                return Err(v("wrong-part", "each part makes its own kind".into(), bad.join("; ")));
            }
            let mut want = [0; 5];
            count(&extract(&plain[*i]).map_err(|e| v("invalid-rust", "valid Rust".into(), e))?, &mut want);
            let aliases = schemas[*i].items.iter().filter(|i| matches!(i, Item::Element(GElem { ty: ElemTy::Named(_), .. }) | Item::Attribute(GAttr { ty: GAttrTy::Named(_), .. }))).count();
            let imports = schemas[*i].items.iter().filter(|i| matches!(i, Item::Import { .. })).count();
            let want = [want[0], want[1], want[2], want[3], want[4], aliases, imports];
            if n != want {
                return Err(v("part-not-used", format!("{:?} of kinds {:?}", want, &KINDS[..7]), format!("{:?}", n)));
            }
            ok(1, "every component by its own part")
        },
    );
    let verify = |i: usize, calls: &[(char, usize)], replace: bool| -> Result<Obs, Viol> {
        // the last one of each kind counts
        let mut last: Vec<(char, usize)> = vec![];
        for c in calls {
            last.retain(|l| l.0 != c.0);
            last.push(*c);
        }
        let base = last.iter().find(|l| l.0 == 'B').map(|b| b.1);
        let p = marked[i][base.is_some() as usize].as_ref().map_err(|e| viol("markers", texts[i].clone(), "nested regions", e.clone()))?;
        let mut want = String::new();
        expect(p, &last, replace, &mut want);
        if let Some(v) = base {
            want = want.replace("<B0t>", &format!("<B{}t>", v)).replace("<B0n>", &format!("<B{}n>", v)).replace("_mod0", &format!("_mod{}", v));
        }
        let input = || format!("parts {:?} replace={} on {}", calls, replace, texts[i]);
        let got = gen_with(calls, if replace { Mode::Replace } else { Mode::Wrap }, &texts[i]).map_err(|e| viol("generation-fails", input(), "generated code", e))?;
        if tight(&want) != tight(&got) {
            return Err(viol("parts-mixed", input(), want, got));
        }
        ok(1, if calls.is_empty() { "defaults only" } else { "exactly the custom kinds" })
    };
    ctx.bound("all 256 subsets of parts x 3 orders of supplying them (all orders up to 3 parts) x marking or replacing the default output x all schemas".to_string());
    ctx.explore(
        "subsets and orders",
        0,
        |c| {
            let i = c.choose(texts.len());
            let replace = c.flag();
            let s: Vec<(char, usize)> = KINDS.iter().filter(|_| c.flag()).map(|k| (*k, 1)).collect();
            let s = if s.len() <= if th { 4 } else { 3 } {
                permute(c, s)
            } else {
                let mut s = s;
                match c.choose(3) {
                    0 => {}
                    1 => s.reverse(),
                    _ => s.rotate_left(2),
                }
                s
            };
            Some((i, s, replace))
        },
        |h| hash64(h),
        |h| format!("{:?}", h),
        |(i, s, r)| verify(*i, s, *r),
    );
    let (len, files) = if th { (5, vec![0, 1]) } else { (4, vec![0, texts.len() - 2, 8]) };
    ctx.bound(format!("all sequences of up to {} supplied parts, repetitions included (2 versions of each of 8 parts), on {} schemas", len, files.len()));
    ctx.explore(
        "sequences with repetitions",
        0,
        |c| {
            let n = c.choose(len + 1);
            let i = *c.pick(&files);
            let s: Vec<(char, usize)> = (0..n).map(|_| (*c.pick(&KINDS), 1 + c.choose(2))).collect();
            Some((i, s))
        },
        |h| hash64(h),
        |h| format!("{:?}", h),
        |(i, s)| verify(*i, s, false),
    );
    ctx.bound("every single hook of every part overridden: used for every component of the kind and no other");
    ctx.explore(
        "hooks",
        0,
        |c| {
            let i = c.choose(texts.len());
            let (k, n) = *c.pick(&HOOKS);
            Some((i, k, c.choose(n)))
        },
        |h| hash64(h),
        |h| format!("{:?}", h),
        |(i, k, h)| {
            let input = || format!("hook {} of part {} on {}", h, k, texts[*i]);
            let got = gen_with(&[(*k, 1)], Mode::Hook(*h), &texts[*i]).map_err(|e| viol("generation-fails", input(), "generated code", e))?;
            let p = parse_regions(&got).map_err(|e| viol("markers", input(), "nested regions", e))?;
            fn walk(p: &[Piece], inside: bool, missing: &mut usize, outside: &mut usize, total: &mut usize) {
                for x in p {
                    match x {
                        Piece::Text(s) if !inside => *outside += s.matches("<hook>").count(),
                        Piece::Text(_) => {}
                        Piece::Region(_, _, inner) => {
                            *total += 1;
                            let own: usize = inner.iter().map(|p| if let Piece::Text(s) = p { s.matches("<hook>").count() } else { 0 }).sum();
                            if own == 0 {
                                *missing += 1;
                            }
                            walk(inner, true, missing, outside, total);
                        }
                    }
                }
            }
            let (mut missing, mut outside, mut total) = (0, 0, 0);
            walk(&p, false, &mut missing, &mut outside, &mut total);
            if missing > 0 || outside > 0 {
                return Err(viol("hook", input(), format!("the hook in all {} regions and nowhere else", total), format!("missing in {}, {} outside: {}", missing, outside, got)));
            }
            let mut s = String::new();
            expect(&p, &[], false, &mut s);
            // a name that is marked no longer equals the XML name, which then gets written out
            if !(*k == 'C' && *h == 2) && tight(&s.replace("<hook>", "")) != tight(&plain[*i]) {
                return Err(viol("hook-changes-rest", input(), plain[*i].clone(), s));
            }
            ok(1, "hook used for its own kind")
        },
    );
    let bare: Vec<String> = schemas.iter().map(|s| generate(&render(&redocumented(s.clone(), &mut |d| *d = None))).unwrap_or_else(|e| format!("<<{}>>", e))).collect();
    ctx.bound("every single method of the base part overridden (indentation, its width, comments, modifiers, module names, nested types): used for everything, and nothing else changes");
    ctx.explore(
        "methods of the base part",
        0,
        |c| Some((c.choose(texts.len()), c.choose(BASE_HOOKS))),
        |h| hash64(h),
        |h| format!("{:?}", h),
        |(i, h)| {
            let input = || format!("method {} of the base part on {}", h, texts[*i]);
            let v = |want: &str, got: &str| Err(viol("base-method", input(), want, got));
            let got = gen_with(&[('B', 1)], Mode::Hook(*h), &texts[*i]).map_err(|e| viol("generation-fails", input(), "generated code", e))?;
            // declarations only: the width inside of the validators is their own
            let code = |s: &str| {
                let mut skip: Option<usize> = None;
                let mut out = vec![];
                for l in s.lines().filter(|l| !l.trim().is_empty() && !l.trim().starts_with("//")) {
                    let n = l.len() - l.trim_start().len();
                    match skip {
                        Some(k) if n == k && l.trim() == "}" => skip = None,
                        Some(_) => {}
                        None if l.trim().starts_with("impl ") => {
                            if !l.trim_end().ends_with('}') {
                                skip = Some(n)
                            }
                        }
                        None => out.push(l.to_string()),
                    }
                }
                out
            };
            let nodes = |s: &str| extract(s).map_err(|e| viol("invalid-rust", input(), "valid Rust", e));
            match h {
                0..=2 => {
                    let (from, to) = (" ".repeat(4), ["\t".to_string(), " ".repeat(8), " ".repeat(2)][*h].clone());
                    let want: Vec<String> = code(&plain[*i]).iter().map(|l| { let n = l.len() - l.trim_start_matches(' ').len(); to.repeat(n / from.len()) + l.trim_start() }).collect();
                    if code(&got) != want || tight(&got) != tight(&plain[*i]) {
                        return v(&want.join("\n"), &got);
                    }
                }
                3 => {
                    if tight(&got) != tight(&bare[*i]) {
                        return v(&bare[*i], &got);
                    }
                }
                4 => {
                    let mut want = nodes(&plain[*i])?;
                    celled(&mut want);
                    let got_n = nodes(&got)?;
                    if want != got_n {
                        return v(&format!("{:?}", want), &got);
                    }
                }
                5 => {
                    let mut want = nodes(&plain[*i])?;
                    moved(&mut want);
                    if want != nodes(&got)? {
                        return v(&format!("{:?}", want), &got);
                    }
                }
                _ => {
                    let want: Vec<Node> = nodes(&plain[*i])?.into_iter().filter(|n| !matches!(n, Node::Mod { .. })).collect();
                    let have: Vec<Node> = nodes(&got)?.into_iter().filter(|n| !matches!(n, Node::Mod { items, .. } if items.is_empty())).collect();
                    if have.iter().any(|n| matches!(n, Node::Mod { .. })) || !have.iter().all(|n| want.contains(n)) {
                        return v(&format!("{:?}", want), &got);
                    }
                }
            }
            ok(1, "method of the base part")
        },
    );
}

/// Every type of a member, alternative or wrapper in a cell.
fn celled(v: &mut [Node]) {
    let put = |t: &mut String| *t = format!("Cell<{}>", t);
    for n in v {
        match n {
            Node::Struct { elems, attrs, .. } => elems.iter_mut().chain(attrs).for_each(|f| put(&mut f.ty)),
            Node::Wrapper { ty, .. } => put(ty),
            Node::Enum { variants, .. } => variants.iter_mut().filter_map(|v| v.ty.as_mut()).for_each(put),
            Node::Mod { items, .. } => celled(items),
            Node::Odd(_) => {}
        }
    }
}
/// Every module renamed.
fn moved(v: &mut [Node]) {
    fn names(v: &[Node], out: &mut Vec<String>) {
        for n in v {
            if let Node::Mod { name, items } = n {
                out.push(name.clone());
                names(items, out);
            }
        }
    }
    fn go(v: &mut [Node], mods: &[String]) {
        let put = |t: &mut String| {
            let (head, core) = t.rsplit_once('<').map(|(h, c)| (format!("{}<", h), c.to_string())).unwrap_or((String::new(), t.clone()));
            if let Some((m, rest)) = core.split_once("::") {
                if mods.iter().any(|x| x == m) {
                    *t = format!("{}m_{}::{}", head, m, rest);
                }
            }
        };
        for n in v {
            match n {
                Node::Struct { elems, attrs, .. } => elems.iter_mut().chain(attrs).for_each(|f| put(&mut f.ty)),
                Node::Wrapper { ty, .. } => put(ty),
                Node::Enum { variants, .. } => variants.iter_mut().filter_map(|v| v.ty.as_mut()).for_each(put),
                Node::Mod { name, items } => {
                    *name = format!("m_{}", name);
                    go(items, mods)
                }
                Node::Odd(_) => {}
            }
        }
    }
    let mut mods = vec![];
    names(v, &mut mods);
    go(v, &mods)
}
