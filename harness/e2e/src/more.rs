//! C15: schemas and documents of every size, in other words, with every built-in type and every character.
use crate::carry::*;
use crate::mc::*;
use crate::schema::*;

fn fixed<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}
fn text(s: String) -> &'static [&'static str] {
    fixed(vec![&*Box::leak(s.into_boxed_str())])
}
fn whole(body: String) -> String {
    format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:tns=\"urn:t\" targetNamespace=\"urn:t\" elementFormDefault=\"qualified\">\n{}\n</xs:schema>", body)
}
fn case(body: String, c: C, deviations: u32) -> Case {
    Case { xsd: whole(body), other: None, t: T::Complex(C { ns: T_NS, ..c }), bare: false, deviations, styles: 1 }
}
fn foo(content: String) -> String {
    format!("<xs:complexType name=\"Foo\">{}</xs:complexType><xs:element name=\"Foo\" type=\"tns:Foo\"/>", content)
}
fn seq(content: &str) -> String {
    format!("<xs:sequence>{}</xs:sequence>", content)
}
const SIMPLE: &[(&str, &[&str])] = &[("string", STR), ("int", INT), ("boolean", BOOL), ("double", DBL), ("date", DATE), ("decimal", DEC)];
const BAR: &str = "<xs:complexType name=\"Bar\"><xs:sequence><xs:element name=\"inner\" type=\"xs:string\"/></xs:sequence><xs:attribute name=\"id\" type=\"xs:int\"/></xs:complexType>";
fn bar() -> T {
    T::Complex(C { attrs: vec![attr("id", INT, false)], parts: vec![part("inner", &[1], T::Simple(STR))], ..tns() })
}

const FAMILIES: &[&str] = &["elements of a sequence", "elements of an all-group", "attributes", "alternatives", "enumeration values", "anonymous types in each other", "named types in each other", "occurrences", "structured occurrences", "list items", "characters", "derivation steps", "attribute groups in each other", "unrelated types", "recursion in the document", "anonymous types side by side", "words of documentation"];

fn sized(family: usize, n: usize) -> Option<Case> {
    let simple = |i: usize| SIMPLE[i % SIMPLE.len()];
    let plain = C::default();
    Some(match family {
        0 | 1 => {
            let mut b = String::new();
            let mut parts = vec![];
            for i in 0..n {
                let optional = i % 3 == 2;
                let occ = if optional { " minOccurs=\"0\"" } else { "" };
                let counts: &[usize] = if optional { &[1, 0] } else { &[1] };
                if i % 7 == 6 {
                    b += &format!("<xs:element name=\"e{}\" type=\"tns:Bar\"{}/>", i, occ);
                    parts.push(part(&format!("e{}", i), counts, bar()));
                } else {
                    b += &format!("<xs:element name=\"e{}\" type=\"xs:{}\"{}/>", i, simple(i).0, occ);
                    parts.push(part(&format!("e{}", i), counts, T::Simple(simple(i).1)));
                }
            }
            let (b, mode) = if family == 0 { (seq(&b), Mode::Seq) } else { (format!("<xs:all>{}</xs:all>", b), Mode::All) };
            case(foo(b) + BAR, C { mode, parts, ..plain }, 1)
        }
        2 => {
            let mut b = String::new();
            let mut attrs = vec![];
            for i in 0..n {
                let req = i % 2 == 0;
                b += &format!("<xs:attribute name=\"a{}\" type=\"xs:{}\"{}/>", i, simple(i).0, if req { " use=\"required\"" } else { "" });
                attrs.push(attr(&format!("a{}", i), if simple(i).1 == STR { ASTR } else { simple(i).1 }, req));
            }
            case(foo(b), C { attrs, ..plain }, 1)
        }
        3 => {
            let b: String = (0..n).map(|i| format!("<xs:element name=\"e{}\" type=\"xs:{}\"/>", i, simple(i % 4).0)).collect();
            let parts = (0..n).map(|i| part(&format!("e{}", i), &[1], T::Simple(simple(i % 4).1))).collect();
            case(foo(format!("<xs:choice>{}</xs:choice>", b)), C { mode: Mode::Choice(&[1]), parts, ..plain }, 1)
        }
        4 => {
            let values: Vec<&'static str> = (0..n).map(|i| text(format!("v{}", i))[0]).collect();
            let b: String = values.iter().map(|v| format!("<xs:enumeration value=\"{}\"/>", v)).collect();
            case(
                foo(seq("<xs:element name=\"e\" type=\"tns:E\"/><xs:element name=\"more\" type=\"tns:E\" minOccurs=\"0\"/>") + "<xs:attribute name=\"k\" type=\"tns:E\"/>") + &format!("<xs:simpleType name=\"E\"><xs:restriction base=\"xs:string\">{}</xs:restriction></xs:simpleType>", b),
                C { attrs: vec![attr("k", fixed(values.clone()), false)], parts: vec![part("e", &[1], T::Simple(fixed(values.clone()))), part("more", &[0, 1], T::Simple(fixed(values)))], ..plain },
                1,
            )
        }
        5 => {
            let mut b = "<xs:element name=\"leaf\" type=\"xs:int\"/>".to_string();
            let mut p = part("leaf", &[1], T::Simple(INT));
            for i in (0..n).rev() {
                b = format!("<xs:element name=\"d{}\"><xs:complexType>{}<xs:attribute name=\"at\" type=\"xs:int\"/></xs:complexType></xs:element>", i, seq(&b));
                p = part(&format!("d{}", i), &[1], T::Complex(C { attrs: vec![attr("at", INT, false)], parts: vec![p], ..tns() }));
            }
            case(foo(seq(&b)), C { parts: vec![p], ..plain }, 1)
        }
        6 => {
            let mut types = String::new();
            let mut p = part("leaf", &[1], T::Simple(INT));
            for i in (0..n).rev() {
                let inner = if i + 1 == n { "<xs:element name=\"leaf\" type=\"xs:int\"/>".to_string() } else { format!("<xs:element name=\"d{}\" type=\"tns:T{}\"/>", i + 1, i + 1) };
                types += &format!("<xs:complexType name=\"T{}\">{}</xs:complexType>", i, seq(&inner));
                p = part(&format!("d{}", i), &[1], T::Complex(C { parts: vec![p], ..tns() }));
            }
            case(foo(seq("<xs:element name=\"d0\" type=\"tns:T0\"/>")) + &types, C { parts: vec![p], ..plain }, 1)
        }
        7 => case(
            foo(seq("<xs:element name=\"e\" type=\"xs:int\" maxOccurs=\"unbounded\"/><xs:element name=\"f\" type=\"xs:date\" minOccurs=\"0\" maxOccurs=\"unbounded\"/><xs:element name=\"g\" type=\"xs:string\"/>")),
            C { parts: vec![part("e", fixed(vec![n]), T::Simple(INT)), part("f", fixed(vec![n, 0]), T::Simple(DATE)), part("g", &[1], T::Simple(STR))], ..plain },
            (n < 20) as u32,
        ),
        8 => case(
            foo(seq("<xs:element name=\"e\" type=\"tns:Bar\" maxOccurs=\"unbounded\"/><xs:element name=\"g\" type=\"xs:string\"/>")) + BAR,
            C { parts: vec![part("e", fixed(vec![n]), bar()), part("g", &[1], T::Simple(STR))], ..plain },
            (n < 20) as u32,
        ),
        9 => {
            let items = text((0..n).map(|i| (i * 37 % 1000).to_string()).collect::<Vec<_>>().join(" "));
            let words = text((0..n).map(|i| format!("w{}", i * 37 % 1000)).collect::<Vec<_>>().join(" "));
            case(
                foo(seq("<xs:element name=\"e\" type=\"tns:L\"/><xs:element name=\"f\" type=\"tns:M\" minOccurs=\"0\"/>")) + "<xs:simpleType name=\"L\"><xs:list itemType=\"xs:int\"/></xs:simpleType><xs:simpleType name=\"M\"><xs:list itemType=\"xs:string\"/></xs:simpleType>",
                C { parts: vec![part("e", &[1], T::Simple(items)), part("f", &[0, 1], T::Simple(words))], ..plain },
                1,
            )
        }
        10 => {
            let t = text("lorem ipsum ".chars().cycle().take(n - 1).chain(['x']).collect());
            case(
                foo(seq("<xs:element name=\"e\" type=\"xs:string\"/><xs:element name=\"f\" type=\"tns:S\" minOccurs=\"0\"/>") + "<xs:attribute name=\"k\" type=\"xs:string\"/>") + "<xs:simpleType name=\"S\"><xs:restriction base=\"xs:string\"/></xs:simpleType>",
                C { attrs: vec![attr("k", t, false)], parts: vec![part("e", &[1], T::Simple(t)), part("f", &[0, 1], T::Simple(t))], ..plain },
                1,
            )
        }
        11 => {
            let mut types = String::new();
            let mut attrs = vec![];
            for i in 0..n {
                let (name, el) = if i == 0 { ("Foo".to_string(), "<xs:element name=\"Foo\" type=\"tns:Foo\"/>") } else { (format!("B{}", i), "") };
                types += &format!("<xs:complexType name=\"{}\"><xs:complexContent><xs:extension base=\"tns:B{}\"><xs:attribute name=\"a{}\" type=\"xs:int\"/></xs:extension></xs:complexContent></xs:complexType>{}", name, i + 1, i, el);
                attrs.push(attr(&format!("a{}", i), INT, false));
            }
            types += &format!("<xs:complexType name=\"B{}\"><xs:sequence><xs:element name=\"x\" type=\"xs:string\"/><xs:element name=\"y\" type=\"xs:int\" minOccurs=\"0\"/></xs:sequence></xs:complexType>", n);
            case(types, C { attrs, parts: vec![part("x", &[1], T::Simple(STR)), part("y", &[0, 1], T::Simple(INT))], ..plain }, 1)
        }
        12 => {
            let mut groups = String::new();
            let mut attrs = vec![];
            for i in 0..n {
                let next = if i + 1 < n { format!("<xs:attributeGroup ref=\"tns:G{}\"/>", i + 1) } else { String::new() };
                groups += &format!("<xs:attributeGroup name=\"G{}\"><xs:attribute name=\"a{}\" type=\"xs:int\"/>{}</xs:attributeGroup>", i, i, next);
                attrs.push(attr(&format!("a{}", i), INT, false));
            }
            case(foo(seq("<xs:element name=\"x\" type=\"xs:string\"/>") + "<xs:attributeGroup ref=\"tns:G0\"/>") + &groups, C { attrs, parts: vec![part("x", &[1], T::Simple(STR))], ..plain }, 1)
        }
        13 => {
            let others: String = (0..n).map(|i| format!("<xs:complexType name=\"U{}\"><xs:sequence><xs:element name=\"x\" type=\"tns:Bar\"/></xs:sequence></xs:complexType>", i)).collect();
            case(others + BAR + &foo(seq("<xs:element name=\"b\" type=\"tns:Bar\" minOccurs=\"0\"/>")), C { parts: vec![part("b", &[0, 1], bar())], ..plain }, 1)
        }
        14 => {
            let mut p = part("tie", &[1], T::Complex(C { parts: vec![part("end", &[0, 1], T::Simple(STR))], ..tns() }));
            for _ in 0..n {
                let knot = T::Complex(C { attrs: vec![attr("len", INT, false)], parts: vec![p], ..tns() });
                p = part("tie", &[1], T::Complex(C { parts: vec![part("knot", &[1], knot), part("end", &[0, 1], T::Simple(STR))], ..tns() }));
            }
            let T::Complex(c) = p.t else { unreachable!() };
            case(
                foo(seq("<xs:element name=\"knot\" type=\"tns:Knot\" minOccurs=\"0\"/><xs:element name=\"end\" type=\"xs:string\" minOccurs=\"0\"/>")) + "<xs:complexType name=\"Knot\"><xs:sequence><xs:element name=\"tie\" type=\"tns:Foo\" minOccurs=\"0\" maxOccurs=\"unbounded\"/></xs:sequence><xs:attribute name=\"len\" type=\"xs:int\"/></xs:complexType>",
                c,
                1,
            )
        }
        15 => {
            let mut b = String::new();
            let mut parts = vec![];
            for i in 0..n {
                b += &format!("<xs:element name=\"s{}\"><xs:complexType><xs:sequence><xs:element name=\"x\" type=\"xs:{}\"/></xs:sequence></xs:complexType></xs:element>", i, simple(i).0);
                parts.push(part(&format!("s{}", i), &[1], T::Complex(C { parts: vec![part("x", &[1], T::Simple(simple(i).1))], ..tns() })));
            }
            case(foo(seq(&b)), C { parts, ..plain }, 1)
        }
        _ => {
            let d = format!("<xs:annotation><xs:documentation>{}</xs:documentation></xs:annotation>", (0..n).map(|i| format!("word{}{}", i, if i % 11 == 10 { "\n" } else { " " })).collect::<String>());
            case(
                format!("<xs:complexType name=\"Foo\">{d}<xs:sequence><xs:element name=\"e\" type=\"tns:E\">{d}</xs:element></xs:sequence><xs:attribute name=\"k\" type=\"xs:int\">{d}</xs:attribute></xs:complexType><xs:simpleType name=\"E\">{d}<xs:restriction base=\"xs:string\"><xs:enumeration value=\"red\">{d}</xs:enumeration><xs:enumeration value=\"x9\"/></xs:restriction></xs:simpleType>"),
                C { attrs: vec![attr("k", INT, false)], parts: vec![part("e", &[1], T::Simple(&["red", "x9"]))], ..plain },
                1,
            )
        }
    })
}

/// Names for elements, and the names of another row for the attributes.
pub const WORDS: &[[&str; 3]] = &[
    ["alpha", "alphaBeta", "alphaBetaGamma"],
    ["x", "xx", "xxx"],
    ["naMe", "name2", "nameX"],
    ["element", "sequence", "choice"],
    ["attribute", "schema", "complexType"],
    ["value", "content", "text"],
    ["string", "int", "date"],
    ["Foo2", "foo3", "FOO4"],
    ["option", "vec", "string2"],
    ["some", "none", "ok"],
    ["default", "clone", "debug"],
    ["validate", "serialize", "deserialize"],
    ["reader", "writer", "attributes"],
    ["std", "xs", "xml"],
    ["core", "crate", "super"],
    ["tns", "o", "xmlns1"],
    ["u8", "i32", "bool"],
    ["box", "dyn", "async"],
    ["été", "größe", "ñandú"],
    ["имя", "тип", "ключ"],
    ["名前", "型", "値"],
    ["x1", "x11", "x111"],
    ["Id", "ID2", "iD3"],
    ["innermost", "moreover", "idea"],
    ["a.b", "c-d", "e_f"],
    ["_a", "b_", "c__d"],
    ["result", "error", "err"],
    ["from", "into", "as"],
    ["fooType", "barType", "typeType"],
    ["union", "enum", "struct"],
    ["HTTPServer", "serverHTTP", "aHTTPb"],
    ["veryLongNameOfAnElementWhichIsLongerThanOneLineOfTheGeneratedCodeMayBeAndSoOnAndSoForthUntilTheEndOne", "veryLongNameOfAnElementWhichIsLongerThanOneLineOfTheGeneratedCodeMayBeAndSoOnAndSoForthUntilTheEndTwo", "n"],
    ["try", "gen", "yield"],
    ["item", "Items", "itemS2"],
    ["namespace", "prefix", "rename"],
    ["flatten", "skip", "tag"],
    ["depth", "event", "name"],
    ["body", "header", "envelope"],
];
const COMBOS: &[(&[&str], &[usize])] = &[
    (&["string", "int", "date"], &[0, 1, 2, 3]),
    (&["complex", "anonymous complex", "enum"], &[0, 1]),
    (&["wrapper", "list", "anonymous enum"], &[0, 1]),
    (&["string", "enum", "wrapper"], &[2, 3]),
    (&["recursive", "deep", "choice"], &[0]),
    (&["foreign complex", "attribute group", "derived"], &[0, 1]),
    (&["anonymous wrapper", "anonymous choice", "anonymous list"], &[0, 1]),
];

const BUILTINS: &[(&str, &[&str])] = &[
    ("hexBinary", &["0FB7", "a"]),
    ("base64Binary", &["AAECAw==", "+/+/"]),
    ("boolean", BOOL),
    ("integer", BIG),
    ("nonNegativeInteger", &["0", "123456789012345678901234567890"]),
    ("positiveInteger", &["1", "123456789012345678901234567890"]),
    ("nonPositiveInteger", &["0", "-123456789012345678901234567890"]),
    ("negativeInteger", &["-1", "-123456789012345678901234567890"]),
    ("long", &["9223372036854775807", "-9223372036854775808"]),
    ("int", &["2147483647", "-2147483648"]),
    ("short", &["32767", "-32768"]),
    ("byte", &["127", "-128"]),
    ("unsignedLong", &["18446744073709551615", "0"]),
    ("unsignedInt", &["4294967295", "0"]),
    ("unsignedShort", &["65535", "0"]),
    ("unsignedByte", &["255", "0"]),
    ("decimal", &["0.000000000000000000000000000001", "-12345678901234567890.5", "0"]),
    ("double", &["-0.5", "1234567.25"]),
    ("float", &["-0.5", "1234567.25"]),
    ("date", &["9999-12-31", "2020-02-29-14:00", "1582-10-15+14:00"]),
    ("time", &["00:00:00", "23:59:59.500+00:00", "12:00:00-00:30"]),
    ("dateTime", &["0001-01-01T00:00:00+00:00", "9999-12-31T23:59:59.999999999-14:00"]),
    ("dateTimeStamp", &["2020-01-02T03:04:05+00:00", "1999-12-31T23:59:59.500+14:00"]),
    ("duration", &["P1Y2M3DT4H5M6.5S", "-P1D", "PT36H"]),
    ("gDay", &["---31", "---01+00:00", "---15-05:30"]),
    ("gMonth", &["--12", "--01+00:00", "--02-05:30"]),
    ("gMonthDay", &["--02-29", "--12-31+00:00", "--01-01-05:30"]),
    ("gYear", &["2020", "-0044+00:00", "12345-05:30"]),
    ("gYearMonth", &["2020-02", "-0044-03+00:00", "12345-12-05:30"]),
    ("string", ASTR),
    ("normalizedString", ASTR),
    ("token", &["a b", "x"]),
    ("language", &["en-GB", "x"]),
    ("Name", &["a:b", "_x"]),
    ("NCName", &["a.b", "_x"]),
    ("ENTITY", &["e", "f"]),
    ("ID", &["id1", "i"]),
    ("IDREF", &["id1", "i"]),
    ("NMTOKEN", &["1-a", ".."]),
    ("anyURI", &["http://e.com/a?b=c#e", "x"]),
    ("QName", &["tns:a", "a"]),
    ("NOTATION", &["tns:a", "a"]),
];

fn builtin(i: usize, place: usize) -> Case {
    let (name, values) = BUILTINS[i];
    let v = T::Simple(values);
    let ty = format!("xs:{}", name);
    let words = values.iter().all(|v| !v.contains(' '));
    let joined: Vec<&'static str> = if words { vec![values[0], text(values.join(" "))[0]] } else { vec![values[1]] };
    match place {
        0 => case(
            foo(seq(&format!("<xs:element name=\"a\" type=\"{ty}\"/><xs:element name=\"b\" type=\"{ty}\" minOccurs=\"0\"/><xs:element name=\"c\" type=\"{ty}\" minOccurs=\"0\" maxOccurs=\"unbounded\"/>")) + &format!("<xs:attribute name=\"k\" type=\"{ty}\" use=\"required\"/><xs:attribute name=\"l\" type=\"{ty}\"/>")),
            C { attrs: vec![attr("k", values, true), attr("l", values, false)], parts: vec![part("a", &[1], v.clone()), part("b", &[0, 1], v.clone()), part("c", &[0, 1, 3], v)], ..C::default() },
            2,
        ),
        1 => case(
            foo(seq("<xs:element name=\"w\" type=\"tns:W\"/><xs:element name=\"l\" type=\"tns:L\" minOccurs=\"0\"/>") + "<xs:attribute name=\"k\" type=\"tns:W\"/>") + &format!("<xs:simpleType name=\"W\"><xs:restriction base=\"{ty}\"/></xs:simpleType><xs:simpleType name=\"L\"><xs:list itemType=\"{ty}\"/></xs:simpleType>"),
            C { attrs: vec![attr("k", values, false)], parts: vec![part("w", &[1], v), part("l", &[0, 1], T::Simple(fixed(joined)))], ..C::default() },
            2,
        ),
        _ => case(
            foo(format!("<xs:choice><xs:element name=\"a\" type=\"{ty}\"/><xs:element name=\"b\" type=\"tns:W\"/></xs:choice>")) + &format!("<xs:simpleType name=\"W\"><xs:restriction base=\"{ty}\"/></xs:simpleType>"),
            C { mode: Mode::Choice(&[1]), parts: vec![part("a", &[1], v.clone()), part("b", &[1], v)], ..C::default() },
            2,
        ),
    }
}

/// Every character XML allows inside text, in pieces.
fn characters(attribute: bool) -> &'static [&'static str] {
    let all: Vec<char> = (0x20..=0x10ffff).filter_map(char::from_u32).filter(|c| !matches!(*c as u32, 0x7f..=0x9f | 0xfffe | 0xffff)).filter(|c| !attribute || !"<>&\"'".contains(*c)).collect();
    let mut out: Vec<&'static str> = all.chunks(64).map(|p| text(format!("x{}x", p.iter().collect::<String>()))[0]).collect();
    // the first thousand also alone
    out.extend(all[1..1000].iter().filter(|c| !c.is_whitespace()).map(|c| text(c.to_string())[0]));
    fixed(out)
}

pub fn run(ctx: &Ctx) {
    let top = if ctx.thorough() { 40 } else { 12 };
    let mut sizes: Vec<usize> = (1..=top).collect();
    sizes.extend([15, 16, 17, 31, 32, 33, 63, 64, 65].iter().filter(|n| **n > top));
    let long = [99, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096];
    ctx.bound(format!("sizes: {} families ({}) at {} sizes up to 65, and occurrences, items and characters at {} up to 4096", FAMILIES.len(), FAMILIES.join("; "), sizes.len(), long.len()));
    carried(ctx, "sizes", || {
        crate::batch::paths(0, |c| {
            let f = c.choose(FAMILIES.len());
            let n = if (7..=10).contains(&f) { c.choose(sizes.len() + long.len()) } else { c.choose(sizes.len()) };
            sized(f, if n < sizes.len() { sizes[n] } else { long[n - sizes.len()] })
        })
    });
    ctx.bound(format!("other words: {} rows of names for elements and attributes x {} combinations of kinds x 4 content models x named and anonymous root", WORDS.len(), COMBOS.len()));
    carried(ctx, "other words", || {
        crate::batch::paths(0, |c| {
            let w = c.choose(WORDS.len());
            let (kinds, modes) = COMBOS[c.choose(COMBOS.len())];
            let mode = *c.pick(modes);
            let root_ = c.choose(if kinds[0] == "recursive" { 1 } else { 2 });
            let at = |l: &str| KINDS.iter().position(|k| k.label == l).unwrap();
            let a = WORDS[(w + 1) % WORDS.len()];
            let s = Schema {
                fields: kinds.iter().map(|l| Field { kind: at(l), occ: if *l == "recursive" { 2 } else { 0 } }).collect(),
                attrs: vec![(at("string"), false), (at("enum"), true)],
                mode,
                all_names: WORDS,
                names: w,
                attr_words: Some([a[0], a[1]]),
                root: root_,
                ..Default::default()
            };
            Some(Case { xsd: xsd(&s), other: other_xsd(&s), t: T::Complex(root(&s)), bare: false, deviations: 1, styles: 2 })
        })
    });
    ctx.bound(format!("built-in types: each of {} as required, optional and repeated element and attribute, wrapped, as list item and as alternative, documents with two deviations", BUILTINS.len()));
    carried(ctx, "built-in types", || crate::batch::paths(0, |c| Some(builtin(c.choose(BUILTINS.len()), c.choose(3)))));
    ctx.bound("characters: every character XML allows in text (C1 controls aside), in pieces of 64, the first thousand also alone, in an element, a wrapped element and an attribute (no markup there)");
    carried(ctx, "characters", || {
        let (e, a) = (characters(false), characters(true));
        crate::batch::paths(0, |c| {
            let b = ["<xs:element name=\"e\" type=\"xs:string\"/>", "<xs:element name=\"e\" type=\"tns:W\"/>", ""][c.choose(3)];
            let k = if b.is_empty() { "<xs:attribute name=\"k\" type=\"xs:string\" use=\"required\"/>" } else { "" };
            let content = if b.is_empty() { C { attrs: vec![attr("k", a, true)], ..C::default() } } else { C { parts: vec![part("e", &[1], T::Simple(e))], ..C::default() } };
            Some(case(foo(seq(b) + k) + "<xs:simpleType name=\"W\"><xs:restriction base=\"xs:string\"/></xs:simpleType>", content, 1))
        })
    });
}
