//! Derived unions: the first member type that accepts the text.
use crate::mc::*;
use crate::types::{union, *};
use crate::{position, types};
use std::str::FromStr;
use xsd_macro_utils::*;
use xsd_types::types::*;

struct Sel {
    name: &'static str,
    members: &'static [&'static str],
    meaning: fn(&str) -> String,
    read: fn(&str) -> Result<String, String>,
    /// the same through a reader which leaves white space alone
    raw: fn(&str) -> Result<String, String>,
    /// write the variant the text denotes, if it is a member's
    write: fn(&str) -> Option<Result<String, String>>,
    text: fn(&str) -> String,
}

fn untrimmed<T: yaserde::YaDeserialize>(x: &str) -> Result<T, String> {
    let c = xml::reader::ParserConfig::new().trim_whitespace(false).whitespace_to_characters(true).cdata_to_characters(true).ignore_comments(true).coalesce_characters(true);
    T::deserialize(&mut yaserde::de::Deserializer::new(xml::reader::EventReader::new_with_config(x.as_bytes(), c)))
}

macro_rules! selections {
    ($f:ident $($u:ident { $($alt:ident($t:ident)),* })*) => {
        $(union!($u { $($alt($t)),* });)*
        fn $f() -> Vec<Sel> {
            vec![$(Sel {
                name: stringify!($u),
                members: &[$(stringify!($alt)),*],
                meaning: |s| format!("{:?}", $u::meaning(s).unwrap()),
                read: |x| yaserde::de::from_str::<$u>(x).map(|v| format!("{:?}", v)),
                raw: |x| untrimmed::<$u>(x).map(|v| format!("{:?}", v)),
                write: |s| match $u::meaning(s).unwrap() {
                    $u::__Unknown__(_) => None,
                    v => Some(yaserde::ser::to_string(&v)),
                },
                text: |s| $u::meaning(s).unwrap().text(),
            }),*]
        }
    };
}
include!("selections.rs");
include!("wide.rs");

const TEXTS: [&str; 72] = [
    "", "0", "1", "-1", "+5", "007", "255", "256", "300", "-128", "2147483647", "2147483648", "-2147483648", "4294967296", "99999999999999999999", "true", "false", "True", "1.5", "-0.50", "+.25", "1e3", "1 2",
    "1  -2 3", "1 2.5", "1 x", "true false", "2020-01-01", "2020-01-01Z", "2020-02-30", "2020-1-1", "2020-01-01 2021-01-01", "NaN", "abc", "a b", "é中😀", "Str", "U8", "No valid variants", "__Unknown__",
    "v1.0", "1.0", "-0.0", "0.0", "12.00", "1.", ".0", "x.0", "000", "+0", "-0", "+true", "TRUE", "inf", "INF", "-INF", "1_0", "0x1", "1,5", "10:11:12", "P1D", "---05", "--05", "--02-29", "2020-05", "\u{a0}x\u{a0}",
    "\u{2003}1", "1\u{85}", "\u{feff}7", "\u{663}", "a\u{2028}b", "\u{3000}",
];
/// Texts whose edges are white space, for a reader which leaves it alone.
const EDGES: [&str; 14] = [" ", "  ", "\t", "\n", " x", "x ", "x\n", "\tx y\t", " 1", "1 ", "1\n", " 1 2 ", "true ", "\n2020-01-01"];

fn spelling(t: &str, sp: usize) -> Option<String> {
    let n = t.chars().count();
    let half: String = t.chars().take(n / 2).collect();
    let rest: String = t.chars().skip(n / 2).collect();
    if matches!(sp, 2 | 3) && (half.ends_with(' ') || rest.starts_with(' ')) {
        return None;
    }
    let esc = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;");
    Some(match sp {
        0 => format!("<u>{}</u>", esc(t)),
        1 if !t.contains("]]>") => format!("<u><![CDATA[{}]]></u>", t),
        2 => format!("<u>{}<!-- 7 -->{}</u>", esc(&half), esc(&rest)),
        3 => format!("<u>{}<?pi 7?>{}</u>", esc(&half), esc(&rest)),
        4 => format!("<p:u xmlns:p=\"urn:p\" at=\"9\">{}</p:u>", esc(t)),
        5 => format!("<u>{}</u>", t.chars().map(|c| format!("&#{};", c as u32)).collect::<String>()),
        _ => return None,
    })
}

fn member(s: &Sel, t: &str, x: &str, raw: bool) -> Result<Obs, Viol> {
    let want = (s.meaning)(t);
    let got = guard(|| if raw { (s.raw)(x) } else { (s.read)(x) }).unwrap_or_else(Err);
    if got.as_ref() != Ok(&want) {
        return Err(viol("member", format!("union of {:?} from {}", s.members, x), want, format!("{:?}", got)));
    }
    let Some(w) = (s.write)(t) else {
        return ok(1, "kept verbatim: no member accepts");
    };
    let body = w.as_ref().map(|w| position::canon(w).unwrap_or_else(|e| e));
    let text = (s.text)(t);
    let tail = if text.is_empty() { "></>".to_string() } else { format!(">{:?}</>", text) };
    match body {
        Ok(b) if b.ends_with(&tail) && b.matches('<').count() - text.matches('<').count() == 2 => {}
        b => return Err(viol("write", format!("union of {:?} holding {}", s.members, want), format!("one element with text {:?}", text), format!("{:?}", b))),
    }
    let back = if raw { (s.raw)(w.as_ref().unwrap()) } else { (s.read)(w.as_ref().unwrap()) };
    if back.as_ref() != Ok(&(s.meaning)(&text)) {
        return Err(viol("write", format!("union of {:?} reads {}", s.members, w.unwrap()), (s.meaning)(&text), format!("{:?}", back)));
    }
    ok(3, "first accepting member; written")
}

pub fn run(ctx: &Ctx) {
    let sels = selections();
    ctx.bound(format!("selections: {} unions, every ordered selection of up to three of {{u8, i32, bool, Decimal, Date, list of i32, string}}, all four of three further groups, one of 17 kinds and two with unusual variant names, x {} texts x 6 spellings in XML", sels.len(), TEXTS.len()));
    ctx.explore(
        "which member",
        0,
        |c| {
            let u = c.choose(sels.len());
            let t = *c.pick(&TEXTS);
            let xml = spelling(t, c.choose(6))?;
            Some((u, t, xml))
        },
        |(u, _, x)| hash64(&(u, x)),
        |(u, _, x)| format!("{} from {}", sels[*u].name, x),
        |(u, t, x)| member(&sels[*u], t, x, false),
    );
    ctx.bound(format!("white space: the same unions read with a reader that leaves white space alone, x {} texts with white space at their edges x 3 spellings", EDGES.len()));
    ctx.explore(
        "white space at the edges",
        0,
        |c| {
            let u = c.choose(sels.len());
            let t = *c.pick(&EDGES);
            let xml = spelling(t, [0, 1, 5][c.choose(3)])?;
            Some((u, t, xml))
        },
        |(u, _, x)| hash64(&(u, x)),
        |(u, _, x)| format!("{} from {} (white space left alone)", sels[*u].name, x),
        |(u, t, x)| member(&sels[*u], t, x, true),
    );
    let ws = wide();
    ctx.bound(format!("sizes: {} unions of every size up to 70 whose members overlap pairwise, x every number up to 72 x 6 spellings; a text of each length up to 70 and of 15 lengths up to 70000", ws.len()));
    ctx.explore(
        "many members",
        0,
        |c| {
            let u = c.choose(ws.len());
            let t = c.choose(73).to_string();
            let xml = spelling(&t, c.choose(6))?;
            Some((u, t, xml))
        },
        |(u, _, x)| hash64(&(u, x)),
        |(u, _, x)| format!("{} from {}", ws[*u].name, x),
        |(u, t, x)| member(&ws[*u], t, x, false),
    );
    let by_name = |n: &str| sels.iter().position(|s| s.name == n).unwrap();
    let some: Vec<usize> = ["U8BoolU", "StrU", "ListU", "DecimalU", "DateI32StrU", "KindsU", "OddU"].iter().map(|n| by_name(n)).collect();
    let sizes: Vec<usize> = (1..=70).chain([99, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 4096, 8192, 65536, 70000]).collect();
    let fills = ["x", "1", "0", "1 ", "é", "😀", "ab ", "]", "&", "<>", "true", "2020-01-01 ", ". ", "-"];
    ctx.explore(
        "long texts",
        0,
        |c| {
            let u = *c.pick(&some);
            let n = *c.pick(&sizes);
            let t: String = c.pick(&fills).chars().cycle().take(n).collect::<String>().trim().to_string();
            let xml = spelling(&t, if n > 5000 { 0 } else { c.choose(6) })?;
            Some((u, t, xml))
        },
        |(u, _, x)| hash64(&(u, x)),
        |(u, t, x)| format!("{} from a text of {} characters {}", sels[*u].name, t.chars().count(), x.chars().take(60).collect::<String>()),
        |(u, t, x)| member(&sels[*u], t, x, false),
    );
    let few: Vec<usize> = ["StrU", "U8BoolU", "ListStrU"].iter().map(|n| by_name(n)).collect();
    ctx.bound("characters: every character XML allows, alone, at either edge and within, in a union with a string member and in two without");
    ctx.explore(
        "characters",
        0,
        |c| {
            let ch = xml_char(c)?;
            let u = *c.pick(&few);
            let t = match c.choose(3) {
                0 => ch.to_string(),
                1 => format!("{}a{}", ch, ch),
                _ => format!("1{}2", ch),
            };
            Some((u, t))
        },
        |(u, t)| hash64(&(u, t)),
        |(u, t)| format!("{} from {:?}", sels[*u].name, t),
        |(u, t)| {
            // the reader trims white space, and turns a carriage return into a line break
            if t.trim_matches([' ', '\t', '\n', '\r']) != t || t.contains('\r') {
                return ok(0, "white space");
            }
            member(&sels[*u], t, &spelling(t, 0).unwrap(), false)
        },
    );
    position::reading(ctx, &types::unknowns(), "texts no member accepts: ");
    position::run(ctx, types::unions());
}
