//! Derived wrappers and lists against their inner types.
use crate::mc::*;
use crate::types::*;
use num_bigint::BigInt;
use std::fmt::{Debug, Display};
use std::str::FromStr;
use xsd_types::types::*;

/// The wrapper's inner value, read the way the inner type reads.
struct Wrapper {
    name: &'static str,
    /// literal -> (Debug of the wrapped value, printed text); both through the wrapper
    wrapper: fn(&str) -> Result<(String, String), String>,
    /// the same through the inner type alone
    inner: fn(&str) -> Result<(String, String), String>,
    /// the element written for the value of a literal, and whether it reads back as that value
    xml: fn(&str) -> Result<(String, bool), String>,
    pool: &'static [&'static str],
}

struct List {
    name: &'static str,
    read: fn(&str) -> Result<(String, String), String>,
    item: fn(&str) -> Option<(String, String)>,
    /// build the list from item literals, print it, read it back: (printed, equal)
    build: fn(&[&str]) -> Result<(String, bool), String>,
    xml: fn(&str) -> Result<(String, bool), String>,
    pool: &'static [&'static str],
}

fn show<T: Display + Debug, E: Debug>(v: Result<T, E>) -> Result<(String, String), String> {
    v.map(|v| (format!("{:?}", v), v.to_string())).map_err(|e| format!("{:?}", e))
}
fn inner<T: FromStr + Display + Debug + 'static>(s: &str) -> Result<(String, String), String> {
    member::<T>(s).map(|v| (format!("{:?}", v), v.to_string())).ok_or("no literal".to_string())
}

fn element<T: FromStr + Debug + yaserde::YaSerialize + yaserde::YaDeserialize>(s: &str) -> Result<(String, bool), String> {
    let v = T::from_str(s).map_err(|_| "no value".to_string())?;
    let x = yaserde::ser::to_string(&v)?;
    let back: T = yaserde::de::from_str(&x)?;
    Ok((x, format!("{:?}", back) == format!("{:?}", v)))
}
/// An element holds exactly what is printed, and reads back as the same value.
fn in_element(name: &str, xml: fn(&str) -> Result<(String, bool), String>, literal: &str, printed: &str) -> Result<(), Viol> {
    let blank = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r');
    // empty elements and blanks at the edges are another property's
    if printed.is_empty() || printed.starts_with(blank) || printed.ends_with(blank) || printed.contains('\r') || printed.chars().any(|c| !is_xml_char(c)) {
        return Ok(());
    }
    let fail = |got: String| Err(viol(format!("element:{}", name), format!("{} from {:?} in an element", name, literal.chars().take(60).collect::<String>()), format!(">{:?}</> and the same value read back", printed.chars().take(100).collect::<String>()), got.chars().take(200).collect::<String>()));
    let (x, same) = match xml(literal) {
        Ok(r) => r,
        Err(e) => return fail(e),
    };
    let c = crate::position::canon(&x).unwrap_or_else(|e| e);
    let body = c.find('>').map(|i| &c[i..]).unwrap_or(&c).to_string();
    if body != format!(">{:?}</>", printed) || !same {
        return fail(format!("{}, same value: {}", body, same));
    }
    Ok(())
}
fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
}

macro_rules! w {
    ($w:ident, $t:ty, $pool:expr) => {
        Wrapper {
            name: stringify!($w),
            wrapper: |s| show($w::from_str(s)).map(|(_, p)| (format!("{:?}", $w::from_str(s).unwrap().0), p)),
            inner: inner::<$t>,
            xml: element::<$w>,
            pool: &$pool,
        }
    };
}
macro_rules! l {
    ($w:ident, $t:ty, $pool:expr) => {
        List {
            name: stringify!($w),
            read: |s| show($w::from_str(s)).map(|(_, p)| (format!("{:?}", $w::from_str(s).unwrap().0), p)),
            item: |s| inner::<$t>(s).ok(),
            build: |items| {
                let v = $w(items.iter().map(|i| member::<$t>(i).unwrap()).collect());
                let p = v.to_string();
                let back = $w::from_str(&p).map_err(|e| format!("{:?}", e))?;
                Ok((p, back == v))
            },
            xml: element::<$w>,
            pool: &$pool,
        }
    };
}

const INTS: [&str; 24] = ["0", "1", "-1", "+7", "-0", "007", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616", "1.0", "1e3", "0x1"];
const FLOATS: [&str; 16] = ["0", "-0", "1", "1.5", "-7e3", "1E-3", ".5", "5.", "NaN", "INF", "-INF", "+1", "1e400", "1,5", "0x1", "1_0"];
const BOOLS: [&str; 9] = ["true", "false", "1", "0", "True", "TRUE", "yes", "01", "t"];
const DATES: [&str; 22] = ["2020-02-29", "2021-02-29", "2020-01-01Z", "2020-01-01+14:00", "20-01-01", "2020-02-29T10:11:12Z", "2020-02-29T10:11:12", "10:11:12", "24:00:00Z", "P1D", "-PT1.5S", "P", "---05", "---32", "--05", "--13", "--02-29", "--02-30", "2020", "2020-05", "-0044", "2020-13"];
const STRINGS: [&str; 11] = ["a\nb", "a\tb", "a  b", "x", "a b", "é中😀", "<&>", "\u{a0}", "\"'", "--", "0"];
const EDGES: [&str; 12] = ["", " ", "\t", " {}", "{} ", "\n{}\r", "{}\u{a0}", "{};", "+{}", "-{}", "{} {}", "{}"];

fn wrappers() -> Vec<Wrapper> {
    vec![
        w!(WString, String, STRINGS), w!(WI8, i8, INTS), w!(WU8, u8, INTS), w!(WI16, i16, INTS), w!(WU16, u16, INTS), w!(WI32, i32, INTS),
        w!(WU32, u32, INTS), w!(WI64, i64, INTS), w!(WU64, u64, INTS), w!(WF32, f32, FLOATS), w!(WF64, f64, FLOATS), w!(WBool, bool, BOOLS),
        w!(WInteger, Integer, INTS), w!(WDecimal, Decimal, FLOATS), w!(WDate, Date, DATES), w!(WDateTime, DateTime, DATES),
        w!(WDateTimeStamp, DateTimeStamp, DATES), w!(WDuration, Duration, DATES), w!(WTime, Time, DATES), w!(WGDay, GDay, DATES),
        w!(WGMonth, GMonth, DATES), w!(WGMonthDay, GMonthDay, DATES), w!(WGYear, GYear, DATES), w!(WGYearMonth, GYearMonth, DATES),
        w!(WNegative, NegativeInteger, INTS), w!(WNonNegative, NonNegativeInteger, INTS), w!(WNonPositive, NonPositiveInteger, INTS),
        w!(WPositive, PositiveInteger, INTS), w!(WWI32, WI32, INTS), w!(WWString, WString, STRINGS), w!(WWDate, WDate, DATES),
        w!(WPath, Integer, INTS), w!(WLI32, LI32, INTS),
    ]
}

fn lists() -> Vec<List> {
    vec![
        l!(LI32, i32, ["1", "-2", "+03", "2147483647", "x", "1.5", "2147483648"]),
        l!(LU8, u8, ["1", "255", "0", "-1", "256", "1a"]),
        l!(LI8, i8, ["1", "127", "-128", "128", "-129", "1a"]),
        l!(LI16, i16, ["1", "32767", "-32768", "32768", "x"]),
        l!(LU16, u16, ["1", "65535", "0", "65536", "-1"]),
        l!(LU32, u32, ["1", "4294967295", "0", "4294967296", "-1"]),
        l!(LI64, i64, ["1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "x"]),
        l!(LU64, u64, ["1", "18446744073709551615", "0", "18446744073709551616", "-1"]),
        l!(LF32, f32, ["1", "-2.5", "1e9", "1,5", "x"]),
        l!(LF64, f64, ["1", "-2.5", "1e300", "1,5", "x"]),
        l!(LBool, bool, ["true", "false", "1", "0", "yes", "TRUE"]),
        l!(LString, String, ["a", "b", "1", "\u{e9}\u{4e2d}", "a\u{a0}b", "\u{a0}", "a\u{2003}", "\u{b}"]),
        l!(LInteger, Integer, ["1", "-2", "99999999999999999999", "1.0", "x"]),
        l!(LDecimal, Decimal, ["1", "-2.50", "+.5", "1e", "x"]),
        l!(LDate, Date, ["2020-02-29", "2020-01-01Z", "2021-02-29", "x"]),
        l!(LDuration, Duration, ["P1D", "-PT1.5S", "P1Y2M", "P", "1D"]),
        l!(LDateTime, DateTime, ["2020-02-29T10:11:12Z", "2020-01-01T00:00:00.25-05:30", "2020-02-30T10:11:12Z", "x"]),
        l!(LGDay, GDay, ["---01", "---31Z", "---32", "01"]),
        l!(LPositive, PositiveInteger, ["1", "99999999999999999999", "0", "-1"]),
        l!(LWI32, WI32, ["1", "-2", "7", "x", "1.5"]),
        l!(LWString, WString, ["a", "b", "1", "a\u{a0}b"]),
        l!(LWBool, WBool, ["true", "0", "1", "no"]),
        l!(LWDate, WDate, ["2020-02-29", "2020-01-01Z", "2021-02-29"]),
    ]
}

const SEPS: [&str; 4] = [" ", "\t", "\n", "\r"];

pub fn run(ctx: &Ctx) {
    let _ = BigInt::from(0);
    let ws = wrappers();
    let ls = lists();
    ctx.bound("wrappers: 33 wrappers (every built-in and every xsd-types type, wrapper of wrapper, wrapper of list) x literal pools with every numeric boundary x 12 edge forms (white space, non-XML blanks, signs, repeats)");
    ctx.explore(
        "single values",
        0,
        |c| {
            let w = c.choose(ws.len());
            let lit = *c.pick(ws[w].pool);
            let e = *c.pick(&EDGES);
            Some((w, e.replace("{}", lit)))
        },
        |x| hash64(x),
        |(w, s)| format!("{} {:?}", ws[*w].name, s),
        |(w, s)| {
            let (a, b) = ((ws[*w].wrapper)(s), (ws[*w].inner)(s));
            match (&a, &b) {
                (Err(_), Err(_)) => ok(2, "refused as the inner type does"),
                (Ok(x), Ok(y)) if x == y => {
                    in_element(ws[*w].name, ws[*w].xml, s, &x.1)?;
                    ok(3, "read and printed as the inner type does")
                }
                _ => Err(viol(format!("wrapper:{}", ws[*w].name), format!("{} from {:?}", ws[*w].name, s), format!("{:?}", b), format!("{:?}", a))),
            }
        },
    );
    let max = if ctx.thorough() { 5 } else { 4 };
    ctx.bound(format!("lists: 23 list types x all lists of up to {} items over pools of 3 to 8 literals (valid, invalid, with blanks which are no XML white space) x the separator between, before and after (all one- and two-character XML white space) one of them, single blanks elsewhere", max));
    ctx.explore(
        "list texts",
        if ctx.thorough() { 2 } else { 1 },
        |c| {
            let l = c.choose(ls.len());
            let n = c.choose(max + 1);
            let items: Vec<&str> = (0..n).map(|_| *c.pick(ls[l].pool)).collect();
            let mut s = String::new();
            let mut seps: Vec<String> = vec![];
            for a in SEPS {
                seps.push(a.into());
                for b in SEPS {
                    seps.push(format!("{}{}", a, b));
                }
            }
            for i in 0..=n {
                let edge = i == 0 || i == n;
                let k = c.dev(seps.len() + 1);
                if k > 0 {
                    s += &seps[k - 1];
                } else if !edge {
                    s += " ";
                }
                if i < n {
                    s += items[i];
                }
            }
            Some((l, items, s))
        },
        |(l, _, s)| hash64(&(l, s)),
        |(l, _, s)| format!("{} {:?}", ls[*l].name, s),
        |(l, items, s)| {
            let l = &ls[*l];
            let got = (l.read)(s);
            let vals: Option<Vec<(String, String)>> = items.iter().map(|i| (l.item)(i)).collect();
            let key = format!("list:{}", l.name);
            match (vals, got) {
                (None, Err(_)) => ok(1, "refused for a bad item"),
                (Some(v), Ok((d, p))) => {
                    let want = (format!("[{}]", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" "));
                    if (d.clone(), p.clone()) != want {
                        return Err(viol(key, format!("{} from {:?}", l.name, s), format!("{:?}", want), format!("{:?}", (d, p))));
                    }
                    in_element(l.name, l.xml, s, &p)?;
                    match (l.build)(items) {
                        Ok((p, true)) if p == want.1 => ok(4, "items in order; printed and read back"),
                        b => Err(viol(key, format!("{} of {:?} printed and read back", l.name, items), format!("({:?}, equal)", want.1), format!("{:?}", b))),
                    }
                }
                (None, Ok(g)) => Err(viol(key, format!("{} from {:?}", l.name, s), "an error: an item is no literal".to_string(), format!("{:?}", g))),
                (Some(v), Err(e)) => Err(viol(key, format!("{} from {:?}", l.name, s), format!("{:?}", v), e)),
            }
        },
    );
    // sizes
    let sizes: Vec<usize> = (0..=70).chain([99, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 10000, 32768, 65535, 65536, 65537]).collect();
    let seps = [" ", "  ", "\t", "\n", "\r\n  ", " \t\n\r "];
    ctx.bound(format!("long lists: 23 list types x lengths 0 to 70 and {} up to 65537, of the first literal, of all valid literals in turn, or with one bad item first, in the middle or last, x 6 separators", sizes.len() - 71));
    ctx.explore(
        "long lists",
        0,
        |c| {
            let l = c.choose(ls.len());
            let n = *c.pick(&sizes);
            let good: Vec<&str> = ls[l].pool.iter().copied().filter(|i| (ls[l].item)(i).is_some()).collect();
            let bad: Vec<&str> = ls[l].pool.iter().copied().filter(|i| (ls[l].item)(i).is_none()).collect();
            let mut items: Vec<&str> = match c.choose(2) {
                0 => vec![good[0]; n],
                _ => good.iter().copied().cycle().take(n).collect(),
            };
            let at = c.choose(4);
            if at > 0 {
                if bad.is_empty() || n == 0 {
                    return None;
                }
                items[[0, n / 2, n - 1][at - 1]] = bad[0];
            }
            let sep = if n > 300 { " " } else { c.pick(&seps) };
            Some((l, items, sep))
        },
        |x| hash64(x),
        |(l, i, s)| format!("{} of {} items from {:?}, {:?} between them, the last {:?}", ls[*l].name, i.len(), i.first(), s, i.last()),
        |(l, items, sep)| {
            let l = &ls[*l];
            let got = (l.read)(&items.join(sep));
            let vals: Option<Vec<(String, String)>> = items.iter().map(|i| (l.item)(i)).collect();
            let key = format!("list:{}", l.name);
            let inp = || format!("{} of {} items {:?}...", l.name, items.len(), &items[..items.len().min(3)]);
            match (vals, got) {
                (None, Err(_)) => ok(1, "refused for a bad item"),
                (Some(v), Ok((d, p))) => {
                    let want = (format!("[{}]", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" "));
                    let short = |s: &str| format!("{} bytes {}...", s.len(), s.chars().take(60).collect::<String>());
                    if d != want.0 || p != want.1 {
                        return Err(viol(key, inp(), short(&want.0), short(&d)));
                    }
                    in_element(l.name, l.xml, &items.join(sep), &p)?;
                    match (l.build)(items) {
                        Ok((p, true)) if p == want.1 => ok(4, "items in order; printed and read back"),
                        b => Err(viol(key, inp(), short(&want.1), b.map(|b| short(&b.0)).unwrap_or_else(|e| e))),
                    }
                }
                (None, Ok(g)) => Err(viol(key, inp(), "an error: an item is no literal", g.1.chars().take(60).collect::<String>())),
                (Some(_), Err(e)) => Err(viol(key, inp(), "a list", e)),
            }
        },
    );
    ctx.bound("characters: every Unicode character in lists of strings, wrapped strings and i32 and in wrappers of string, i32, bool: alone, at the edges of an item, within one, between two");
    let kinds: Vec<&List> = ls.iter().filter(|l| ["LString", "LWString", "LI32"].contains(&l.name)).collect();
    let single: Vec<&Wrapper> = ws.iter().filter(|w| ["WString", "WI32", "WBool"].contains(&w.name)).collect();
    ctx.explore(
        "characters",
        0,
        |c| {
            let block = c.choose(0x440) as u32;
            let ch = char::from_u32(block * 1024 + c.choose(1024) as u32)?;
            let t = match c.choose(5) {
                0 => ch.to_string(),
                1 => format!("{}1 2", ch),
                2 => format!("1{}", ch),
                3 => format!("1{}2", ch),
                _ => format!("1 {} 2", ch),
            };
            Some((c.choose(kinds.len() + single.len()), t))
        },
        |x| hash64(x),
        |(k, t)| format!("{} from {:?}", if *k < kinds.len() { kinds[*k].name } else { single[k - kinds.len()].name }, t),
        |(k, t)| {
            let err = |name: &str, want: String, got: String| Err(viol(format!("characters:{}", name), format!("{} from {:?}", name, t), want, got));
            if *k >= kinds.len() {
                let w = single[k - kinds.len()];
                let (a, b) = ((w.wrapper)(t), (w.inner)(t));
                return match (&a, &b) {
                    (Err(_), Err(_)) => ok(2, "refused as the inner type does"),
                    (Ok(x), Ok(y)) if x == y => ok(2, "read and printed as the inner type does"),
                    _ => err(w.name, format!("{:?}", b), format!("{:?}", a)),
                };
            }
            let l = kinds[*k];
            let items: Vec<&str> = t.split([' ', '\t', '\n', '\r']).filter(|s| !s.is_empty()).collect();
            let vals: Option<Vec<(String, String)>> = items.iter().map(|i| (l.item)(i)).collect();
            match (vals, (l.read)(t)) {
                (None, Err(_)) => ok(1, "refused for a bad item"),
                (Some(v), Ok((_, p))) => {
                    let want = v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" ");
                    if p != want {
                        return err(l.name, want, p);
                    }
                    match (l.build)(&items) {
                        Ok((p, true)) if p == want => ok(3, "items in order; printed and read back"),
                        b => err(l.name, want, format!("{:?}", b)),
                    }
                }
                (w, g) => err(l.name, format!("{:?}", w), format!("{:?}", g)),
            }
        },
    );
}
