//! Value types under test, each placed in every XML position a generated module gives it.
#![allow(dead_code)]
use std::str::FromStr;
use xsd_macro_utils::*;
use xsd_types::types::*;

/// What a document holds, position by position; literals when written, `Debug` text when read.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Content {
    pub at: Option<String>,
    pub first: Option<String>,
    pub plain: String,
    pub opt: Option<String>,
    pub many: Vec<String>,
    pub bare: Option<String>,
    pub nested: Option<(String, String)>,
    pub last: Option<String>,
}

/// A choice: which alternative, and its values.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Pick {
    pub alt: usize,
    pub vals: Vec<String>,
    pub first: Option<String>,
    pub last: Option<String>,
}

pub struct Ops {
    pub name: &'static str,
    pub parse: fn(&str) -> Option<String>,
    pub print: fn(&str) -> Option<String>,
    /// 0: prefixed names, 1: no namespace
    pub read: [fn(&str) -> Result<Content, String>; 2],
    pub write: [fn(&Content) -> Result<String, String>; 2],
    pub read_pick: fn(&str) -> Result<Pick, String>,
    pub write_pick: fn(&Pick) -> Result<String, String>,
    pub read_root: fn(&str) -> Result<String, String>,
    pub write_root: fn(&str) -> Result<String, String>,
    pub valid: &'static [&'static str],
    pub invalid: &'static [&'static str],
}

macro_rules! holder {
    ($m:ident, $v:ty, $from:expr, [$($root:tt)*], [$($el:tt)*], $rn:literal) => {
        pub mod $m {
            use super::super::*;
            use yaserde_derive::{YaDeserialize, YaSerialize};
            pub type V = $v;

            #[derive(Default, PartialEq, Debug, YaSerialize, YaDeserialize)]
            #[yaserde($($root)* rename = "nested")]
            pub struct Nested {
                #[yaserde(attribute, rename = "na")]
                pub na: V,
                #[yaserde($($el)* rename = "inner")]
                pub inner: V,
            }

            #[derive(Default, PartialEq, Debug, YaSerialize, YaDeserialize)]
            #[yaserde($($root)* rename = "holder")]
            pub struct Holder {
                #[yaserde(attribute, rename = "at")]
                pub at: Option<V>,
                #[yaserde($($el)* rename = "first")]
                pub first: Option<String>,
                #[yaserde($($el)* rename = "plain")]
                pub plain: V,
                #[yaserde($($el)* rename = "opt")]
                pub opt: Option<V>,
                #[yaserde($($el)* rename = "many")]
                pub many: Vec<V>,
                #[yaserde(rename = "bare")]
                pub bare: Option<V>,
                #[yaserde($($el)* rename = "nested")]
                pub nested: Option<Nested>,
                #[yaserde($($el)* rename = "last")]
                pub last: Option<String>,
            }

            pub fn read(s: &str) -> Result<Content, String> {
                let h: Holder = yaserde::de::from_str(s)?;
                let d = |v: &V| format!("{:?}", v);
                Ok(Content {
                    at: h.at.as_ref().map(d),
                    first: h.first,
                    plain: d(&h.plain),
                    opt: h.opt.as_ref().map(d),
                    many: h.many.iter().map(d).collect(),
                    bare: h.bare.as_ref().map(d),
                    nested: h.nested.as_ref().map(|n| (d(&n.na), d(&n.inner))),
                    last: h.last,
                })
            }
            pub fn write(c: &Content) -> Result<String, String> {
                let f: fn(&str) -> Option<V> = $from;
                let f = |s: &String| f(s).expect("valid literal");
                yaserde::ser::to_string(&Holder {
                    at: c.at.as_ref().map(f),
                    first: c.first.clone(),
                    plain: f(&c.plain),
                    opt: c.opt.as_ref().map(f),
                    many: c.many.iter().map(f).collect(),
                    bare: c.bare.as_ref().map(f),
                    nested: c.nested.as_ref().map(|(a, b)| Nested { na: f(a), inner: f(b) }),
                    last: c.last.clone(),
                })
            }
        }
    };
}

macro_rules! value_type {
    ($m:ident, $name:literal, $v:ty, $from:expr, $print:expr, $valid:expr, $invalid:expr) => {
        pub mod $m {
            use super::*;
            holder!(prefixed, $v, $from, [prefix = "p", namespace = "p: urn:p",], [prefix = "p",], "holder");
            holder!(plain, $v, $from, [], [], "holder");

            pub mod pick {
                use super::super::*;
                use yaserde_derive::{YaDeserialize, YaSerialize};
                pub type V = $v;

                #[derive(PartialEq, Debug, Clone, YaSerialize, YaDeserialize)]
                #[yaserde(prefix = "p", namespace = "p: urn:p")]
                pub enum Alt {
                    #[yaserde(prefix = "p", rename = "one")]
                    One(V),
                    #[yaserde(prefix = "p", rename = "two")]
                    Two(V),
                    #[yaserde(prefix = "p", rename = "three")]
                    Three(Vec<V>),
                    __Unknown__(String),
                }
                impl Default for Alt {
                    fn default() -> Alt {
                        Self::__Unknown__("No valid variants".into())
                    }
                }
                #[derive(Default, PartialEq, Debug, YaSerialize, YaDeserialize)]
                #[yaserde(prefix = "p", namespace = "p: urn:p", rename = "pick")]
                pub struct Holder {
                    #[yaserde(prefix = "p", rename = "first")]
                    pub first: Option<String>,
                    #[yaserde(flatten)]
                    pub alt: Alt,
                    #[yaserde(prefix = "p", rename = "last")]
                    pub last: Option<String>,
                }
                pub fn read(s: &str) -> Result<Pick, String> {
                    let h: Holder = yaserde::de::from_str(s)?;
                    let d = |v: &V| format!("{:?}", v);
                    let (alt, vals) = match &h.alt {
                        Alt::One(v) => (0, vec![d(v)]),
                        Alt::Two(v) => (1, vec![d(v)]),
                        Alt::Three(v) => (2, v.iter().map(d).collect()),
                        Alt::__Unknown__(_) => (9, vec![]),
                    };
                    Ok(Pick { alt, vals, first: h.first, last: h.last })
                }
                pub fn write(p: &Pick) -> Result<String, String> {
                    let f: fn(&str) -> Option<V> = $from;
                    let f = |s: &String| f(s).expect("valid literal");
                    yaserde::ser::to_string(&Holder {
                        first: p.first.clone(),
                        alt: match p.alt {
                            0 => Alt::One(f(&p.vals[0])),
                            1 => Alt::Two(f(&p.vals[0])),
                            _ => Alt::Three(p.vals.iter().map(f).collect()),
                        },
                        last: p.last.clone(),
                    })
                }
            }

            pub fn read_root(s: &str) -> Result<String, String> {
                let v: $v = yaserde::de::from_str(s)?;
                Ok(format!("{:?}", v))
            }
            pub fn write_root(s: &str) -> Result<String, String> {
                let f: fn(&str) -> Option<$v> = $from;
                yaserde::ser::to_string(&f(s).expect("valid literal"))
            }
            pub fn ops() -> Ops {
                Ops {
                    name: $name,
                    parse: |s| {
                        let f: fn(&str) -> Option<$v> = $from;
                        f(s).map(|v| format!("{:?}", v))
                    },
                    print: |s| {
                        let f: fn(&str) -> Option<$v> = $from;
                        let p: fn(&$v) -> String = $print;
                        f(s).map(|v| p(&v))
                    },
                    read: [prefixed::read, plain::read],
                    write: [prefixed::write, plain::write],
                    read_pick: pick::read,
                    write_pick: pick::write,
                    read_root,
                    write_root,
                    valid: &$valid,
                    invalid: &$invalid,
                }
            }
        }
    };
}

macro_rules! literal_type {
    ($m:ident, $name:literal, $v:ty, $valid:expr, $invalid:expr) => {
        value_type!($m, $name, $v, |s| <$v as FromStr>::from_str(s).ok(), |v| v.to_string(), $valid, $invalid);
    };
}

macro_rules! wrapper {
    ($w:ident, $($t:tt)+) => {
        #[derive(Clone, PartialEq, Debug, Default, UtilsTupleIo, UtilsDefaultSerde)]
        pub struct $w(pub $($t)+);
    };
}
wrapper!(WString, String);
wrapper!(WI32, i32);
wrapper!(WU8, u8);
wrapper!(WI8, i8);
wrapper!(WI16, i16);
wrapper!(WU16, u16);
wrapper!(WU32, u32);
wrapper!(WI64, i64);
wrapper!(WU64, u64);
wrapper!(WF32, f32);
wrapper!(WF64, f64);
wrapper!(WBool, bool);
wrapper!(WInteger, Integer);
wrapper!(WDecimal, Decimal);
wrapper!(WDate, Date);
wrapper!(WDateTime, DateTime);
wrapper!(WDateTimeStamp, DateTimeStamp);
wrapper!(WDuration, Duration);
wrapper!(WTime, Time);
wrapper!(WGDay, GDay);
wrapper!(WGMonth, GMonth);
wrapper!(WGMonthDay, GMonthDay);
wrapper!(WGYear, GYear);
wrapper!(WGYearMonth, GYearMonth);
wrapper!(WNegative, NegativeInteger);
wrapper!(WNonNegative, NonNegativeInteger);
wrapper!(WNonPositive, NonPositiveInteger);
wrapper!(WPositive, PositiveInteger);
wrapper!(WWI32, WI32);
wrapper!(WWString, WString);
wrapper!(WWDate, WDate);
wrapper!(WPath, xsd_types::types::Integer);
wrapper!(LI32, Vec<i32>);
wrapper!(LU8, Vec<u8>);
wrapper!(LI8, Vec<i8>);
wrapper!(LI16, Vec<i16>);
wrapper!(LU16, Vec<u16>);
wrapper!(LU32, Vec<u32>);
wrapper!(LI64, Vec<i64>);
wrapper!(LU64, Vec<u64>);
wrapper!(LF32, Vec<f32>);
wrapper!(LF64, Vec<f64>);
wrapper!(LBool, Vec<bool>);
wrapper!(LString, Vec<String>);
wrapper!(LInteger, Vec<Integer>);
wrapper!(LDecimal, Vec<Decimal>);
wrapper!(LDate, Vec<Date>);
wrapper!(LDuration, Vec<Duration>);
wrapper!(LDateTime, Vec<DateTime>);
wrapper!(LGDay, Vec<GDay>);
wrapper!(LPositive, Vec<PositiveInteger>);
wrapper!(LWI32, Vec<WI32>);
wrapper!(LWString, Vec<WString>);
wrapper!(LWBool, Vec<WBool>);
wrapper!(LWDate, Vec<WDate>);
wrapper!(WLI32, LI32);

macro_rules! union {
    ($u:ident { $($alt:ident($t:ident)),* }) => {
        #[derive(PartialEq, Debug, Clone, UtilsUnionSerDe)]
        pub enum $u {
            $($alt($t),)*
            __Unknown__(String),
        }
        impl Default for $u {
            fn default() -> $u {
                Self::__Unknown__("No valid variants".into())
            }
        }
        impl $u {
            /// The union's meaning, written out by hand: the first member whose literal the text is.
            pub fn meaning(s: &str) -> Option<$u> {
                $(if let Some(v) = crate::types::member::<$t>(s) {
                    return Some($u::$alt(v));
                })*
                Some($u::__Unknown__(s.to_string()))
            }
            pub fn text(&self) -> String {
                match self {
                    $($u::$alt(v) => v.to_string(),)*
                    $u::__Unknown__(_) => String::new(),
                }
            }
        }
    };
}
pub(crate) use union;

/// Literal of a member type; booleans are `true`, `false`, `1`, `0`.
pub fn member<T: FromStr + 'static>(s: &str) -> Option<T> {
    if std::any::TypeId::of::<T>() == std::any::TypeId::of::<bool>() {
        return T::from_str(match s { "1" => "true", "0" => "false", _ => s }).ok();
    }
    T::from_str(s).ok()
}

/// A character XML allows.
pub fn xml_char(c: &mut crate::mc::Chooser) -> Option<char> {
    let block = c.choose(0x440) as u32;
    let n = block * 1024 + c.choose(1024) as u32;
    char::from_u32(n).filter(|c| matches!(*c as u32, 9 | 10 | 13 | 0x20..=0xd7ff | 0xe000..=0xfffd | 0x10000..=0x10ffff))
}

union!(UIntString { Int(i32), String(String) });
union!(UDateDecimal { Date(Date), Decimal(Decimal), Bool(bool) });
union!(UListInt { List(LI32), Word(WString) });
union!(UBytes { Byte(u8), Int(WI32), Date(WDate) });

macro_rules! union_type {
    ($m:ident, $name:literal, $v:ident, $valid:expr) => {
        value_type!($m, $name, $v, |s| $v::meaning(s), |v| v.text(), $valid, []);
    };
}

literal_type!(t_date, "Date", Date, ["2020-02-29", "2021-01-01Z", "1999-12-31-05:30"], ["2021-02-29", "20-01-01", ""]);
literal_type!(t_datetime, "DateTime", DateTime, ["2020-02-29T10:11:12", "2021-01-01T00:00:00.5Z", "1999-12-31T23:59:59-05:30"], ["2021-02-29T00:00:00", "2020-01-01", ""]);
literal_type!(t_stamp, "DateTimeStamp", DateTimeStamp, ["2020-02-29T10:11:12Z", "2021-01-01T00:00:00.5Z", "1999-12-31T23:59:59-05:30"], ["2020-02-29T10:11:12", "x", ""]);
literal_type!(t_decimal, "Decimal", Decimal, ["1.50", "-7", "+0.125"], ["1.2.3", "x", ""]);
literal_type!(t_duration, "Duration", Duration, ["P1Y2M3DT4H5M6.5S", "-PT0.25S", "P7D"], ["P", "1Y", "PT"]);
literal_type!(t_gday, "GDay", GDay, ["---05", "---31Z", "---10-05:30"], ["---32", "05", ""]);
literal_type!(t_gmonth, "GMonth", GMonth, ["--05", "--12Z", "--10-05:30"], ["--13", "05", ""]);
literal_type!(t_gmonthday, "GMonthDay", GMonthDay, ["--02-29", "--12-31Z", "--10-01-05:30"], ["--02-30", "05", ""]);
literal_type!(t_gyear, "GYear", GYear, ["2020", "1999Z", "-0044-05:30"], ["20", "x", ""]);
literal_type!(t_gyearmonth, "GYearMonth", GYearMonth, ["2020-05", "1999-12Z", "-0044-03-05:30"], ["2020-13", "x", ""]);
literal_type!(t_integer, "Integer", Integer, ["12", "-345", "+99999999999999999999999"], ["1.5", "x", ""]);
literal_type!(t_negative, "NegativeInteger", NegativeInteger, ["-12", "-345", "-99999999999999999999999"], ["1", "0", ""]);
literal_type!(t_nonnegative, "NonNegativeInteger", NonNegativeInteger, ["12", "0", "+99999999999999999999999"], ["-1", "x", ""]);
literal_type!(t_nonpositive, "NonPositiveInteger", NonPositiveInteger, ["-12", "0", "-99999999999999999999999"], ["1", "x", ""]);
literal_type!(t_positive, "PositiveInteger", PositiveInteger, ["12", "1", "+99999999999999999999999"], ["0", "x", ""]);
literal_type!(t_time, "Time", Time, ["10:11:12", "23:59:59.5Z", "00:00:00-05:30"], ["25:00:00", "10:11", ""]);
literal_type!(t_wstring, "wrapper of string", WString, ["plain", "two words", "\u{e9}\u{4e2d}\u{1f600}"], []);
literal_type!(t_wempty, "wrapper of string (empty or named like an element)", WString, ["", "one", "many"], []);
literal_type!(t_wi32, "wrapper of i32", WI32, ["12", "-345", "+7"], ["1.5", "2147483648", ""]);
literal_type!(t_wu8, "wrapper of u8", WU8, ["12", "255", "0"], ["-1", "256", ""]);
literal_type!(t_wbool, "wrapper of bool", WBool, ["true", "false", "1"], ["True", "2", ""]);
literal_type!(t_wf64, "wrapper of f64", WF64, ["1.5", "-7e3", "0"], ["x", "1,5", ""]);
literal_type!(t_wdate, "wrapper of Date", WDate, ["2020-02-29", "2021-01-01Z", "1999-12-31-05:30"], ["2021-02-29", "20-01-01", ""]);
literal_type!(t_wwi32, "wrapper of a wrapper of i32", WWI32, ["12", "-345", "7"], ["1.5", "x", ""]);
literal_type!(t_li32, "list of i32", LI32, ["1 2 3", "-345", ""], ["1 x", "1.5", "1,2"]);
literal_type!(t_lstring, "list of string", LString, ["a b c", "word", "\u{e9} \u{4e2d}\u{1f600}"], []);
literal_type!(t_linteger, "list of Integer", LInteger, ["1 2 3", "-345", "99999999999999999999999 1"], ["1 x", "1.5", "x y"]);
literal_type!(t_lwi32, "list of a wrapper of i32", LWI32, ["1 2 3", "-345", "5 5"], ["1 x", "1.5", "x y"]);
union_type!(t_uint, "union of int and string", UIntString, ["12", "some text", "-5"]);
union_type!(t_udate, "union of Date, Decimal and bool", UDateDecimal, ["2020-02-29Z", "1.25", "true"]);
union_type!(t_ulist, "union of a list of int and string", UListInt, ["1 2 3", "a b", "7"]);
union_type!(t_ubytes, "union of u8, wrapped i32 and wrapped Date", UBytes, ["255", "256", "2020-01-01"]);

union!(UNumbers { Byte(u8), Truth(bool), Int(WI32) });
union!(ULists { Ints(LI32), Date(Date) });
union_type!(t_unumbers, "union of numbers (with texts of no member)", UNumbers, ["300", "no number", "1", "true", "", "1.5"]);
union_type!(t_ulists, "union of lists (with texts of no member)", ULists, ["1 2", "1 x", "2020-02-30", "2020-02-29"]);
pub fn unknowns() -> Vec<Ops> {
    vec![t_unumbers::ops(), t_ulists::ops()]
}

pub fn all() -> Vec<Ops> {
    vec![
        t_date::ops(), t_datetime::ops(), t_stamp::ops(), t_decimal::ops(), t_duration::ops(), t_gday::ops(), t_gmonth::ops(),
        t_gmonthday::ops(), t_gyear::ops(), t_gyearmonth::ops(), t_integer::ops(), t_negative::ops(), t_nonnegative::ops(),
        t_nonpositive::ops(), t_positive::ops(), t_time::ops(), t_wstring::ops(), t_wempty::ops(), t_wi32::ops(), t_wu8::ops(),
        t_wbool::ops(), t_wf64::ops(), t_wdate::ops(), t_wwi32::ops(), t_li32::ops(), t_lstring::ops(), t_linteger::ops(),
        t_lwi32::ops(), t_uint::ops(), t_udate::ops(), t_ulist::ops(), t_ubytes::ops(),
    ]
}
/// The unions among them.
pub fn unions() -> Vec<Ops> {
    vec![t_uint::ops(), t_udate::ops(), t_ulist::ops(), t_ubytes::ops()]
}

/// Element and attribute names of every kind, in schemas' spellings.
pub const NAMES: [&str; 22] = ["a__b", "__n", "_", "c.d", "e-f", "g--h", "Zé中", "Ünïcode", "It", "value", "text", "xmlish", "holder2", "Self", "type", "A1", "a1b2", "_x_", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "b·e", "Element", "String"];

pub struct Named {
    pub name: &'static str,
    pub prefix: &'static str,
    pub read: fn(&str) -> Result<(Vec<String>, Vec<String>), String>,
    pub write: fn(&[String]) -> Result<String, String>,
    pub print: fn(&str) -> String,
    pub show: fn(&str) -> String,
    pub valid: &'static [&'static str],
}
macro_rules! named {
    ($m:ident, $name:literal, $prefix:literal, $v:ty, $from:expr, $print:expr, [$($root:tt)*], [$($el:tt)*], $valid:expr) => {
        pub mod $m {
            use super::*;
            use yaserde_derive::{YaDeserialize, YaSerialize};
            pub type V = $v;
            #[derive(Default, PartialEq, Debug, YaSerialize, YaDeserialize)]
            #[yaserde($($root)* rename = "holder")]
            pub struct Holder {
                #[yaserde($($el)* rename = "a__b")]
                pub f0: V,
                #[yaserde($($el)* rename = "__n")]
                pub f1: V,
                #[yaserde($($el)* rename = "_")]
                pub f2: V,
                #[yaserde($($el)* rename = "c.d")]
                pub f3: V,
                #[yaserde($($el)* rename = "e-f")]
                pub f4: V,
                #[yaserde($($el)* rename = "g--h")]
                pub f5: V,
                #[yaserde($($el)* rename = "Zé中")]
                pub f6: V,
                #[yaserde($($el)* rename = "Ünïcode")]
                pub f7: V,
                #[yaserde($($el)* rename = "It")]
                pub f8: V,
                #[yaserde($($el)* rename = "value")]
                pub f9: V,
                #[yaserde($($el)* rename = "text")]
                pub f10: V,
                #[yaserde($($el)* rename = "xmlish")]
                pub f11: V,
                #[yaserde($($el)* rename = "holder2")]
                pub f12: V,
                #[yaserde($($el)* rename = "Self")]
                pub f13: V,
                #[yaserde($($el)* rename = "type")]
                pub f14: V,
                #[yaserde($($el)* rename = "A1")]
                pub f15: V,
                #[yaserde($($el)* rename = "a1b2")]
                pub f16: V,
                #[yaserde($($el)* rename = "_x_")]
                pub f17: V,
                #[yaserde($($el)* rename = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")]
                pub f18: V,
                #[yaserde($($el)* rename = "b·e")]
                pub f19: V,
                #[yaserde($($el)* rename = "Element")]
                pub f20: V,
                #[yaserde($($el)* rename = "String")]
                pub f21: V,
                #[yaserde(attribute, rename = "k__l")]
                pub a0: V,
                #[yaserde(attribute, rename = "_k")]
                pub a1: V,
                #[yaserde(attribute, rename = "k.b-c")]
                pub a2: V,
                #[yaserde(attribute, rename = "Ké中")]
                pub a3: V,
            }
            pub fn named() -> Named {
                Named {
                    name: $name,
                    prefix: $prefix,
                    read: |x| {
                        let h: Holder = yaserde::de::from_str(x)?;
                        let d = |v: &V| format!("{:?}", v);
                        Ok((vec![d(&h.f0), d(&h.f1), d(&h.f2), d(&h.f3), d(&h.f4), d(&h.f5), d(&h.f6), d(&h.f7), d(&h.f8), d(&h.f9), d(&h.f10), d(&h.f11), d(&h.f12), d(&h.f13), d(&h.f14), d(&h.f15), d(&h.f16), d(&h.f17), d(&h.f18), d(&h.f19), d(&h.f20), d(&h.f21), ], vec![d(&h.a0), d(&h.a1), d(&h.a2), d(&h.a3)]))
                    },
                    write: |l| {
                        let f: fn(&str) -> Option<V> = $from;
                        let v = |i: usize| f(&l[i % l.len()]).expect("valid literal");
                        yaserde::ser::to_string(&Holder { f0: v(0), f1: v(1), f2: v(2), f3: v(3), f4: v(4), f5: v(5), f6: v(6), f7: v(7), f8: v(8), f9: v(9), f10: v(10), f11: v(11), f12: v(12), f13: v(13), f14: v(14), f15: v(15), f16: v(16), f17: v(17), f18: v(18), f19: v(19), f20: v(20), f21: v(21), a0: v(0), a1: v(1), a2: v(2), a3: v(3) })
                    },
                    print: |s| {
                        let f: fn(&str) -> Option<V> = $from;
                        let p: fn(&V) -> String = $print;
                        p(&f(s).unwrap())
                    },
                    show: |s| {
                        let f: fn(&str) -> Option<V> = $from;
                        format!("{:?}", f(s).unwrap())
                    },
                    valid: &$valid,
                }
            }
        }
    };
}
macro_rules! named_literal {
    ($m:ident, $n:ident, $k:ident, $name:literal, $v:ty, $valid:expr) => {
        named!($m, $name, "p", $v, |s| <$v as FromStr>::from_str(s).ok(), |v| v.to_string(), [prefix = "p", namespace = "p: urn:p",], [prefix = "p",], $valid);
        named!($n, $name, "", $v, |s| <$v as FromStr>::from_str(s).ok(), |v| v.to_string(), [], [], $valid);
        named!($k, $name, "p__q.r-1", $v, |s| <$v as FromStr>::from_str(s).ok(), |v| v.to_string(), [prefix = "p__q.r-1", namespace = "p__q.r-1: urn:p",], [prefix = "p__q.r-1",], $valid);
    };
}
named_literal!(n_date, n_date_plain, n_date_odd, "Date", Date, ["2020-02-29", "2021-01-01Z", "1999-12-31-05:30"]);
named_literal!(n_string, n_string_plain, n_string_odd, "wrapper of string", WString, ["one", "a__b", "two words"]);
named_literal!(n_list, n_list_plain, n_list_odd, "list of i32", LI32, ["1 2 3", "-345", ""]);
named_literal!(n_decimal, n_decimal_plain, n_decimal_odd, "Decimal", Decimal, ["1.50", "-7", "+0.125"]);
named!(n_union, "union of int and string", "p", UIntString, |s| UIntString::meaning(s), |v| v.text(), [prefix = "p", namespace = "p: urn:p",], [prefix = "p",], ["12", "some text", "-5"]);
named!(n_union_plain, "union of int and string", "", UIntString, |s| UIntString::meaning(s), |v| v.text(), [], [], ["12", "some text", "-5"]);
pub fn named() -> Vec<Named> {
    vec![
        n_date::named(), n_date_plain::named(), n_date_odd::named(), n_string::named(), n_string_plain::named(), n_string_odd::named(),
        n_list::named(), n_list_plain::named(), n_list_odd::named(), n_decimal::named(), n_decimal_plain::named(), n_decimal_odd::named(),
        n_union::named(), n_union_plain::named(),
    ]
}
