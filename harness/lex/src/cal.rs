use crate::mc::*;
use crate::*;
use chrono::{Datelike, FixedOffset, NaiveDate, NaiveTime, Timelike};
use std::str::FromStr;
use xsd_types::types::*;

// ---------------------------------------------------------------- reference model

/// "" -> no timezone; "Z", "+hh:mm", "-hh:mm" up to 14:00 -> seconds east of UTC.
fn tz(b: &[u8]) -> Option<Option<i32>> {
    match b {
        [] => Some(None),
        [b'Z'] => Some(Some(0)),
        [s @ (b'+' | b'-'), h1, h2, b':', m1, m2] => {
            let h = two(*h1, *h2)?;
            let m = two(*m1, *m2)?;
            if m > 59 || h > 14 || (h == 14 && m > 0) {
                return None;
            }
            let o = (h * 60 + m) as i32 * 60;
            Some(Some(if *s == b'-' { -o } else { o }))
        }
        _ => None,
    }
}
fn dig(c: u8) -> Option<u32> {
    (c >= b'0' && c <= b'9').then(|| (c - b'0') as u32)
}
fn two(a: u8, b: u8) -> Option<u32> {
    Some(dig(a)? * 10 + dig(b)?)
}
fn z(t: Option<i32>) -> String {
    match t {
        None => "no tz".into(),
        Some(s) => format!("tz{:+}s", s),
    }
}
fn zo(t: Option<FixedOffset>) -> String {
    z(t.map(|o| o.local_minus_utc()))
}
fn or_rej(v: Option<String>) -> V {
    v.map(V::Acc).unwrap_or(V::Rej)
}
fn leap(y: i64) -> bool {
    (y.rem_euclid(4) == 0 && y.rem_euclid(100) != 0) || y.rem_euclid(400) == 0
}
fn dim(y: i64, m: u32) -> u32 {
    match m {
        2 => 28 + leap(y) as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn gday_spec(s: &str) -> V {
    or_rej((|| match s.as_bytes() {
        [b'-', b'-', b'-', a, b, r @ ..] => {
            let d = two(*a, *b)?;
            let t = tz(r)?;
            (1..=31).contains(&d).then(|| format!("day {} {}", d, z(t)))
        }
        _ => None,
    })())
}
fn gmonth_spec(s: &str) -> V {
    or_rej((|| match s.as_bytes() {
        [b'-', b'-', a, b, r @ ..] => {
            let m = two(*a, *b)?;
            let t = tz(r)?;
            (1..=12).contains(&m).then(|| format!("month {} {}", m, z(t)))
        }
        _ => None,
    })())
}
fn gmonthday_spec(s: &str) -> V {
    or_rej((|| match s.as_bytes() {
        [b'-', b'-', a, b, b'-', c, d, r @ ..] => {
            let m = two(*a, *b)?;
            let dd = two(*c, *d)?;
            let t = tz(r)?;
            ((1..=12).contains(&m) && dd >= 1 && dd <= dim(4, m)).then(|| format!("month {} day {} {}", m, dd, z(t)))
        }
        _ => None,
    })())
}

/// leading year: (negative, digits, rest)
fn year(b: &[u8]) -> Option<(bool, &[u8], &[u8])> {
    let (neg, b) = if b.first() == Some(&b'-') { (true, &b[1..]) } else { (false, b) };
    let n = b.iter().take_while(|c| c.is_ascii_digit()).count();
    if n < 4 {
        return None;
    }
    Some((neg, &b[..n], &b[n..]))
}
enum Y {
    Val(i64),
    Zero,
    /// more than four digits with a leading zero: legal in some editions only
    Padded,
    TooBig,
}
fn yval(neg: bool, d: &[u8]) -> Y {
    if d.iter().all(|&c| c == b'0') {
        return Y::Zero;
    }
    if d.len() > 4 && d[0] == b'0' {
        return Y::Padded;
    }
    if d.len() > 15 {
        return Y::TooBig;
    }
    let mut v = 0i64;
    for &c in d {
        v = v * 10 + (c - b'0') as i64;
    }
    Y::Val(if neg { -v } else { v })
}
fn g_years(s: &str, with_month: bool) -> V {
    let Some((neg, d, r)) = year(s.as_bytes()) else { return V::Rej };
    let (m, r) = if with_month {
        match r {
            [b'-', a, b, r @ ..] => match two(*a, *b) {
                Some(m) if (1..=12).contains(&m) => (Some(m), r),
                _ => return V::Rej,
            },
            _ => return V::Rej,
        }
    } else {
        (None, r)
    };
    let Some(t) = tz(r) else { return V::Rej };
    match yval(neg, d) {
        Y::Zero => V::Rej,
        Y::Padded => V::Free,
        Y::TooBig => V::Rej,
        Y::Val(y) if y > i32::MAX as i64 || y < i32::MIN as i64 => V::Rej,
        Y::Val(y) => V::Acc(match m {
            Some(m) => format!("year {} month {} {}", y, m, z(t)),
            None => format!("year {} {}", y, z(t)),
        }),
    }
}
/// date part: (year, month, day, rest); Err(V) for a final verdict
fn date_part(b: &[u8]) -> Result<(i64, u32, u32, &[u8]), V> {
    let Some((neg, d, r)) = year(b) else { return Err(V::Rej) };
    let [b'-', a, b, b'-', c, e, r @ ..] = r else { return Err(V::Rej) };
    let (Some(m), Some(dd)) = (two(*a, *b), two(*c, *e)) else { return Err(V::Rej) };
    if !(1..=12).contains(&m) || dd < 1 || dd > 31 {
        return Err(V::Rej);
    }
    match yval(neg, d) {
        Y::Zero => {
            // year 0000 exists in XSD 1.1 only
            Err(if dd <= dim(0, m) { V::Free } else { V::Rej })
        }
        Y::Padded => Err(V::Free),
        Y::TooBig => Err(V::Rej),
        Y::Val(y) => {
            if dd > dim(y, m) {
                Err(if neg { V::Free } else { V::Rej })
            } else if neg && m == 2 && dd == 29 {
                Ok((y, m, dd, r))
            } else {
                Ok((y, m, dd, r))
            }
        }
    }
}
fn date_spec(s: &str) -> V {
    let (y, m, d, r) = match date_part(s.as_bytes()) {
        Ok(x) => x,
        Err(V::Free) => {
            // open only if the rest is a legal timezone
            return if rest_after_date(s).map(|r| tz(r.as_bytes()).is_some()).unwrap_or(false) { V::Free } else { V::Rej };
        }
        Err(v) => return v,
    };
    let Some(t) = tz(r) else { return V::Rej };
    if y.abs() > 262_142 {
        // outside (or at the edge of) the calendar the value type can hold
        return V::Free;
    }
    V::Acc(format!("date {} {} {} {}", y, m, d, z(t)))
}
fn rest_after_date(s: &str) -> Option<&str> {
    let (_, _, r) = year(s.as_bytes())?;
    let r = &s[s.len() - r.len()..];
    r.get(6..)
}
/// hh:mm:ss[.f+] -> (h, m, s, nanos, rest)
fn time_part(b: &[u8]) -> Result<(u32, u32, u32, u32, &[u8]), V> {
    let [a, b1, b':', c, d, b':', e, f, r @ ..] = b else { return Err(V::Rej) };
    let (Some(h), Some(m), Some(s)) = (two(*a, *b1), two(*c, *d), two(*e, *f)) else { return Err(V::Rej) };
    let mut r = r;
    let mut nanos = 0u32;
    let mut beyond = false;
    if r.first() == Some(&b'.') {
        let n = r[1..].iter().take_while(|c| c.is_ascii_digit()).count();
        if n == 0 {
            return Err(V::Rej);
        }
        for i in 0..9 {
            nanos = nanos * 10 + if i < n { (r[1 + i] - b'0') as u32 } else { 0 };
        }
        beyond = n > 9 && r[10..1 + n].iter().any(|&c| c != b'0');
        r = &r[1 + n..];
    }
    if m > 59 {
        return Err(V::Rej);
    }
    if h == 24 && m == 0 && s == 0 && nanos == 0 && !beyond {
        return Err(V::Free); // end-of-day form
    }
    if s == 60 && h <= 23 {
        return Err(V::Free); // leap second: ISO 8601 yes, XSD no
    }
    if h > 23 || s > 59 {
        return Err(V::Rej);
    }
    if beyond {
        return Err(V::Free);
    }
    Ok((h, m, s, nanos, r))
}
fn time_rest(s: &[u8]) -> &[u8] {
    let mut r = s.get(8..).unwrap_or(&[]);
    if r.first() == Some(&b'.') {
        let n = r[1..].iter().take_while(|c| c.is_ascii_digit()).count();
        r = &r[1 + n..];
    }
    r
}
fn time_spec(s: &str) -> V {
    match time_part(s.as_bytes()) {
        Ok((h, m, sec, n, r)) => match tz(r) {
            Some(t) => V::Acc(format!("time {}:{}:{}.{:09} {}", h, m, sec, n, z(t))),
            None => V::Rej,
        },
        Err(V::Free) => {
            if tz(time_rest(s.as_bytes())).is_some() {
                V::Free
            } else {
                V::Rej
            }
        }
        Err(v) => v,
    }
}
fn datetime_any(s: &str, need_tz: bool) -> V {
    let (date, free) = match date_part(s.as_bytes()) {
        Ok(x) => (Some(x), false),
        Err(V::Free) => (None, true),
        Err(v) => return v,
    };
    let r: &[u8] = match date {
        Some(x) => x.3,
        None => match rest_after_date(s) {
            Some(r) => r.as_bytes(),
            None => return V::Rej,
        },
    };
    let [b'T', r @ ..] = r else { return V::Rej };
    let (tm, rest) = match time_part(r) {
        Ok(x) => (Some(x), x.4),
        Err(V::Free) => (None, time_rest(r)),
        Err(v) => return v,
    };
    let Some(t) = tz(rest) else { return V::Rej };
    if need_tz && t.is_none() {
        return V::Rej;
    }
    if free || tm.is_none() {
        return V::Free;
    }
    let (y, m, d, _) = date.unwrap();
    if !(1..=9999).contains(&y) {
        return V::Free;
    }
    let (h, mi, sec, n, _) = tm.unwrap();
    let off = t.unwrap_or(0);
    V::Acc(format!("{}-{}-{} {}:{}:{}.{:09} off {}", y, m, d, h, mi, sec, n, off))
}
fn datetime_spec(s: &str) -> V {
    datetime_any(s, false)
}
fn stamp_spec(s: &str) -> V {
    datetime_any(s, true)
}

// ---------------------------------------------------------------- implementation adapters

macro_rules! ty {
    ($n:expr, $t:ty, $val:expr, $spec:expr) => {
        Ty {
            name: $n,
            spec: $spec,
            run: |s| {
                let v = <$t>::from_str(s).map_err(|e| e.to_string())?;
                let val: fn(&$t) -> String = $val;
                let disp = v.to_string();
                let back = <$t>::from_str(&disp).map(|w| (val(&w), w == v)).map_err(|e| e.to_string());
                Ok(R { val: val(&v), disp, back })
            },
        }
    };
}
fn nd(d: &NaiveDate) -> String {
    format!("date {} {} {}", d.year(), d.month(), d.day())
}
fn nt(t: &NaiveTime) -> String {
    format!("time {}:{}:{}.{:09}", t.hour(), t.minute(), t.second(), t.nanosecond())
}
fn dt(v: &chrono::DateTime<FixedOffset>) -> String {
    let l = v.naive_local();
    format!(
        "{}-{}-{} {}:{}:{}.{:09} off {}",
        l.year(),
        l.month(),
        l.day(),
        l.hour(),
        l.minute(),
        l.second(),
        l.nanosecond(),
        v.offset().local_minus_utc()
    )
}
fn t_gday() -> Ty {
    ty!("gDay", GDay, |v| format!("day {} {}", v.value, zo(v.timezone)), gday_spec)
}
fn t_gmonth() -> Ty {
    ty!("gMonth", GMonth, |v| format!("month {} {}", v.value, zo(v.timezone)), gmonth_spec)
}
fn t_gmonthday() -> Ty {
    ty!("gMonthDay", GMonthDay, |v| format!("month {} day {} {}", v.month, v.day, zo(v.timezone)), gmonthday_spec)
}
fn t_gyear() -> Ty {
    ty!("gYear", GYear, |v| format!("year {} {}", v.value, zo(v.timezone)), |s| g_years(s, false))
}
fn t_gyearmonth() -> Ty {
    ty!("gYearMonth", GYearMonth, |v| format!("year {} month {} {}", v.year, v.month, zo(v.timezone)), |s| g_years(s, true))
}
fn t_date() -> Ty {
    ty!("date", Date, |v| format!("{} {}", nd(&v.value), zo(v.timezone)), date_spec)
}
fn t_time() -> Ty {
    ty!("time", Time, |v| format!("{} {}", nt(&v.value), zo(v.timezone)), time_spec)
}
fn t_datetime() -> Ty {
    ty!("dateTime", DateTime, |v| dt(&v.value), datetime_spec)
}
fn t_stamp() -> Ty {
    ty!("dateTimeStamp", DateTimeStamp, |v| dt(&v.to_chrono_datetime()), stamp_spec)
}

/// Every legal timezone text (1683 of them) and none.
fn all_tz() -> Vec<String> {
    let mut v = strs(&["", "Z"]);
    for sgn in ["+", "-"] {
        for m in 0..=(14 * 60) {
            v.push(format!("{}{:02}:{:02}", sgn, m / 60, m % 60));
        }
    }
    v
}
/// One of each kind of timezone text, legal and not.
fn some_tz() -> Vec<String> {
    strs(&["", "Z", "+00:00", "-00:00", "+00:01", "-00:01", "-00:30", "+05:30", "-05:30", "+09:59", "+10:00", "-12:00", "+13:59", "-13:59", "+14:00", "-14:00", "+14:01", "-14:59", "+15:00", "+24:00", "z", "+0500", "+5:00", "+05:60", "ZZ", "+05:00Z", "Z+05:00", "+05:00:00", "GMT", "+-05:00", "--05:00", "+1400"])
}
fn few_tz() -> Vec<String> {
    strs(&["", "Z", "+05:30", "-00:30", "+14:00", "-14:00"])
}

const CAL: &str = "-+:Z0129. Té";

fn offs() -> Vec<Option<FixedOffset>> {
    let mut v = vec![None];
    for m in [0, 1, -1, 30, -30, 330, -330, 840, -840] {
        v.push(FixedOffset::east_opt(m * 60));
    }
    v
}

pub fn recurring(ctx: &Ctx) {
    let (gd, gm, gmd) = (t_gday(), t_gmonth(), t_gmonthday());
    let k = if ctx.thorough() { 3 } else { 2 };
    let n = if ctx.thorough() { 7 } else { 6 };
    for t in [&gd, &gm, &gmd] {
        short_strings(ctx, t, CAL, n);
    }
    product(ctx, &gd, "every day 00-99 x every legal timezone", &[strs(&["---"]), nums(0..=99, 2), all_tz()]);
    product(ctx, &gm, "every month 00-99 x every legal timezone", &[strs(&["--"]), nums(0..=99, 2), all_tz()]);
    product(ctx, &gmd, "every month-day x timezone forms", &[strs(&["--"]), nums(0..=99, 2), strs(&["-"]), nums(0..=99, 2), some_tz()]);
    product(ctx, &gmd, "month ends x every legal timezone", &[strs(&["--"]), strs(&["01", "02", "04", "12"]), strs(&["-"]), strs(&["01", "28", "29", "30", "31"]), all_tz()]);
    let pre = ["", "-", "--", "---", "----", "+", " "];
    let tails = some_tz();
    for t in [&gd, &gm, &gmd] {
        product(ctx, t, "prefix forms x bodies x timezone forms", &[strs(&pre), strs(&["", "1", "01", "001", "12", "31", "1a", "-1", "+1", "\u{661}2", "é", "aé"]), strs(&["", "-", "--", ":"]), strs(&["", "5", "05", "29", "30", "e9", "é"]), tails.clone()]);
    }
    edits(ctx, &gd, "literals", &strs(&["---31", "---01Z", "---31+05:30", "---15-14:00"]), CAL, k);
    edits(ctx, &gm, "literals", &strs(&["--12", "--01Z", "--12+05:30", "--10-14:00"]), CAL, k);
    edits(ctx, &gmd, "literals", &strs(&["--02-29", "--12-31Z", "--11-30+05:30", "--01-01-14:00"]), CAL, k);
    characters(ctx, &gd, &["---30Z"]);
    characters(ctx, &gm, &["--10Z"]);
    characters(ctx, &gmd, &["--02-29Z"]);
    lengths(ctx, &gd, &["---\u{1}", "---\u{1}Z", "---01+\u{1}:00", "---01-05:\u{1}"], "_ .,+-:TZe\u{a0}\u{663}\u{0}");
    lengths(ctx, &gm, &["--\u{1}", "--\u{1}Z", "--01+\u{1}:00", "--01-05:\u{1}"], "_ .,+-:TZe\u{a0}\u{663}\u{0}");
    lengths(ctx, &gmd, &["--\u{1}-01", "--01-\u{1}", "--01-01+\u{1}:00", "--01-01-05:\u{1}"], "_ .,+-:TZe\u{a0}\u{663}\u{0}");
    // constructors and accessors
    let o = offs();
    ctx.bound("constructors: month -3..=40, day -3..=40, and i32 extremes, x 10 offsets");
    let ints: Vec<i32> = (-3..=40).chain([i32::MIN, i32::MAX, 100, 256 + 1]).collect();
    ctx.explore(
        "constructors of recurring dates",
        0,
        |c| Some((*c.pick(&ints), *c.pick(&ints), c.choose(o.len()))),
        |p| hash64(p),
        |p| format!("{:?}", p),
        |&(m, d, oi)| {
            let off = o[oi];
            let inp = format!("new(month {}, day {}, {})", m, d, zo(off));
            let mok = (1..=12).contains(&m);
            let dok = (1..=31).contains(&d);
            let mdok = mok && d >= 1 && d <= dim(4, m as u32) as i32;
            let g = (GDay::new(d, off), GMonth::new(m, off), GMonthDay::new(m, d, off));
            if g.0.is_ok() != dok || g.1.is_ok() != mok || g.2.is_ok() != mdok {
                return Err(viol("constructor:range", inp, format!("day {} month {} monthday {}", dok, mok, mdok), format!("{:?}", g)));
            }
            if let Ok(x) = &g.0 {
                if x.value != d || x.timezone != off || GDay::from_str(&x.to_string()).as_ref() != Ok(x) {
                    return Err(viol("constructor:value", inp, "same value back", format!("{:?} {}", x, x)));
                }
            }
            if let Ok(x) = &g.1 {
                if x.value != m || x.timezone != off || GMonth::from_str(&x.to_string()).as_ref() != Ok(x) {
                    return Err(viol("constructor:value", inp, "same value back", format!("{:?} {}", x, x)));
                }
            }
            if let Ok(x) = &g.2 {
                let (a, b) = (x.clone().gmonth(), x.clone().gday());
                if x.month != m || x.day != d || x.timezone != off || GMonthDay::from_str(&x.to_string()).as_ref() != Ok(x) || Ok(&a) != g.1.as_ref() || Ok(&b) != g.0.as_ref() {
                    return Err(viol("constructor:value", inp, "same fields back", format!("{:?} {:?} {:?}", x, a, b)));
                }
            }
            ok(3, if mdok { "constructed" } else { "refused by constructor" })
        },
    );
    for (t, s) in [(&gd, GDay::default().to_string()), (&gm, GMonth::default().to_string()), (&gmd, GMonthDay::default().to_string())] {
        if !matches!((t.spec)(&s), V::Acc(_)) {
            ctx.report(viol("default", t.name, "a valid literal", s));
        }
    }
}

fn year_forms() -> Vec<String> {
    let mut v = vec![];
    for sgn in ["", "-", "+", "--"] {
        for d in [
            "0", "1", "9", "00", "99", "000", "001", "044", "999", "0000", "0001", "0009", "0044", "0999", "1000", "1999", "2000", "2024", "9999", "00000", "00001", "02020", "10000", "12020", "99999", "262142", "262143", "300000", "999999", "2147483646", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297",
            "9999999999", "18446744073709551616", "18446744073709551617", "99999999999999999999999",
        ] {
            v.push(format!("{}{}", sgn, d));
        }
    }
    v
}

pub fn years(ctx: &Ctx) {
    let (gy, gym) = (t_gyear(), t_gyearmonth());
    let k = if ctx.thorough() { 3 } else { 2 };
    let n = if ctx.thorough() { 7 } else { 6 };
    short_strings(ctx, &gy, "-+:Z0129. é", n);
    short_strings(ctx, &gym, "-+:Z0129. é", n);
    product(ctx, &gy, "year forms x every legal timezone", &[year_forms(), all_tz()]);
    product(ctx, &gy, "year forms x timezone forms", &[year_forms(), some_tz()]);
    product(ctx, &gy, "every year 0000-9999 with sign", &[strs(&["", "-"]), nums(0..=9999, 4), strs(&["", "-05:30"])]);
    product(ctx, &gym, "year forms x every month x timezone forms", &[year_forms(), strs(&["-"]), nums(0..=99, 2), some_tz()]);
    product(ctx, &gym, "years x months x every legal timezone", &[strs(&["2020", "-0044", "-12020", "12020"]), strs(&["-"]), strs(&["01", "04", "12"]), all_tz()]);
    product(ctx, &gym, "every year 0001-9999 with sign", &[strs(&["", "-"]), nums(1..=9999, 4), strs(&["-12", "-01Z", "-06-05:30"])]);
    product(ctx, &gym, "month forms", &[strs(&["2020", "-2020"]), strs(&["", "-", "--", "+", "/"]), strs(&["", "1", "01", "012", "13", "00", "1a", "-1", "é"]), some_tz()]);
    edits(ctx, &gy, "literals", &strs(&["2020", "-0044", "12020Z", "2147483647", "-2020-05:30", "2020+14:00"]), CAL, k);
    edits(ctx, &gym, "literals", &strs(&["2020-12", "-0044-01", "12020-10Z", "-2020-04-05:30", "2020-05+14:00"]), CAL, k);
    characters(ctx, &gy, &["-2020Z", "2020+05:30"]);
    characters(ctx, &gym, &["-2020-10Z", "2020-10+05:30"]);
    lengths(ctx, &gy, &["\u{1}", "-\u{1}", "\u{1}Z", "-\u{1}-05:30", "2020+\u{1}:00", "2020-05:\u{1}"], "_ .,+-:TZe\u{a0}\u{663}\u{0}");
    lengths(ctx, &gym, &["\u{1}-01", "-\u{1}-12", "\u{1}-01Z", "-2020-\u{1}", "2020-01+\u{1}:00", "2020-01-05:\u{1}"], "_ .,+-:TZe\u{a0}\u{663}\u{0}");
    let o = offs();
    let ys: Vec<i32> = vec![i32::MIN, i32::MIN + 1, -12020, -10000, -9999, -1000, -999, -1, 0, 1, 9, 10, 99, 100, 999, 1000, 2020, 9999, 10000, 12020, i32::MAX - 1, i32::MAX];
    let ms: Vec<i32> = (-2..=15).chain([i32::MIN, i32::MAX]).collect();
    ctx.bound(format!("constructors: {} years x {} months x {} offsets", ys.len(), ms.len(), o.len()));
    ctx.explore(
        "constructors of years",
        0,
        |c| Some((*c.pick(&ys), *c.pick(&ms), c.choose(o.len()))),
        |p| hash64(p),
        |p| format!("{:?}", p),
        |&(y, m, oi)| {
            let off = o[oi];
            let inp = format!("new(year {}, month {}, {})", y, m, zo(off));
            let yok = y != 0;
            let mok = yok && (1..=12).contains(&m);
            let a = GYear::new(y, off);
            let b = GYearMonth::new(y, m, off);
            if a.is_ok() != yok || b.is_ok() != mok {
                return Err(viol("constructor:range", inp, format!("{} {}", yok, mok), format!("{:?} {:?}", a, b)));
            }
            if let Ok(x) = &a {
                let s = guard(|| x.to_string()).map_err(|p| viol("gYear:panic", inp.clone(), "printed text", p))?;
                let want = format!("year {} {}", y, zo(off));
                if x.value != y || x.timezone != off || GYear::from_str(&s).as_ref() != Ok(x) || g_years(&s, false) != V::Acc(want) {
                    return Err(viol("gYear:value", inp, "same value back", format!("{:?} {}", x, s)));
                }
            }
            if let Ok(x) = &b {
                let s = guard(|| x.to_string()).map_err(|p| viol("gYearMonth:panic", inp.clone(), "printed text", p))?;
                let want = format!("year {} month {} {}", y, m, zo(off));
                let (p, q) = (x.clone().gyear(), x.clone().gmonth());
                if x.year != y || x.month != m || x.timezone != off || Ok(&p) != a.as_ref() || q.value != m || q.timezone != off || GYearMonth::from_str(&s).as_ref() != Ok(x) || g_years(&s, true) != V::Acc(want) {
                    return Err(viol("gYearMonth:value", inp, "same value back", format!("{:?} {} {:?} {:?}", x, s, p, q)));
                }
            }
            ok(2, if mok { "constructed" } else { "refused by constructor" })
        },
    );
    for (t, s) in [(&gy, GYear::default().to_string()), (&gym, GYearMonth::default().to_string())] {
        if !matches!((t.spec)(&s), V::Acc(_)) {
            ctx.report(viol("default", t.name, "a valid literal", s));
        }
    }
}

fn some_years() -> Vec<String> {
    strs(&["0001", "0004", "0100", "0400", "1582", "1600", "1700", "1900", "1999", "2000", "2023", "2024", "2100", "2400", "9999", "10000", "12020", "99999", "100000", "262142", "-0001", "-0004", "-0044", "-0100", "-0400", "-9999", "-10000", "-12020", "-262142"])
}

pub fn dates(ctx: &Ctx) {
    let t = t_date();
    let k = 2;
    short_strings(ctx, &t, "-+:Z0129 é", if ctx.thorough() { 7 } else { 6 });
    product(ctx, &t, "years x every month 00-13 x every day 00-32 x timezones", &[some_years(), strs(&["-"]), nums(0..=13, 2), strs(&["-"]), nums(0..=32, 2), few_tz()]);
    product(ctx, &t, "days x every legal timezone", &[strs(&["2020-02-29", "2021-12-31", "-0044-03-15", "12020-04-10"]), all_tz()]);
    product(ctx, &t, "year forms x month-days x timezone forms", &[year_forms(), strs(&["-02-29", "-12-31", "-04-31", "-00-10", "-10-00", "-13-01", "-1-01", "-01-1", "-001-01", "-01-001", "/01/01", "0101", "-01-01-01", "-+1-01", "- 1-01", "-01- 1"]), some_tz()]);
    product(ctx, &t, "every day of 28 years", &[(1..=28).map(|y| format!("{:04}", 1995 + y)).collect(), strs(&["-"]), nums(1..=12, 2), strs(&["-"]), nums(1..=31, 2)]);
    if ctx.thorough() {
        product(ctx, &t, "every month end of every year", &[strs(&["", "-"]), nums(1..=9999, 4), strs(&["-"]), nums(1..=12, 2), strs(&["-"]), nums(28..=31, 2), strs(&["", "-05:30"])]);
    } else {
        product(ctx, &t, "29 February of every year", &[strs(&["", "-"]), nums(1..=9999, 4), strs(&["-02-29", "-02-28-05:30", "-12-31Z"])]);
    }
    edits(ctx, &t, "literals", &strs(&["2020-02-29", "2004-04-12Z", "2004-10-31+05:30", "2004-12-01-05:00", "-0044-03-15", "-0044-03-15-05:00", "12020-02-29"]), "-+:Z0129. Té", k);
    characters(ctx, &t, &["-2020-02-29Z"]);
    lengths(ctx, &t, &["\u{1}-01-01", "-\u{1}-12-31", "\u{1}-01-01Z", "2020-\u{1}-01", "2020-01-\u{1}", "2020-01-01+\u{1}:00", "2020-01-01-05:\u{1}"], "_ .,+-:TZe\u{a0}\u{663}\u{0}");
    // values built from the calendar
    let o = offs();
    let y0 = -3000i32;
    let years: Vec<i32> = if ctx.thorough() { (-3000..=12000).collect() } else { (0..150).map(|i| y0 + i * 101).chain([-262142, -100000, -10000, -9999, -1, 1, 1900, 2000, 2024, 9999, 10000, 99999, 100000, 262141]).collect() };
    ctx.bound(format!("constructed dates: every 1st, 2nd, last day of month of {} years x {} offsets", years.len(), o.len()));
    ctx.explore(
        "constructed dates",
        0,
        |c| {
            let y = *c.pick(&years);
            let m = 1 + c.choose(12) as u32;
            let d = match c.choose(3) {
                0 => 1,
                1 => 9,
                _ => dim(y as i64, m),
            };
            Some((y, m, d, c.choose(o.len())))
        },
        |p| hash64(p),
        |p| format!("{:?}", p),
        |&(y, m, d, oi)| {
            let n = NaiveDate::from_ymd_opt(y, m, d).expect("calendar");
            let v = if o[oi].is_none() { Date::from_chrono_naive_date(n) } else { Date { value: n, timezone: o[oi] } };
            let s = v.to_string();
            let inp = format!("Date {}-{}-{} {}", y, m, d, zo(o[oi]));
            if y == 0 {
                return ok(1, "year zero");
            }
            let want = format!("date {} {} {} {}", y, m, d, zo(o[oi]));
            if date_spec(&s) != V::Acc(want.clone()) {
                return Err(viol("date:printed", inp, want, s));
            }
            match guard(|| Date::from_str(&s)) {
                Ok(Ok(w)) if w == v && w.to_chrono_naive_date() == n && w.timezone == o[oi] => ok(2, "constructed"),
                r => Err(viol("date:roundtrip", inp, want, format!("{:?} from {:?}", r, s))),
            }
        },
    );
    let s = Date::default().to_string();
    if !matches!(date_spec(&s), V::Acc(_)) {
        ctx.report(viol("default", "date", "a valid literal", s));
    }
}

fn fractions(max: usize) -> Vec<String> {
    let mut v = strs(&["", ".", ".0", ".00", ".000000000", ".5a", ",5", ".-5", ". 5"]);
    for n in 1..=max {
        for d in ["1", "5", "9"] {
            v.push(format!(".{}{}", "0".repeat(n - 1), d));
            v.push(format!(".{}", d.repeat(n)));
            v.push(format!(".{}{}", d, "0".repeat(n - 1)));
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn times(ctx: &Ctx) {
    let t = t_time();
    short_strings(ctx, &t, "-+:Z0129. é", if ctx.thorough() { 7 } else { 6 });
    product(ctx, &t, "every hh:mm:ss 00-99", &[nums(0..=99, 2), strs(&[":"]), nums(0..=99, 2), strs(&[":"]), nums(0..=99, 2)]);
    product(ctx, &t, "times x every legal timezone", &[strs(&["00:00:00", "23:59:59", "04:40:00.5", "12:00:00.000000001"]), all_tz()]);
    product(ctx, &t, "times x fractions x timezone forms", &[strs(&["00:00:00", "23:59:59", "12:34:56", "09:05:07", "24:00:00", "24:00:01", "23:59:60", "12:34", "1:2:3", "12:34:5", "12-34-56", "123456"]), fractions(10), some_tz()]);
    edits(ctx, &t, "literals", &strs(&["04:40:00", "23:59:59Z", "00:00:00+05:30", "12:34:56.789", "12:34:56-14:00", "01:02:03.000000001Z"]), "-+:Z0129. Té", 2);
    characters(ctx, &t, &["12:34:56.5Z"]);
    lengths(ctx, &t, &["\u{1}:01:01", "01:\u{1}:01", "01:01:\u{1}", "01:01:01.\u{1}", "23:59:59.\u{1}Z", "01:01:01.\u{1}-05:30", "01:01:01+\u{1}:00", "01:01:01-05:\u{1}"], "_ .,+-:TZe\u{a0}\u{663}\u{0}");
    let o = offs();
    let nanos: Vec<u32> = vec![0, 1, 10, 999, 1000, 1_000_000, 1_500_000, 100_000_000, 120_000_000, 123_456_789, 500_000_000, 999_999_999];
    let step = if ctx.thorough() { 1 } else { 61 };
    ctx.bound(format!("constructed times: every {}th second of the day x {} fractions x {} offsets", step, nanos.len(), o.len()));
    ctx.explore(
        "constructed times",
        0,
        |c| Some((c.choose(86400 / step) as u32 * step as u32, *c.pick(&nanos), c.choose(o.len()))),
        |p| hash64(p),
        |p| format!("{:?}", p),
        |&(sec, n, oi)| {
            let x = NaiveTime::from_num_seconds_from_midnight_opt(sec, n).unwrap();
            let v = if o[oi].is_none() { Time::from_chrono_naive_time(x) } else { Time { value: x, timezone: o[oi] } };
            let s = v.to_string();
            let inp = format!("Time {}s {}ns {}", sec, n, zo(o[oi]));
            let want = format!("time {}:{}:{}.{:09} {}", sec / 3600, sec / 60 % 60, sec % 60, n, zo(o[oi]));
            if time_spec(&s) != V::Acc(want.clone()) {
                return Err(viol("time:printed", inp, want, s));
            }
            match guard(|| Time::from_str(&s)) {
                Ok(Ok(w)) if w == v && w.to_chrono_naive_time() == x && w.timezone == o[oi] => ok(2, "constructed"),
                r => Err(viol("time:roundtrip", inp, want, format!("{:?} from {:?}", r, s))),
            }
        },
    );
    let s = Time::default().to_string();
    if !matches!(time_spec(&s), V::Acc(_)) {
        ctx.report(viol("default", "time", "a valid literal", s));
    }
}

pub fn datetimes(ctx: &Ctx) {
    let (a, b) = (t_datetime(), t_stamp());
    let tzs = few_tz();
    for t in [&a, &b] {
        short_strings(ctx, t, "-+:Z0129. Té", if ctx.thorough() { 6 } else { 5 });
        product(ctx, t, "years x every month x every day x timezones", &[strs(&["0001", "0004", "1582", "1900", "2000", "2023", "2024", "9999"]), strs(&["-"]), nums(0..=13, 2), strs(&["-"]), nums(0..=32, 2), strs(&["T00:00:00", "T23:59:59.5"]), tzs.clone()]);
        product(ctx, t, "every hour x minute x second boundaries x timezones", &[strs(&["2020-02-29T"]), nums(0..=25, 2), strs(&[":"]), strs(&["00", "01", "09", "30", "59", "60", "99"]), strs(&[":"]), strs(&["00", "01", "09", "30", "59", "60", "61", "99"]), fractions(4), tzs.clone()]);
        product(ctx, t, "instants x every legal timezone", &[strs(&["2020-01-01T00:00:00", "2020-12-31T23:59:59", "2020-02-29T12:00:00.25", "0001-01-01T00:00:00", "9999-12-31T23:59:59.999999999"]), all_tz()]);
        product(ctx, t, "instants x fractions x timezone forms", &[strs(&["2020-02-29T12:34:56", "1999-12-31T23:59:59", "2020-02-30T00:00:00", "2020-01-01T24:00:00"]), fractions(10), some_tz()]);
        product(ctx, t, "year forms", &[year_forms(), strs(&["-02-28T12:34:56", "-12-31T00:00:00"]), few_tz()]);
        product(ctx, t, "separators", &[strs(&["2020-02-29", "20200229", "2020-2-9", "2020-060", "2020-W09"]), strs(&["T", "t", " ", "", "_", "TT", "T ", " T"]), strs(&["12:34:56", "123456", "1:2:3", "12:34", "12", "", "12:34:56,5", "12:34:56."]), some_tz()]);
        edits(ctx, t, "literals", &strs(&["2020-02-29T12:34:56", "2004-04-12T13:20:00Z", "2004-04-12T13:20:15.5+05:30", "2004-04-12T13:20:00-05:00"]), "-+:Zz0129. Ttéa", if ctx.thorough() { 2 } else { 1 });
        characters(ctx, t, &["2020-02-29T12:34:56.5Z"]);
        lengths(ctx, t, &["\u{1}-01-01T01:01:01Z", "2020-\u{1}-01T01:01:01Z", "2020-01-\u{1}T01:01:01Z", "2020-01-01T\u{1}:01:01Z", "2020-01-01T01:\u{1}:01Z", "2020-01-01T01:01:\u{1}Z", "2020-01-01T01:01:01.\u{1}", "2020-01-01T23:59:59.\u{1}Z", "2020-01-01T01:01:01.\u{1}-05:30", "2020-01-01T01:01:01+\u{1}:00"], "_ .,+-:TZe\u{a0}\u{663}\u{0}");
        edits(ctx, t, "literals", &strs(&["2020-02-29T12:34:56-05:00"]), "-+:Z0139. Tt", 2);
    }
    // values built from chrono
    let mut o = vec![];
    for m in -840..=840 {
        if m % 60 == 0 || [1, -1, 30, -30, 839, -839, 330, -210].contains(&m) {
            o.push(m * 60)
        }
    }
    let nanos: Vec<u32> = vec![0, 1, 999, 1000, 1_000_000, 1_500_000, 100_000_000, 123_456_789, 500_000_000, 999_999_999];
    let days: Vec<(i32, u32, u32)> = vec![(1, 1, 2), (4, 2, 29), (1582, 10, 10), (1900, 3, 1), (1969, 12, 31), (1970, 1, 1), (2000, 2, 29), (2024, 12, 31), (9999, 12, 30)];
    let secs: Vec<u32> = vec![0, 1, 59, 60, 3599, 3600, 43200, 86399];
    ctx.bound(format!("constructed date-times: {} days x {} seconds x {} fractions x {} offsets", days.len(), secs.len(), nanos.len(), o.len()));
    ctx.explore(
        "constructed date-times",
        0,
        |c| Some((*c.pick(&days), *c.pick(&secs), *c.pick(&nanos), *c.pick(&o))),
        |p| hash64(p),
        |p| format!("{:?}", p),
        |&((y, m, d), s, n, off)| {
            let f = FixedOffset::east_opt(off).unwrap();
            let local = NaiveDate::from_ymd_opt(y, m, d).unwrap().and_time(NaiveTime::from_num_seconds_from_midnight_opt(s, n).unwrap());
            let cd = local.and_local_timezone(f).unwrap();
            let v = DateTime::from_chrono_datetime(cd);
            let w = DateTimeStamp::from_chrono_datetime(cd);
            let want = dt(&cd);
            let inp = format!("DateTime {}", want);
            for (name, text) in [("dateTime", v.to_string()), ("dateTimeStamp", w.to_string())] {
                if datetime_spec(&text) != V::Acc(want.clone()) || stamp_spec(&text) != V::Acc(want.clone()) {
                    return Err(viol(format!("{}:printed", name), inp, want, text));
                }
            }
            let r1 = DateTime::from_str(&v.to_string());
            let r2 = DateTimeStamp::from_str(&w.to_string());
            match (r1, r2) {
                (Ok(p), Ok(q)) if p == v && q == w && dt(&p.to_chrono_datetime()) == want && dt(&q.to_chrono_datetime()) == want && v.to_chrono_datetime() == cd => ok(4, "constructed"),
                r => Err(viol("dateTime:roundtrip", inp, want, format!("{:?}", r))),
            }
        },
    );
    for (n, s) in [("dateTime", DateTime::default().to_string()), ("dateTimeStamp", DateTimeStamp::default().to_string())] {
        if !matches!(stamp_spec(&s), V::Acc(_)) {
            ctx.report(viol("default", n, "a valid literal", s));
        }
    }
}

pub fn timezones(ctx: &Ctx) {
    let types: Vec<(Ty, Vec<String>)> = vec![
        (t_gday(), strs(&["---31", "---01"])),
        (t_gmonth(), strs(&["--12", "--01"])),
        (t_gmonthday(), strs(&["--12-31", "--02-29"])),
        (t_gyear(), strs(&["2020", "-0044", "12020", "-12020"])),
        (t_gyearmonth(), strs(&["2020-04", "-0044-12", "12020-01"])),
        (t_date(), strs(&["2020-02-29", "-0044-03-15", "12020-01-01"])),
        (t_time(), strs(&["12:34:56", "00:00:00.5"])),
        (t_datetime(), strs(&["2020-02-29T12:34:56", "2020-01-01T00:00:00.5", "2020-12-31T23:59:59"])),
        (t_stamp(), strs(&["2020-02-29T12:34:56", "2020-01-01T00:00:00.5", "2020-12-31T23:59:59"])),
    ];
    let n = if ctx.thorough() { 7 } else { 5 };
    for (t, bases) in &types {
        product(ctx, t, "bases x sign x 00-99 x 00-99", &[bases.clone(), strs(&["+", "-", "", " ", "\u{2212}"]), nums(0..=99, 2), strs(&[":"]), nums(0..=99, 2)]);
        let a: Vec<char> = "+-:Z012".chars().collect();
        ctx.bound(format!("{}: all suffixes over \"+-:Z012\" up to {} characters on {} bases", t.name, n, bases.len()));
        ctx.explore_str(
            &format!("{} suffixes", t.name),
            0,
            |c| {
                let mut s = c.pick(bases).clone();
                for _ in 0..n {
                    let k = c.choose(a.len() + 1);
                    if k == 0 {
                        break;
                    }
                    s.push(a[k - 1]);
                }
                Some(s)
            },
            |s| check(t, s),
        );
        let e: Vec<String> = bases.iter().take(1).flat_map(|b| ["Z", "+05:30", "-14:00"].iter().map(move |z| format!("{}{}", b, z))).collect();
        let one = format!("{}-05:30", bases[0]);
        characters_from(ctx, t, &[&one], bases[0].len());
        edits(ctx, t, "timezoned literals", &e, "-+:Zz0145 é", 1);
    }
    // the same offset in every type: same printed designator
    ctx.bound("every legal offset printed by all nine types");
    ctx.explore(
        "uniform printing",
        0,
        |c| Some(c.choose(2 * 840 + 1) as i32 - 840),
        |m| *m as u64,
        |m| format!("offset {} min", m),
        |&m| {
            let lit = format!("{}{:02}:{:02}", if m < 0 { "-" } else { "+" }, m.abs() / 60, m.abs() % 60);
            let mut seen: Vec<String> = vec![];
            for (t, bases) in &types {
                for b in bases {
                    let s = format!("{}{}", b, lit);
                    match guard(|| (t.run)(&s)) {
                        Ok(Ok(r)) => {
                            let base_end = r.disp.rfind(|c| c == '+' || c == '-' || c == 'Z').unwrap_or(0);
                            seen.push(r.disp[base_end..].to_string());
                        }
                        o => return Err(viol(format!("{}:refused", t.name), s, "accepted", format!("{:?}", o.map(|r| r.err())))),
                    }
                }
            }
            seen.sort();
            seen.dedup();
            if seen.len() != 1 {
                return Err(viol("uniform", format!("offset {}", lit), "one designator in all types", format!("{:?}", seen)));
            }
            ok(24, "uniform")
        },
    );
}
