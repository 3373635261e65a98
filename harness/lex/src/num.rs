use crate::mc::*;
use crate::*;
use bigdecimal::BigDecimal;
use num_bigint::{BigInt, BigUint, ToBigInt, ToBigUint};
use std::str::FromStr;
use xsd_types::types::*;

/// sign and canonical digits of an integer literal
fn int_lit(s: &str) -> Option<(bool, String)> {
    let b = s.as_bytes();
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() || !d.iter().all(|c| (b'0'..=b'9').contains(c)) {
        return None;
    }
    let mut i = 0;
    while i + 1 < d.len() && d[i] == b'0' {
        i += 1;
    }
    let digits: String = d[i..].iter().map(|&c| c as char).collect();
    let zero = digits == "0";
    Some((neg && !zero, digits))
}

fn int_spec(s: &str, ok: fn(neg: bool, zero: bool) -> bool) -> V {
    match int_lit(s) {
        Some((neg, d)) if ok(neg, d == "0") => V::Acc(if neg { format!("-{}", d) } else { d }),
        _ => V::Rej,
    }
}

// Value as decimal text, computed independently of the type's own Display.
fn mag(digits: &[u32]) -> String {
    // base 2^32 little endian -> decimal
    let mut v: Vec<u32> = digits.to_vec();
    while v.last() == Some(&0) {
        v.pop();
    }
    if v.is_empty() {
        return "0".into();
    }
    let mut out = vec![];
    while !v.is_empty() {
        let mut rem = 0u64;
        for x in v.iter_mut().rev() {
            let cur = (rem << 32) | *x as u64;
            *x = (cur / 1_000_000_000) as u32;
            rem = cur % 1_000_000_000;
        }
        while v.last() == Some(&0) {
            v.pop();
        }
        out.push(rem);
    }
    let mut s = format!("{}", out.pop().unwrap());
    for x in out.iter().rev() {
        s += &format!("{:09}", x);
    }
    s
}
fn bi(v: &BigInt) -> String {
    let (sign, d) = v.to_u32_digits();
    let m = mag(&d);
    if sign == num_bigint::Sign::Minus {
        format!("-{}", m)
    } else {
        m
    }
}
fn bu(v: &BigUint) -> String {
    mag(&v.to_u32_digits())
}

macro_rules! ty {
    ($n:expr, $t:ty, $val:expr, $spec:expr) => {
        Ty {
            name: $n,
            spec: $spec,
            run: |s| {
                let v = <$t>::from_str(s).map_err(|e| e.to_string())?;
                let val: fn(&$t) -> String = $val;
                let disp = v.to_string();
                let back = <$t>::from_str(&disp).map(|w| (val(&w), w == v)).map_err(|e| e.to_string());
                Ok(R { val: val(&v), disp, back })
            },
        }
    };
}

pub fn integers(ctx: &Ctx) {
    let tys = [
        ty!("integer", Integer, |v| bi(&v.0), |s| int_spec(s, |_, _| true)),
        ty!("nonNegativeInteger", NonNegativeInteger, |v| bu(&v.0), |s| int_spec(s, |n, _| !n)),
        ty!("positiveInteger", PositiveInteger, |v| bu(&v.0), |s| int_spec(s, |n, z| !n && !z)),
        ty!("nonPositiveInteger", NonPositiveInteger, |v| bi(&v.0), |s| int_spec(s, |n, z| n || z)),
        ty!("negativeInteger", NegativeInteger, |v| bi(&v.0), |s| int_spec(s, |n, _| n)),
    ];
    let max = if ctx.thorough() { 7 } else { 5 };
    let long: Vec<String> = strs(&[
        "7",
        "-7",
        "+18446744073709551616",
        "-18446744073709551615",
        "9223372036854775808",
        "-9223372036854775808",
        "000340282366920938463463374607431768211456",
        "-123456789012345678901234567890123456789012345678901234567890",
        "1000000000000000000000000000000000000000",
    ]);
    for t in &tys {
        short_strings(ctx, t, "019+-_. ea", max);
        edits(ctx, t, "boundary literals", &long, "059+-_. eEx\u{0663}\u{ff11}", if ctx.thorough() { 2 } else { 1 });
        characters(ctx, t, &["70", "-9"]);
        lengths(ctx, t, &["\u{1}", "-\u{1}", "+\u{1}"], "_ .,+-eEax:'\u{a0}\u{663}\u{0}");
        // canonical printing: exact text
        ctx.explore_str(
            &format!("{} canonical text", t.name),
            0,
            |c| {
                let sign = *c.pick(&["", "-", "+"]);
                let zeros = c.choose(4);
                let lead = *c.pick(&["", "1", "9", "18446744073709551615", "4294967296", "999999999"]);
                let mid = c.choose(41);
                let last = *c.pick(&["", "0", "1", "9"]);
                let s = format!("{}{}{}{}{}", sign, "0".repeat(zeros), lead, "0".repeat(mid), last);
                Some(s)
            },
            |s| {
                let o = check(t, s)?;
                if let V::Acc(v) = (t.spec)(s) {
                    let r = (t.run)(s).unwrap();
                    if r.disp != v {
                        return Err(viol(format!("{}:canonical", t.name), format!("{} {:?}", t.name, s), v, r.disp));
                    }
                }
                Ok(o)
            },
        );
    }
    // order, constructors, conversions, defaults over boundary values
    let mut pool: Vec<BigInt> = vec![];
    let mut p = BigInt::from(1);
    let top = if ctx.thorough() { 260 } else { 132 };
    for b in 0..top {
        if b % 8 == 0 || (b + 1) % 32 == 0 || b % 32 == 1 {
            for d in -1i32..=1 {
                pool.push(&p + d);
                pool.push(-(&p + d));
            }
        }
        p = p * 2;
    }
    pool.sort();
    pool.dedup();
    ctx.bound(format!("all ordered pairs of {} boundary values near powers of two up to 2^{}", pool.len(), top));
    ctx.explore(
        "integer order and conversions",
        0,
        |c| Some((c.choose(pool.len()), c.choose(pool.len()))),
        |p| hash64(p),
        |p| format!("({}, {})", pool[p.0], pool[p.1]),
        |&(i, j)| {
            let (a, b) = (&pool[i], &pool[j]);
            let inp = format!("({}, {})", a, b);
            let want = Some(i.cmp(&j));
            let zero = BigInt::from(0);
            let bad = |what: &str, got: String| viol(format!("{}:order", what), inp.clone(), format!("{:?}", want), got);
            let (x, y) = (Integer::from_bigint(a.clone()), Integer::from_bigint(b.clone()));
            if x.partial_cmp(&y) != want || (x == y) != (i == j) || x.to_bigint().as_ref() != Some(a) || x.to_string() != bi(a) {
                return Err(bad("integer", format!("{:?} {:?}", x.partial_cmp(&y), x.to_bigint())));
            }
            if *a >= zero && *b >= zero {
                let (u, w) = (a.to_biguint().unwrap(), b.to_biguint().unwrap());
                let (x, y) = (NonNegativeInteger::from_biguint(u.clone()), NonNegativeInteger::from_biguint(w.clone()));
                if x.partial_cmp(&y) != want || x.to_biguint().as_ref() != Some(&u) || x.to_string() != bu(&u) {
                    return Err(bad("nonNegativeInteger", format!("{:?}", x.partial_cmp(&y))));
                }
                if *a > zero && *b > zero {
                    let (x, y) = (PositiveInteger::from_biguint(u.clone()), PositiveInteger::from_biguint(w));
                    if x.partial_cmp(&y) != want || x.to_biguint().as_ref() != Some(&u) || x.to_string() != bu(&u) {
                        return Err(bad("positiveInteger", format!("{:?}", x.partial_cmp(&y))));
                    }
                }
            }
            if *a <= zero && *b <= zero {
                let (x, y) = (NonPositiveInteger::from_bigint(a.clone()), NonPositiveInteger::from_bigint(b.clone()));
                if x.partial_cmp(&y) != want || x.to_bigint().as_ref() != Some(a) || x.to_string() != bi(a) {
                    return Err(bad("nonPositiveInteger", format!("{:?}", x.partial_cmp(&y))));
                }
                if *a < zero && *b < zero {
                    let (x, y) = (NegativeInteger::from_bigint(a.clone()), NegativeInteger::from_bigint(b.clone()));
                    if x.partial_cmp(&y) != want || x.to_bigint().as_ref() != Some(a) || x.to_string() != bi(a) {
                        return Err(bad("negativeInteger", format!("{:?}", x.partial_cmp(&y))));
                    }
                }
            }
            ok(1, "ordered pair")
        },
    );
    ctx.explore(
        "integer defaults",
        0,
        |c| Some(c.choose(5)),
        |i| *i as u64,
        |i| format!("default of {}", tys[*i].name),
        |&i| {
            let d = match i {
                0 => bi(&Integer::default().0),
                1 => bu(&NonNegativeInteger::default().0),
                2 => bu(&PositiveInteger::default().0),
                3 => bi(&NonPositiveInteger::default().0),
                _ => bi(&NegativeInteger::default().0),
            };
            match (tys[i].spec)(&d) {
                V::Acc(_) => ok(1, "default in range"),
                _ => Err(viol(format!("{}:default", tys[i].name), format!("default of {}", tys[i].name), "a value of the type's range", d)),
            }
        },
    );
}

/// canonical (sign, digits, scale) of a decimal literal: value = ±digits × 10^-scale with no trailing zero digit
fn dec_lit(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    let mut digits = vec![];
    let mut scale: i64 = 0;
    let mut point = false;
    for &c in d {
        match c {
            b'0'..=b'9' => {
                digits.push(c);
                if point {
                    scale += 1;
                }
            }
            b'.' if !point => point = true,
            _ => return None,
        }
    }
    if digits.is_empty() {
        return None;
    }
    Some(canon(neg, digits, scale))
}
fn canon(neg: bool, mut digits: Vec<u8>, mut scale: i64) -> String {
    while digits.last() == Some(&b'0') {
        digits.pop();
        scale -= 1;
    }
    let k = digits.iter().take_while(|&&c| c == b'0').count();
    digits.drain(..k);
    if digits.is_empty() {
        return "0".into();
    }
    format!("{}{}e{}", if neg { "-" } else { "" }, String::from_utf8(digits).unwrap(), -scale)
}
fn dec_val(v: &BigDecimal) -> String {
    let (i, scale) = v.as_bigint_and_exponent();
    let t = bi(&i);
    let (neg, d) = match t.strip_prefix('-') {
        Some(d) => (true, d.to_string()),
        None => (false, t),
    };
    canon(neg, d.into_bytes(), scale)
}

pub fn decimals(ctx: &Ctx) {
    let t = ty!("decimal", Decimal, |v| dec_val(&v.0), |s| match dec_lit(s) {
        Some(v) => V::Acc(v),
        None => V::Rej,
    });
    short_strings(ctx, &t, "019+-._eE ", if ctx.thorough() { 8 } else { 6 });
    let seeds = strs(&[
        "3.14",
        "-0.000000000000000001",
        "+18446744073709551616.18446744073709551616",
        "-1234567890123456789012345678901234567890.0987654321",
        "0.0",
        "-.5",
        "12345.",
        "100000000000000000000",
        "00012.3400",
    ]);
    edits(ctx, &t, "boundary literals", &seeds, "059+-._eE,xnN\u{0663}\u{ff11}", if ctx.thorough() { 2 } else { 1 });
    edits(ctx, &t, "boundary literals", &seeds[..1], "059+-._eE,xnNIi", 2);
    product(
        ctx,
        &t,
        "sign, integer part, point, fraction",
        &[
            strs(&["", "-", "+"]),
            (0..=24).flat_map(|n| ["1", "9", "0"].iter().map(move |d| format!("{}{}", d.repeat(n.min(1)), "0".repeat(n.saturating_sub(1))))).collect(),
            strs(&["", "."]),
            (0..=24).flat_map(|n| ["1", "0", "50"].iter().map(move |d| format!("{}{}", "0".repeat(n), d))).chain(std::iter::once(String::new())).collect(),
        ],
    );
    product(
        ctx,
        &t,
        "special values",
        &[
            strs(&["", "-", "+", " "]),
            strs(&["INF", "inf", "NaN", "nan", "Infinity", "0x10", "1_000", "1,5", "1e3", "1E3", "1e+3", "1.5e-3", "e", ".", "", "1 ", "\u{661}", "1.2.3", "--1", "+-1", "1/2", "0b1", "1.e2", ".e2"]),
        ],
    );
    characters(ctx, &t, &["7.5", "-10"]);
    lengths(ctx, &t, &["\u{1}", "-\u{1}.5", "+0.\u{1}", "\u{1}.\u{1}", "-.\u{1}", "\u{1}."], "_ .,+-eEax:'\u{a0}\u{663}\u{0}");
    // every value digits x 10^-scale, built directly
    let mags: Vec<i64> = vec![0, 1, -1, 9, 10, -10, 12, 99, 100, -120, 123456789, i64::MAX, i64::MIN];
    let range = if ctx.thorough() { 400 } else { 120 };
    ctx.bound(format!("decimal: {} magnitudes x scales -{}..={}", mags.len(), range, range));
    ctx.explore(
        "decimal constructed values",
        0,
        |c| {
            let m = *c.pick(&mags);
            let s = c.choose(2 * range + 1) as i64 - range as i64;
            Some((m, s))
        },
        |p| hash64(p),
        |p| format!("{} x 10^{}", p.0, -p.1),
        |&(m, sc)| {
            let b = BigDecimal::new(BigInt::from(m), sc);
            let v = Decimal::from_bigdecimal(b.clone());
            let inp = format!("Decimal {} x 10^{}", m, -sc);
            let want = dec_val(&b);
            let disp = guard(|| v.to_string()).map_err(|p| viol("decimal:panic", inp.clone(), "printed text", p))?;
            if dec_lit(&disp).as_ref() != Some(&want) {
                return Err(viol("decimal:printed", inp, format!("plain literal of {}", want), disp));
            }
            match Decimal::from_str(&disp) {
                Ok(w) if w == v && dec_val(&w.to_bigdecimal()) == want && v.to_bigdecimal() == b => ok(2, "constructed value"),
                o => Err(viol("decimal:roundtrip", inp, want, format!("{:?}", o))),
            }
        },
    );
    // order
    let pool: Vec<&str> = vec!["-10", "-9.99", "-1.5", "-1", "-0.10", "-0.01", "0.0", "0.001", "0.01", "0.1", "0.2", "1", "1.0000001", "1.5", "9.9", "10.0", "100000000000000000000000.1"];
    ctx.explore(
        "decimal order",
        0,
        |c| Some((c.choose(pool.len()), c.choose(pool.len()))),
        |p| hash64(p),
        |p| format!("({}, {})", pool[p.0], pool[p.1]),
        |&(i, j)| {
            let (a, b) = (Decimal::from_str(pool[i]), Decimal::from_str(pool[j]));
            match (a, b) {
                (Ok(a), Ok(b)) if a.partial_cmp(&b) == Some(i.cmp(&j)) && (a == b) == (i == j) => ok(1, "ordered pair"),
                o => Err(viol("decimal:order", format!("({}, {})", pool[i], pool[j]), format!("{:?}", i.cmp(&j)), format!("{:?}", o))),
            }
        },
    );
    let d = dec_val(&Decimal::default().0);
    if d != "0" {
        ctx.report(viol("decimal:default", "default", "0", d));
    }
}
