use crate::mc::*;
use crate::*;
use std::str::FromStr;
use xsd_types::types::Duration;

struct D {
    neg: bool,
    f: [u64; 5],
    secs: String,
}

enum P {
    Ok(D),
    Bad,
    /// grammatical, but a component does not fit (must be an error for the integer components; open for seconds)
    Big(bool),
}

/// -?P(nY)?(nM)?(nD)?(T(nH)?(nM)?(n(.n)?S)?)? with at least one component, and one after T.
fn grammar(s: &str) -> P {
    let mut b = s.as_bytes();
    let mut d = D { neg: false, f: [0; 5], secs: "0".into() };
    if b.first() == Some(&b'-') {
        d.neg = true;
        b = &b[1..];
    }
    if b.first() != Some(&b'P') {
        return P::Bad;
    }
    b = &b[1..];
    let mut any = false;
    let mut big = false;
    let mut big_secs = false;
    let mut take = |b: &mut &[u8], units: &[(u8, usize)], any: &mut bool| -> Option<()> {
        // units in order; each optional
        let mut next = 0;
        while next < units.len() {
            let n = b.iter().take_while(|c| c.is_ascii_digit()).count();
            if n == 0 {
                return Some(());
            }
            let digits = std::str::from_utf8(&b[..n]).unwrap();
            let rest = &b[n..];
            if let Some(p) = units[next..].iter().position(|u| rest.first() == Some(&u.0)) {
                let u = units[next + p];
                if u.1 == 5 {
                    d.secs = digits.to_string();
                    if digits.parse::<u64>().is_err() {
                        big_secs = true;
                    }
                } else {
                    match digits.parse::<u64>() {
                        Ok(v) => d.f[u.1] = v,
                        Err(_) => big = true,
                    }
                }
                *any = true;
                next += p + 1;
                *b = &rest[1..];
            } else if units.iter().any(|u| u.1 == 5) && rest.first() == Some(&b'.') {
                let m = rest[1..].iter().take_while(|c| c.is_ascii_digit()).count();
                if m == 0 || rest.get(1 + m) != Some(&b'S') {
                    return None;
                }
                d.secs = format!("{}.{}", digits, std::str::from_utf8(&rest[1..1 + m]).unwrap());
                if digits.parse::<u64>().is_err() {
                    big_secs = true;
                }
                *any = true;
                *b = &rest[2 + m..];
                return Some(());
            } else {
                return None;
            }
        }
        Some(())
    };
    if take(&mut b, &[(b'Y', 0), (b'M', 1), (b'D', 2)], &mut any).is_none() {
        return P::Bad;
    }
    if b.first() == Some(&b'T') {
        b = &b[1..];
        let mut t = false;
        if take(&mut b, &[(b'H', 3), (b'M', 4), (b'S', 5)], &mut t).is_none() || !t {
            return P::Bad;
        }
        any = true;
    }
    if !b.is_empty() || !any {
        return P::Bad;
    }
    if big {
        return P::Big(false);
    }
    if big_secs {
        return P::Big(true);
    }
    P::Ok(d)
}

fn spec(s: &str) -> V {
    if s.is_empty() {
        return V::Free;
    }
    match grammar(s) {
        P::Bad | P::Big(false) => V::Rej,
        P::Big(true) => V::Free,
        P::Ok(d) => {
            let secs: f64 = d.secs.parse().unwrap();
            V::Acc(format!("{} {:?} {:?}", if d.neg { "-" } else { "+" }, d.f, secs))
        }
    }
}
fn val(d: &Duration) -> String {
    format!("{} {:?} {:?}", if d.is_negative { "-" } else { "+" }, [d.years, d.months, d.days, d.hours, d.minutes], d.seconds)
}

/// conversion, computed on the decimal text of the seconds
fn check_std(s: &str) -> Result<Obs, Viol> {
    let P::Ok(d) = grammar(s) else { return ok(0, "not converted") };
    let v = match Duration::from_str(s) {
        Ok(v) => v,
        Err(_) => return ok(1, "not converted"),
    };
    let inp = format!("to_std_duration of {:?}", s);
    let got = guard(|| v.to_std_duration()).map_err(|p| viol("duration:convert-panic", inp.clone(), "a value or an error", p))?;
    let (si, sf) = match d.secs.split_once('.') {
        Some((i, f)) => (i.parse::<u64>().unwrap(), f.to_string()),
        None => (d.secs.parse::<u64>().unwrap(), String::new()),
    };
    let total = si as u128 + 60 * (d.f[4] as u128 + 60 * (d.f[3] as u128 + 24 * d.f[2] as u128));
    // below half a nanosecond a negative duration may round to zero or be refused
    let zero = total == 0 && sf.chars().take(9).all(|c| c == '0');
    if d.f[0] > 0 || d.f[1] > 0 || total > u64::MAX as u128 || (d.neg && !zero) {
        return match got {
            Err(_) => ok(1, "conversion refused"),
            Ok(x) => Err(viol("duration:convert", inp, "an error", format!("{:?}", x))),
        };
    }
    // f64 keeps 53 bits: compare to the nearest nanosecond only where the double can hold it
    let digits9: String = sf.chars().chain(std::iter::repeat('0')).take(9).collect();
    let nanos: u64 = digits9.parse().unwrap();
    match got {
        Ok(x) => {
            let want = total * 1_000_000_000 + nanos as u128;
            let have = x.as_secs() as u128 * 1_000_000_000 + x.subsec_nanos() as u128;
            let exact = sf.trim_end_matches('0').len() <= 9 && si < 1_000_000;
            let tol: u128 = if exact {
                0
            } else {
                // one unit of the double plus one for the truncated tenth digit
                ((si as f64 * 1e9) / (1u64 << 52) as f64) as u128 + 1
            };
            if want.abs_diff(have) > tol {
                return Err(viol("duration:convert", inp, format!("{} ns", want), format!("{} ns", have)));
            }
            ok(1, "converted")
        }
        Err(e) => {
            if d.neg && zero {
                return ok(1, "negative zero");
            }
            Err(viol("duration:convert", inp, format!("{} s", total), format!("error {}", e)))
        }
    }
}

fn both(t: &Ty, s: &str) -> Result<Obs, Viol> {
    let o = check(t, s)?;
    if o.class == "accepted" {
        let p = check_std(s)?;
        return Ok(Obs { runs: o.runs + p.runs, class: p.class });
    }
    Ok(o)
}

pub fn durations(ctx: &Ctx) {
    let t = Ty {
        name: "duration",
        spec,
        run: |s| {
            let v = Duration::from_str(s)?;
            let disp = v.to_string();
            let back = Duration::from_str(&disp).map(|w| (val(&w), w == v));
            Ok(R { val: val(&v), disp, back })
        },
    };
    short_strings(ctx, &t, "PYMDTHS-.01", if ctx.thorough() { 8 } else { 6 });
    // all designator sequences with one number each
    let n = if ctx.thorough() { 7 } else { 6 };
    ctx.bound(format!("token strings: all sequences of up to {} tokens after an optional sign and P", n));
    let toks = ["1Y", "2M", "3D", "T", "4H", "5.5S", "6S", "0Y", "0S", "0", ".5", "Y", "S", "M"];
    ctx.explore_str(
        "token strings",
        0,
        |c| {
            let mut s = (*c.pick(&["P", "-P", ""])).to_string();
            for _ in 0..n {
                let k = c.choose(toks.len() + 1);
                if k == 0 {
                    break;
                }
                s += toks[k - 1];
            }
            Some(s)
        },
        |s| both(&t, s),
    );
    let numsv = ["", "0", "00", "1", "12", "60", "4294967296", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999"];
    let opt = |u: &str| -> Vec<String> { numsv.iter().map(|n| if n.is_empty() { String::new() } else { format!("{}{}", n, u) }).collect() };
    let few = |u: &str| -> Vec<String> { ["", "0", "7", "18446744073709551615", "18446744073709551616"].iter().map(|n| if n.is_empty() { String::new() } else { format!("{}{}", n, u) }).collect() };
    product(ctx, &t, "all component subsets x numbers", &[strs(&["P", "-P"]), few("Y"), few("M"), few("D"), strs(&["", "T"]), few("H"), few("M"), strs(&["", "0S", "7S", "7.5S", "0.0S", "18446744073709551615S"])]);
    for (i, u) in ["Y", "M", "D"].iter().enumerate() {
        product(ctx, &t, &format!("boundary numbers, date component {}", i), &[strs(&["P", "-P"]), opt(u), strs(&["", "T1H"])]);
    }
    for (i, u) in ["H", "M", "S"].iter().enumerate() {
        product(ctx, &t, &format!("boundary numbers, time component {}", i), &[strs(&["P", "-P"]), strs(&["", "1D"]), strs(&["T"]), opt(u)]);
    }
    // fractions of seconds
    let mut fr = vec![];
    for n in 1..=30usize {
        for d in ["0", "1", "5", "9", "3", "7"] {
            fr.push(format!("{}{}", "0".repeat(n - 1), d));
            fr.push(d.repeat(n));
            fr.push(format!("{}{}", d, "0".repeat(n - 1)));
        }
    }
    if ctx.thorough() {
        fr.extend((0..100000).map(|i| format!("{:05}", i)));
    } else {
        fr.extend((0..1000).map(|i| format!("{:03}", i)));
    }
    fr.sort();
    fr.dedup();
    ctx.bound(format!("{} fractions of seconds x 8 integer parts", fr.len()));
    ctx.explore_str(
        "fractions",
        0,
        |c| {
            let ip = *c.pick(&["0", "1", "2", "59", "60", "1000", "4294967296", "86399"]);
            let f = c.pick(&fr);
            let pre = *c.pick(&["PT", "-PT", "P1DT1H"]);
            Some(format!("{}{}.{}S", pre, ip, f))
        },
        |s| both(&t, s),
    );
    characters(ctx, &t, &["P1DT2.5S"]);
    lengths(ctx, &t, &["P\u{1}Y", "-P1Y\u{1}MT1S", "P\u{1}D", "PT\u{1}H", "PT\u{1}M1S", "PT\u{1}S", "PT\u{1}.5S", "-PT1.\u{1}S", "P1Y\u{1}", "PT1M\u{1}"], "_ .,+-eEPTSYMDH\u{a0}\u{663}\u{0}");
    edits(ctx, &t, "full literals", &strs(&["P1Y2M3DT4H5M6.7S", "-P10Y0M30DT24H60M60S", "PT0S", "P0Y", "P3D", "PT1M", "-PT0.5S"]), "PYMDTHSW-+.019 ,é\u{0663}", if ctx.thorough() { 2 } else { 1 });
    edits(ctx, &t, "short literals", &strs(&["P1Y2M", "PT5M6.7S", "P3DT4H"]), "PYMDTHS-.09", 2);
    ctx.explore_str(
        "conversion",
        0,
        |c| {
            let sgn = *c.pick(&["", "-"]);
            let y = *c.pick(&["", "0Y", "1Y"]);
            let mo = *c.pick(&["", "0M", "1M"]);
            let d = *c.pick(&["", "0D", "1D", "213503982334601D", "213503982334602D", "18446744073709551615D"]);
            let h = *c.pick(&["", "0H", "23H", "5124095576030431H", "5124095576030432H", "18446744073709551615H"]);
            let m = *c.pick(&["", "0M", "59M", "307445734561825860M", "307445734561825861M", "18446744073709551615M"]);
            let s = *c.pick(&["", "0S", "1S", "2.3S", "0.1S", "0.000000001S", "1.999999999S", "0.9999999999S", "59.123456789S"]);
            if format!("{}{}{}{}{}{}", y, mo, d, h, m, s).is_empty() {
                return None;
            }
            let tt = if h.is_empty() && m.is_empty() && s.is_empty() { "" } else { "T" };
            Some(format!("{}P{}{}{}{}{}{}{}", sgn, y, mo, d, tt, h, m, s))
        },
        |s| check_std(s),
    );
    let d = Duration::default();
    match spec(&d.to_string()) {
        V::Acc(v) if v == val(&d) => {}
        o => ctx.report(viol("duration:default", "default", val(&d), format!("{} {:?}", d, o))),
    }
}
