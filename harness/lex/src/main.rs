//! Literal-level checks of the value types of xsd-types (C20..C28).
#[path = "../../common/mc.rs"]
mod mc;
mod cal;
mod dur;
mod num;

use mc::*;

/// Verdict of the reference model on one literal.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// must be accepted, denoting this value
    Acc(String),
    /// must be rejected with an error
    Rej,
    /// the specification leaves it open (only "no panic", and self-consistency if accepted)
    Free,
}

/// What the implementation did with one literal.
pub struct R {
    pub val: String,
    pub disp: String,
    /// value read back from the printed text, and whether the implementation calls it equal
    pub back: Result<(String, bool), String>,
}

pub struct Ty {
    pub name: &'static str,
    pub spec: fn(&str) -> V,
    pub run: fn(&str) -> Result<R, String>,
}

pub fn check(t: &Ty, s: &str) -> Result<Obs, Viol> {
    let inp = || format!("{} {:?}", t.name, s);
    let want = (t.spec)(s);
    let got = match guard(|| (t.run)(s)) {
        Err(p) => return Err(viol(format!("{}:panic", t.name), inp(), format!("{:?}", want), format!("panic: {}", p))),
        Ok(g) => g,
    };
    match (&want, &got) {
        (V::Acc(v), Ok(r)) => {
            if &r.val != v {
                return Err(viol(format!("{}:value", t.name), inp(), v.clone(), r.val.clone()));
            }
        }
        (V::Acc(v), Err(e)) => return Err(viol(format!("{}:refused", t.name), inp(), format!("accepted as {}", v), format!("error {}", e))),
        (V::Rej, Ok(r)) => return Err(viol(format!("{}:accepted", t.name), inp(), "an error", format!("accepted as {} (prints {:?})", r.val, r.disp))),
        (V::Rej, Err(_)) => return ok(1, "rejected"),
        (V::Free, Err(_)) => return ok(1, "unspecified"),
        (V::Free, Ok(_)) => {}
    }
    let r = got.unwrap();
    match &r.back {
        Ok((v, eq)) if *v == r.val && *eq => {}
        o => {
            if want != V::Free || o.is_ok() {
                return Err(viol(format!("{}:roundtrip", t.name), inp(), format!("{:?} to read back as {}", r.disp, r.val), format!("{:?}", o)));
            }
        }
    }
    if want == V::Free {
        return ok(2, "unspecified");
    }
    match (t.spec)(&r.disp) {
        V::Acc(v) if v == r.val => {}
        V::Free => {}
        o => return Err(viol(format!("{}:printed", t.name), inp(), format!("a literal denoting {}", r.val), format!("prints {:?}, which denotes {:?}", r.disp, o))),
    }
    ok(2, "accepted")
}

/// All strings over `alphabet` up to `max` characters.
pub fn short_strings(ctx: &Ctx, t: &Ty, alphabet: &str, max: usize) {
    let a: Vec<char> = alphabet.chars().collect();
    ctx.bound(format!("{}: all strings over {:?} up to {} characters", t.name, alphabet, max));
    ctx.explore_str(
        &format!("{} short strings", t.name),
        0,
        |c| {
            let mut s = String::new();
            for _ in 0..max {
                let k = c.choose(a.len() + 1);
                if k == 0 {
                    break;
                }
                s.push(a[k - 1]);
            }
            Some(s)
        },
        |s| check(t, s),
    )
}

/// All strings within `k` edits (insert, delete, substitute, swap neighbours) of the seeds.
pub fn edits(ctx: &Ctx, t: &Ty, name: &str, seeds: &[String], alphabet: &str, k: u32) {
    let a: Vec<char> = alphabet.chars().collect();
    ctx.bound(format!("{}: all strings within {} edit(s) over {:?} of {} literals ({})", t.name, k, alphabet, seeds.len(), name));
    ctx.explore_str(
        &format!("{} {} edits {}", t.name, k, name),
        k,
        |c| {
            let mut s: Vec<char> = c.pick(seeds).chars().collect();
            for _ in 0..k {
                let n = s.len();
                let ins = (n + 1) * a.len();
                let sub = n * a.len();
                let op = c.dev(1 + ins + sub + n + n.saturating_sub(1));
                if op == 0 {
                    break;
                }
                let op = op - 1;
                if op < ins {
                    s.insert(op / a.len(), a[op % a.len()]);
                } else if op < ins + sub {
                    let o = op - ins;
                    s[o / a.len()] = a[o % a.len()];
                } else if op < ins + sub + n {
                    s.remove(op - ins - sub);
                } else {
                    let o = op - ins - sub - n;
                    s.swap(o, o + 1);
                }
            }
            Some(s.into_iter().collect())
        },
        |s| check(t, s),
    )
}

/// Every Unicode character before, after and within each literal, put in or in place of one of its own.
pub fn characters(ctx: &Ctx, t: &Ty, seeds: &[&str]) {
    characters_from(ctx, t, seeds, 0)
}
/// The same from the given place on.
pub fn characters_from(ctx: &Ctx, t: &Ty, seeds: &[&str], from: usize) {
    ctx.bound(format!("{}: every Unicode character at every place of {:?} from {} on, inserted or substituted", t.name, seeds, from));
    // (literal, place, 1 when the character there is replaced)
    let mut spots: Vec<(&str, usize, usize)> = vec![];
    for s in seeds {
        for i in from..=s.len() {
            spots.push((s, i, 0));
            if i < s.len() {
                spots.push((s, i, 1));
            }
        }
    }
    ctx.explore_str(
        &format!("{} characters", t.name),
        0,
        |c| {
            let block = c.choose(0x440) as u32;
            let (s, i, n) = *c.pick(&spots);
            let ch = char::from_u32(block * 1024 + c.choose(1024) as u32)?;
            Some(format!("{}{}{}", &s[..i], ch, &s[i + n..]))
        },
        |s| check(t, s),
    )
}

pub const SIZES: [usize; 27] = [71, 96, 99, 100, 101, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2048, 4096, 5000];

/// Literals whose digit runs have every length up to 70 and many beyond, as they are and with one wrong character.
/// `\u{1}` in a form stands for the digits.
pub fn lengths(ctx: &Ctx, t: &Ty, forms: &[&str], wrong: &str) {
    let w: Vec<char> = wrong.chars().collect();
    let sizes: Vec<usize> = (1..=70).chain(SIZES).collect();
    ctx.bound(format!("{}: digit runs of every length up to 70 and {} lengths up to {} in {} forms, x six kinds of digits, x one character of {:?} put in or in place of the first, second, middle or last", t.name, SIZES.len(), SIZES.last().unwrap(), forms.len(), wrong));
    ctx.explore_str(
        &format!("{} lengths", t.name),
        0,
        |c| {
            let n = *c.pick(&sizes);
            let mut d: Vec<char> = match c.choose(6) {
                0 => vec!['1'; n],
                1 => vec!['9'; n],
                2 => vec!['0'; n],
                3 => std::iter::once('1').chain(std::iter::repeat('0')).take(n).collect(),
                4 => std::iter::repeat('0').take(n - 1).chain(std::iter::once('7')).collect(),
                _ => "1234567890".chars().cycle().take(n).collect(),
            };
            let k = c.choose(1 + w.len() * 9);
            if k > 0 {
                let ch = w[(k - 1) / 9];
                match (k - 1) % 9 {
                    i @ 0..=4 => d.insert([0, 1.min(n), n / 2, n - 1, n][i], ch),
                    i => d[[0, 1.min(n - 1), n / 2, n - 1][i - 5]] = ch,
                }
            }
            let d: String = d.into_iter().collect();
            Some(c.pick(forms).replace('\u{1}', &d))
        },
        |s| check(t, s),
    )
}

/// All concatenations of one item per slot.
pub fn product(ctx: &Ctx, t: &Ty, name: &str, slots: &[Vec<String>]) {
    ctx.bound(format!("{}: {} = product of {:?} alternatives", t.name, name, slots.iter().map(|s| s.len()).collect::<Vec<_>>()));
    ctx.explore_str(
        &format!("{} product {}", t.name, name),
        0,
        |c| {
            let mut s = String::new();
            for sl in slots {
                s += c.pick(sl);
            }
            Some(s)
        },
        |s| check(t, s),
    )
}

pub fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}
pub fn nums(r: std::ops::RangeInclusive<u32>, w: usize) -> Vec<String> {
    r.map(|i| format!("{:0w$}", i, w = w)).collect()
}

fn main() {
    let ctx = Ctx::from_args();
    match ctx.prop.as_str() {
        "C20" => num::integers(&ctx),
        "C21" => num::decimals(&ctx),
        "C22" => cal::recurring(&ctx),
        "C23" => cal::years(&ctx),
        "C24" => cal::dates(&ctx),
        "C25" => cal::times(&ctx),
        "C26" => cal::datetimes(&ctx),
        "C27" => dur::durations(&ctx),
        "C28" => cal::timezones(&ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2)
        }
    }
    ctx.finish()
}
