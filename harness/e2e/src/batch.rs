//! Compiles generated modules with rustc against the support crates and runs jobs on them.
use crate::mc::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Module {
    /// body of the module; provides `pub fn run(sel: usize, text: &str) -> String`
    pub code: String,
}
pub struct Job {
    pub module: usize,
    pub sel: usize,
    pub text: String,
}
pub struct Outcome {
    /// module -> compiler message
    pub broken: BTreeMap<usize, String>,
    /// per job; None if its module does not compile
    pub results: Vec<Option<String>>,
}

const SUPPORT: [&str; 6] = ["xsd_types", "xsd_macro_utils", "xsd_parser", "yaserde", "yaserde_derive", "xml"];

pub const HEADER: &str = "#[allow(unused_imports)] use std::str::FromStr;\n#[allow(unused_imports)] use xsd_macro_utils::*;\n#[allow(unused_imports)] use xsd_parser::generator::validator::Validate;\n#[allow(unused_imports)] use xsd_types::types as xs;\n#[allow(unused_imports)] use yaserde_derive::{YaDeserialize, YaSerialize};\n";

const PRELUDE: &str = r#"
#![allow(warnings)]
use xsd_parser::generator::validator::Validate;
pub fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r") }
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut i = s.chars();
    while let Some(c) = i.next() {
        if c == '\\' { match i.next().unwrap() { 'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), c => o.push(c) } } else { o.push(c) }
    }
    o
}
/// read, write, read again
pub fn roundtrip<T: yaserde::YaDeserialize + yaserde::YaSerialize + PartialEq + std::fmt::Debug>(s: &str) -> String {
    let v: T = match yaserde::de::from_str(s) { Ok(v) => v, Err(e) => return format!("reading fails: {}", e) };
    let x = match yaserde::ser::to_string(&v) { Ok(x) => x, Err(e) => return format!("writing fails: {}", e) };
    match yaserde::de::from_str::<T>(&x) {
        Ok(w) if w == v => format!("ok {}", x),
        Ok(w) => format!("reading the output gives another value: {} then {:?} instead of {:?}", x, w, v),
        Err(e) => format!("reading the output fails: {}: {}", e, x),
    }
}
/// parse a literal and validate the value
pub fn verdict<T: std::str::FromStr + Validate + std::fmt::Display>(s: &str) -> String {
    match T::from_str(s) {
        Err(_) => "no literal".to_string(),
        Ok(v) => {
            let before = v.to_string();
            let r = v.validate();
            let again = v.validate();
            if v.to_string() != before { return "value changed".to_string(); }
            if r.is_ok() != again.is_ok() { return "unstable".to_string(); }
            if r.is_ok() { "valid".to_string() } else { "invalid".to_string() }
        }
    }
}
/// read a document and validate the value
pub fn verdict_doc<T: yaserde::YaDeserialize + Validate + PartialEq + std::fmt::Debug>(s: &str) -> String {
    let (v, w): (T, T) = match (yaserde::de::from_str(s), yaserde::de::from_str(s)) { (Ok(v), Ok(w)) => (v, w), (Err(e), _) | (_, Err(e)) => return format!("reading fails: {}", e) };
    let r = v.validate();
    if v != w { return "value changed".to_string(); }
    if r.is_ok() { "valid".to_string() } else { "invalid".to_string() }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::env::args().nth(1).unwrap();
    let text = std::fs::read_to_string(file).unwrap();
    use std::io::Write;
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for l in text.lines() {
        let mut p = l.splitn(3, '\t');
        let m: usize = p.next().unwrap().parse().unwrap();
        let sel: usize = p.next().unwrap().parse().unwrap();
        let t = unesc(p.next().unwrap());
        let r = std::panic::catch_unwind(|| dispatch(m, sel, &t)).unwrap_or_else(|e| {
            format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
        });
        writeln!(out, "{}", esc(&r)).unwrap();
        out.flush().unwrap();
    }
}
"#;

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut i = s.chars();
    while let Some(c) = i.next() {
        if c == '\\' {
            match i.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

/// crate name -> library file, from cargo's own report of this build
fn artifacts() -> (BTreeMap<String, String>, PathBuf) {
    let f = std::env::var("E2E_ARTIFACTS").expect("E2E_ARTIFACTS");
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(&f).expect("artifacts").lines() {
        if !l.contains("\"compiler-artifact\"") {
            continue;
        }
        let after = |k: &str| l.find(k).map(|i| &l[i + k.len()..]);
        let target = after("\"target\":{").unwrap_or("");
        let name = target.split("\"name\":\"").nth(1).and_then(|s| s.split('"').next()).unwrap_or("").replace('-', "_");
        let files = after("\"filenames\":[").and_then(|s| s.split(']').next()).unwrap_or("");
        let lib = files.split(',').map(|s| s.trim_matches('"').to_string()).find(|s| s.ends_with(".rlib") || s.ends_with(".so"));
        // libraries built for the macros themselves are not the ones linked
        let for_macros = !target.contains("\"proc-macro\"") && l.contains("\"opt_level\":\"0\"");
        if let (Some(lib), false) = (lib, for_macros) {
            m.insert(name, lib);
        }
    }
    let deps = Path::new(m.get("yaserde").expect("yaserde artifact")).parent().unwrap().to_path_buf();
    (m, deps)
}

struct Shard {
    modules: Vec<usize>,
}

pub fn scratch(ctx: &Ctx, what: &str) -> PathBuf {
    let d = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| ctx.verif.clone() + "/target")).join(format!("e2e-{}-{}", what, std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch");
    d
}

/// Compile one shard; Err(per-module messages) if some of its modules do not compile.
fn compile(dir: &Path, id: usize, shard: &Shard, modules: &[Module], arts: &(BTreeMap<String, String>, PathBuf)) -> Result<PathBuf, BTreeMap<usize, String>> {
    let d = dir.join(format!("s{}", id));
    let _ = std::fs::create_dir_all(&d);
    let mut main = String::from(PRELUDE);
    let mut arms = String::new();
    for &m in &shard.modules {
        std::fs::write(d.join(format!("m{}.rs", m)), &modules[m].code).unwrap();
        main += &format!("#[path = \"m{0}.rs\"] mod m{0};\n", m);
        arms += &format!("{0} => m{0}::run(sel, t),\n", m);
    }
    main += &format!("fn dispatch(m: usize, sel: usize, t: &str) -> String {{ match m {{ {} _ => unreachable!() }} }}\n", arms);
    std::fs::write(d.join("main.rs"), main).unwrap();
    let exe = d.join("run");
    let mut c = Command::new("rustc");
    c.arg("--edition").arg("2021").arg("--crate-type").arg("bin").args(["-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=2", "-C", "overflow-checks=on", "--error-format=json", "--cap-lints", "allow"]);
    c.arg("-L").arg(format!("dependency={}", arts.1.display()));
    for s in SUPPORT {
        c.arg("--extern").arg(format!("{}={}", s, arts.0.get(s).unwrap_or_else(|| panic!("no artifact {}", s))));
    }
    c.arg("-o").arg(&exe).arg(d.join("main.rs"));
    let o = c.output().expect("rustc runs");
    if o.status.success() {
        return Ok(exe);
    }
    let mut bad = BTreeMap::new();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    for l in err.lines() {
        if !l.contains("\"level\":\"error\"") {
            continue;
        }
        let msg = l.split("\"message\":\"").nth(1).map(|s| s.split("\",\"").next().unwrap_or("").to_string()).unwrap_or_default();
        for p in l.split("\"file_name\":\"").skip(1) {
            let f = p.split('"').next().unwrap_or("");
            if let Some(n) = Path::new(f).file_name().and_then(|n| n.to_str()).and_then(|n| n.strip_prefix('m')).and_then(|n| n.strip_suffix(".rs")).and_then(|n| n.parse::<usize>().ok()) {
                let rendered = l.split("\"rendered\":\"").nth(1).map(unesc).unwrap_or_default();
                bad.entry(n).or_insert_with(|| format!("{} ({})", msg, rendered.lines().take(8).collect::<Vec<_>>().join(" | ")));
            }
        }
    }
    if bad.is_empty() {
        // the message names no module: ask for each on its own
        if shard.modules.len() == 1 {
            bad.insert(shard.modules[0], err.chars().take(1000).collect());
        } else {
            for &m in &shard.modules {
                if let Err(b) = compile(dir, id, &Shard { modules: vec![m] }, modules, arts) {
                    bad.extend(b);
                }
            }
            if bad.is_empty() {
                eprintln!("{}", err.chars().take(4000).collect::<String>());
                println!("rustc failed without naming a module");
                std::process::exit(2);
            }
        }
    }
    Err(bad)
}

fn execute(dir: &Path, id: usize, exe: &Path, jobs: &[(usize, &Job)]) -> Vec<(usize, String)> {
    let mut out = vec![];
    let mut rest = jobs;
    let mut hangs = 0;
    while !rest.is_empty() {
        let f = dir.join(format!("jobs{}", id));
        let mut w = std::io::BufWriter::new(std::fs::File::create(&f).unwrap());
        for (_, j) in rest {
            writeln!(w, "{}\t{}\t{}", j.module, j.sel, esc(&j.text)).unwrap();
        }
        drop(w);
        let outf = dir.join(format!("out{}", id));
        // a reader that never ends must not take the machine with it
        let mut child = Command::new("bash")
            .args(["-c", "ulimit -v 6000000; exec \"$0\" \"$1\" >\"$2\" 2>/dev/null"])
            .arg(exe)
            .arg(&f)
            .arg(&outf)
            .stdin(Stdio::null())
            .spawn()
            .expect("run");
        let start = Instant::now();
        let mut last = (0, Instant::now());
        let done = loop {
            if let Some(_s) = child.try_wait().unwrap() {
                break true;
            }
            let n = std::fs::metadata(&outf).map(|m| m.len()).unwrap_or(0);
            if n != last.0 {
                last = (n, Instant::now());
            }
            if last.1.elapsed() > Duration::from_secs(15) || start.elapsed() > Duration::from_secs(3000) {
                let _ = child.kill();
                let _ = child.wait();
                break false;
            }
            std::thread::sleep(Duration::from_millis(3));
        };
        let text = std::fs::read(&outf).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
        let complete = text.rfind('\n').map(|i| &text[..i + 1]).unwrap_or("");
        let mut n = 0;
        for l in complete.lines() {
            out.push((rest[n].0, unesc(l)));
            n += 1;
        }
        if n < rest.len() {
            // the job after the last answered one hung or died
            out.push((rest[n].0, if done { "process died".into() } else { "never ends".into() }));
            n += 1;
            hangs += 1;
            if hangs > 5 {
                for (i, _) in &rest[n..] {
                    out.push((*i, "not run".into()));
                }
                break;
            }
        }
        rest = &rest[n..];
    }
    out
}

pub fn run(ctx: &Ctx, what: &str, modules: &[Module], jobs: &[Job]) -> Outcome {
    let arts = artifacts();
    let dir = scratch(ctx, what);
    let per = if modules.len() > 4000 { 160 } else { (modules.len() / 64).max(12) };
    let nshards = modules.len().div_ceil(per).max(1);
    let mut shards: Vec<Shard> = (0..nshards).map(|_| Shard { modules: vec![] }).collect();
    for m in 0..modules.len() {
        shards[m % nshards].modules.push(m);
    }
    let mut by_module: Vec<Vec<usize>> = vec![vec![]; modules.len()];
    for (i, j) in jobs.iter().enumerate() {
        by_module[j.module].push(i);
    }
    let broken = Mutex::new(BTreeMap::new());
    let results: Mutex<Vec<Option<String>>> = Mutex::new((0..jobs.len()).map(|_| None).collect());
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads().min(8) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= shards.len() {
                    break;
                }
                let mut sh = Shard { modules: shards[i].modules.clone() };
                let exe = loop {
                    if sh.modules.is_empty() {
                        break None;
                    }
                    match compile(&dir, i, &sh, modules, &arts) {
                        Ok(e) => break Some(e),
                        Err(bad) => {
                            let set: BTreeSet<usize> = bad.keys().cloned().collect();
                            sh.modules.retain(|m| !set.contains(m));
                            broken.lock().unwrap().extend(bad);
                        }
                    }
                };
                if let Some(exe) = exe {
                    let js: Vec<(usize, &Job)> = sh.modules.iter().flat_map(|m| by_module[*m].iter().map(|&j| (j, &jobs[j]))).collect();
                    let out = execute(&dir, i, &exe, &js);
                    let mut r = results.lock().unwrap();
                    for (j, t) in out {
                        r[j] = Some(t);
                    }
                }
                let _ = std::fs::remove_dir_all(dir.join(format!("s{}", i)));
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    Outcome { broken: broken.into_inner().unwrap(), results: results.into_inner().unwrap() }
}

/// Every path of the decision tree of `construct`, with its decisions.
pub fn paths<C>(budget: u32, construct: impl Fn(&mut Chooser) -> Option<C>) -> (Vec<(Vec<u32>, C)>, u64) {
    let mut out = vec![];
    let mut prefix: Vec<u32> = vec![];
    let mut edges = 0u64;
    let mut common = 0usize;
    loop {
        let mut c = Chooser::new(&prefix, budget);
        let case = construct(&mut c);
        let log = std::mem::take(&mut c.log);
        edges += (log.len() - common.min(log.len())) as u64;
        if let Some(case) = case {
            out.push((log.iter().map(|x| x.0).collect(), case));
        }
        let mut i = log.len();
        loop {
            if i == 0 {
                return (out, edges);
            }
            i -= 1;
            if log[i].0 + 1 < log[i].1 {
                break;
            }
        }
        prefix.clear();
        prefix.extend(log[..i].iter().map(|x| x.0));
        prefix.push(log[i].0 + 1);
        common = i;
    }
}

pub fn generate(xsd: &str) -> Result<String, String> {
    guard(|| {
        let file = xsd_parser::parser::parse(xsd).map_err(|_| "parse error".to_string())?;
        Ok::<_, String>(xsd_parser::generator::builder::GeneratorBuilder::default().build().generate_rs_file(&file))
    })
    .unwrap_or_else(|p| Err(format!("panic: {}", p)))
}
