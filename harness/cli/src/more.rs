//! What lies in the way of a run: contents, times and permissions of outputs, names, numbers and sizes of
//! files, the environment of the process.
use crate::mc::*;
use crate::tree::*;
use crate::*;
use std::time::{Duration, SystemTime};

fn code_of(lab: &Lab, text: &str) -> Option<String> {
    if lab.format == "xsd" {
        lib_xsd(text)
    } else {
        docs::good(text)
    }
}
fn text(t: &Text) -> &str {
    std::str::from_utf8(&t.bytes).unwrap()
}
/// The file which the output for an input is named after.
fn output_name(n: &str) -> String {
    match n.rfind('.') {
        None | Some(0) => format!("{}.rs", n),
        Some(i) => format!("{}.rs", &n[..i]),
    }
}
fn io(i: &str, o: &str) -> Vec<String> {
    vec!["-i".into(), i.into(), "-o".into(), o.into()]
}

pub fn explore(ctx: &Ctx, lab: &Lab, texts: &[Text]) {
    outputs(ctx, lab, texts);
    names(ctx, lab, texts);
    sizes(ctx, lab, texts);
    around(ctx, lab, texts);
}

/// Contents an output may have before, given what the run is going to write.
fn before(code: &str, other: &str, k: usize) -> Vec<u8> {
    let b = code.as_bytes();
    let n = b.len();
    let changed = |at: usize| {
        let mut v = b.to_vec();
        if n > 0 {
            v[at.min(n - 1)] ^= 1;
        }
        v
    };
    match k {
        0 => b.to_vec(),
        1 => vec![b'x'; n],
        2 => changed(0),
        3 => changed(n / 2),
        4 => changed(n),
        5 => [b, b"\n"].concat(),
        6 => [b, b"// more\n"].concat(),
        7 => b[..n / 2].to_vec(),
        8 => b[..n.saturating_sub(1)].to_vec(),
        9 => b[n.min(1)..].to_vec(),
        10 => [b, b].concat(),
        11 => other.as_bytes().to_vec(),
        12 => [b"// edited by hand\n", b].concat(),
        13 => code.replace('\n', "\r\n").into_bytes(),
        14 => b.iter().rev().copied().collect(),
        15 => vec![0; n],
        16 => code.replace("pub ", "    ").into_bytes(),
        17 => [b"\xef\xbb\xbf", b].concat(),
        18 => vec![0xff; 2 * n + 1],
        _ => b"// Code generated. DO NOT EDIT.\n".to_vec(),
    }
}
const BEFORE: usize = 20;

fn outputs(ctx: &Ctx, lab: &Lab, texts: &[Text]) {
    ctx.bound(format!("outputs before: {} contents related to the new one (equal, of equal length, differing in one byte at the beginning, middle or end, continued, cut) x {} texts x a file or a directory x older, newer or equal times of the output x one or two runs", BEFORE, texts.len()));
    ctx.explore(
        "outputs before",
        0,
        |c| Some((c.choose(texts.len()), c.choose(BEFORE), c.flag(), c.choose(4), c.flag())),
        |x| hash64(x),
        |x| format!("{} over contents {}, {}, times {}, {} runs", texts[x.0].what, x.1, if x.2 { "a directory" } else { "one file" }, x.3, 1 + x.4 as usize),
        |x| {
            let (t, k, dir, time, twice) = *x;
            let t = &texts[t];
            let b = lab.bench();
            let mut tree = Tree::new();
            put(&mut tree, "in/sub/a.xsd", Node::File(t.bytes.clone()));
            let other = texts[if t.what == texts[0].what { 1 } else { 0 }].code.clone().unwrap();
            put(&mut tree, "out/sub/a.rs", Node::File(before(t.code.as_deref().unwrap_or(&other), &other, k)));
            b.write(&tree);
            let set = |p: &str, secs: u64| {
                let f = std::fs::OpenOptions::new().append(true).open(format!("{}/{}", b.root, p)).unwrap();
                let at = SystemTime::UNIX_EPOCH + Duration::from_secs(secs);
                f.set_times(std::fs::FileTimes::new().set_modified(at).set_accessed(at)).unwrap();
            };
            match time {
                0 => {}
                1 => (set("in/sub/a.xsd", 1_000_000_000), set("out/sub/a.rs", 4_000_000_000)).1,
                2 => (set("in/sub/a.xsd", 4_000_000_000), set("out/sub/a.rs", 0)).1,
                _ => (set("in/sub/a.xsd", 1_500_000_000), set("out/sub/a.rs", 1_500_000_000)).1,
            }
            let args = if dir { io("in", "out") } else { io("in/sub/a.xsd", "out/sub/a.rs") };
            let want = Want::file("out/sub/a.rs", t.code.as_deref(), true);
            for _ in 0..1 + twice as usize {
                let r = b.run(&args, &[]);
                tree = b.judge(&tree, &want, &r).map_err(|e| viol("outputs-before", format!("{:?} with {} over contents {}, times {}", args, t.what, k, time), e.0, e.1))?;
            }
            ok(1 + twice as u64, "as if nothing had been there")
        },
    );
    if lab.unprivileged {
        ctx.bound("permissions: output read-only, its directory closed, input directory closed, x a file or a directory");
        ctx.explore(
            "permissions",
            0,
            |c| Some((c.choose(4), c.flag())),
            |x| hash64(x),
            |x| format!("{:?}", x),
            |x| {
                use std::os::unix::fs::PermissionsExt;
                let b = lab.bench();
                let mut tree = Tree::new();
                put(&mut tree, "in/a.xsd", Node::File(texts[0].bytes.clone()));
                put(&mut tree, "out/keep.rs", Node::File(b"keep".to_vec()));
                if x.0 != 1 {
                    put(&mut tree, "out/a.rs", Node::File(b"// old".to_vec()));
                }
                b.write(&tree);
                let (p, mode) = [("out/a.rs", 0o444), ("out", 0o555), ("in", 0o000), ("out/keep.rs", 0o400)][x.0];
                let p = format!("{}/{}", b.root, p);
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
                let args = if x.1 { io("in", "out") } else { io("in/a.xsd", "out/a.rs") };
                let r = b.run(&args, &[]);
                let want = if x.0 == 3 { Want::file("out/a.rs", texts[0].code.as_deref(), true) } else { Want::failure() };
                b.judge(&tree, &want, &r).map_err(|e| viol("permissions", format!("{:?} with {}", args, x.0), e.0, e.1))?;
                ok(1, "permissions respected")
            },
        );
    }
}

fn names(ctx: &Ctx, lab: &Lab, texts: &[Text]) {
    let th = ctx.thorough();
    let alpha = ['a', '.', '-', ' ', 'é', '~'];
    let len = if th { 5 } else { 4 };
    let odd = [
        ".xsd", ".wsdl", "..xsd", "a.XSD", "a.Xsd", "a.rs", "a.RS", "a.xsd.bak", "a.xsd~", "#a#", "a.tmp", "a.swp", ".git", ".gitignore", ".DS_Store", "target", "node_modules", "mod.xsd", "lib.xsd", "main.xsd",
        "con", "a\nb.xsd", "a\tb", "a'b.xsd", "a\"b.xsd", "$HOME.xsd", "*.xsd", "a?.xsd", "a\\b.xsd", "%00", "a=b.xsd", "-i", "--output", "-.xsd", "a,b;c.xsd", "A.xsd", "İ.xsd", "e\u{301}.xsd", "中文.xsd", "🦀.xsd", "a.xsd ", " a.xsd",
        "a..xsd", "a...", "...", "....", "0", "1.0", "v1.2.3.xsd", "tmp", "out", "in", "src", "a&b.xsd", "(a).xsd", "[a].xsd", "{a}.xsd", "!a.xsd", "@a.xsd", "+a.xsd", "a:b.xsd", "a|b.xsd", "<a>.xsd", "self.xsd", "r#a.xsd", "LICENSE", "Makefile",
        "a.rs.xsd", "a.xsd.rs", "output.xsd", "input.wsdl", "stdin", "-",
    ];
    ctx.bound(format!("names: files and directories with all names of up to {} characters over {:?} but those of two dots and an extension, {} odd names, and names of every length up to 255, found in a directory or given as input or output", len, alpha, odd.len()));
    ctx.explore(
        "names",
        0,
        |c| {
            let name: String = match c.choose(3) {
                0 => (0..1 + c.choose(len)).map(|_| *c.pick(&alpha)).collect(),
                1 => c.pick(&odd).to_string(),
                _ => {
                    let n = 1 + c.choose(255);
                    let s = "n".repeat(n);
                    if n > 4 && c.flag() {
                        s[4..].to_string() + ".xsd"
                    } else {
                        s
                    }
                }
            };
            // a stem which is a single dot has no other extension
            if name == "." || name.starts_with("..") && !name[2..].contains('.') {
                return None;
            }
            Some((name, c.choose(4)))
        },
        |x| hash64(x),
        |x| format!("{:?} as {}", x.0, ["a file of a directory", "a directory", "the input", "the output"][x.1]),
        |x| {
            let (name, how) = (x.0.as_str(), x.1);
            let b = lab.bench();
            let mut tree = Tree::new();
            add_dirs(&mut tree, "out");
            let long = output_name(name).len() > 255;
            let (code0, code3) = (texts[0].code.clone().unwrap(), texts[3].code.clone().unwrap());
            let mut want = Want { success: true, files: BTreeMap::new(), dirs: vec!["out".into()], stdout: None };
            let args = match how {
                0 => {
                    put(&mut tree, &format!("in/{}", name), Node::File(texts[0].bytes.clone()));
                    put(&mut tree, "in/zz.xsd", Node::File(texts[3].bytes.clone()));
                    want.files.insert("out/zz.rs".into(), code3);
                    if !long {
                        want.files.insert(format!("out/{}", output_name(name)), code0);
                    }
                    want.success = !long;
                    io("in", "out")
                }
                1 => {
                    put(&mut tree, &format!("in/{}/b.xsd", name), Node::File(texts[0].bytes.clone()));
                    put(&mut tree, &format!("in/{}/{}/c.xsd", name, name), Node::File(texts[3].bytes.clone()));
                    want.files.insert(format!("out/{}/b.rs", name), code0);
                    want.files.insert(format!("out/{}/{}/c.rs", name, name), code3);
                    io("in", "out")
                }
                2 => {
                    put(&mut tree, &format!("in/{}", name), Node::File(texts[0].bytes.clone()));
                    want.files.insert("out/x.rs".into(), code0);
                    io(&format!("in/{}", name), "out/x.rs")
                }
                _ => {
                    put(&mut tree, "in/a.xsd", Node::File(texts[0].bytes.clone()));
                    put(&mut tree, &format!("out/{}", name), Node::File(vec![b'/'; 30000]));
                    want.files.insert(format!("out/{}", name), code0);
                    io("in/a.xsd", &format!("out/{}", name))
                }
            };
            b.write(&tree);
            let r = b.run(&args, &[]);
            b.judge(&tree, &want, &r).map_err(|e| viol("names", format!("{:?} as {}", name, how), e.0, e.1))?;
            ok(1, if long { "too long" } else { "found" })
        },
    );
}

fn sizes(ctx: &Ctx, lab: &Lab, texts: &[Text]) {
    let th = ctx.thorough();
    let mut ns: Vec<usize> = (0..if th { 140 } else { 70 }).collect();
    ns.extend([100, 127, 128, 129, 200, 255, 256, 257, 300]);
    if th {
        ns.extend([500, 1000, 1025, 3000]);
    }
    ns.sort();
    ns.dedup();
    let base = text(&texts[0]).to_string();
    let nth = |i: usize| base.replace("Thing", &format!("Thing{}", i * 7919 % 10007));
    ctx.bound(format!("numbers: {} numbers up to {} of files in a directory, directories in a directory, directories within one another, directories with files, each file with its own content; once with an output which cannot be written", ns.len(), ns.last().unwrap()));
    ctx.explore(
        "numbers",
        0,
        |c| {
            let n = *c.pick(&ns);
            let k = c.choose(5);
            // a path has its limits
            if (k == 2 || k == 4) && n > 300 {
                return None;
            }
            Some((n, k))
        },
        |x| hash64(x),
        |x| format!("{} {}", x.0, ["files", "directories", "levels", "directories with two files", "files, the last output blocked"][x.1]),
        |x| {
            let (n, k) = *x;
            let b = lab.bench();
            let mut tree = Tree::new();
            add_dirs(&mut tree, "in");
            let mut want = Want { success: true, files: BTreeMap::new(), dirs: vec!["out".into()], stdout: None };
            let mut add = |p: String, i: usize| {
                let t = nth(i);
                let code = code_of(lab, &t).expect("harness: text");
                put(&mut tree, &format!("in/{}.xsd", p), Node::File(t.into_bytes()));
                want.files.insert(format!("out/{}.rs", p), code);
            };
            match k {
                0 | 4 => (0..n).for_each(|i| add(format!("file{}", i * 31 % 4099), i)),
                1 => (0..n).for_each(|i| add(format!("d{}/same", i * 31 % 4099), i)),
                2 => {
                    let mut at = String::new();
                    for i in 0..n {
                        add(format!("{}a", at), i);
                        at += "l/";
                    }
                }
                _ => (0..n).for_each(|i| {
                    add(format!("d{}/one", i * 31 % 4099), 2 * i);
                    add(format!("d{}/e/two", i * 31 % 4099), 2 * i + 1)
                }),
            }
            if k == 4 && n > 0 {
                let p = format!("out/file{}.rs", (n - 1) * 31 % 4099);
                want.files.remove(&p);
                want.success = false;
                add_dirs(&mut tree, &p);
            }
            b.write(&tree);
            let r = b.run(&io("in", "out"), &[]);
            b.judge(&tree, &want, &r).map_err(|e| viol("numbers", format!("{:?}", x), e.0, e.1))?;
            ok(1, "every file")
        },
    );
    let mut lens: Vec<usize> = (0..if th { 600 } else { 70 }).collect();
    for p in if th { 7..24 } else { 7..21 } {
        lens.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    lens.sort();
    lens.dedup();
    ctx.bound(format!("lengths: {} lengths up to {} of white space or comments before, within and after the document, of documentation in characters of 1, 2, 3 and 4 bytes, of names, and numbers of declarations up to 3000; to a file, a directory and standard output", lens.len(), lens.last().unwrap()));
    let marker = if lab.format == "xsd" { "</xs:schema>" } else { "</xs:schema>" };
    ctx.explore(
        "lengths",
        0,
        |c| {
            let n = *c.pick(&lens);
            let k = c.choose(9);
            if k == 8 && n > 3000 || k == 7 && n > 100_000 || (3..7).contains(&k) && n > 300_000 {
                return None;
            }
            Some((n, k, c.choose(3)))
        },
        |x| hash64(x),
        |x| format!("{} {} to {}", x.0, ["white space before", "comment within", "white space after", "é", "中", "🦀", "words", "a name", "declarations"][x.1], ["a file", "a directory", "standard output"][x.2]),
        |x| {
            let (n, k, to) = *x;
            let body = text(&texts[0]);
            let doc = |s: String| body.replacen(marker, &format!("<xs:simpleType name=\"Long\"><xs:annotation><xs:documentation>{}</xs:documentation></xs:annotation><xs:restriction base=\"xs:string\"/></xs:simpleType>{}", s, marker), 1);
            let t = match k {
                0 => format!("{}{}", " ".repeat(n), body.split_once("?>").map(|x| x.1).unwrap_or(body)),
                1 => body.replacen(marker, &format!("<!--{}-->{}", "c".repeat(n), marker), 1),
                2 => format!("{}{}", body, "\n".repeat(n)),
                3..=5 => doc(["é", "中", "🦀"][k - 3].repeat(n)),
                6 => doc((0..n / 7).map(|i| format!("word{:02} ", i % 100)).collect()),
                7 => body.replacen(marker, &format!("<xs:complexType name=\"T{}\"/>{}", "n".repeat(n), marker), 1),
                _ => body.replacen(marker, &format!("{}{}", (0..n).map(|i| format!("<xs:simpleType name=\"More{}\"><xs:restriction base=\"xs:int\"/></xs:simpleType>", i)).collect::<String>(), marker), 1),
            };
            let Some(code) = code_of(lab, &t) else { return Err(viol("lengths", format!("{:?}", x), "code", "the libraries refuse")) };
            let b = lab.bench();
            let mut tree = Tree::new();
            put(&mut tree, "in/a.xsd", Node::File(t.into_bytes()));
            put(&mut tree, "out/a.rs", Node::File(vec![b'/'; code.len().saturating_sub(3) + n % 7]));
            b.write(&tree);
            let (args, want) = match to {
                0 => (io("in/a.xsd", "out/a.rs"), Want::file("out/a.rs", Some(&code), true)),
                1 => (io("in", "out"), Want::file("out/a.rs", Some(&code), true)),
                _ => (vec!["-i".to_string(), "in/a.xsd".to_string()], Want::stdout(Some(&code))),
            };
            let r = b.run(&args, &[]);
            b.judge(&tree, &want, &r).map_err(|e| viol("lengths", format!("{:?}", x), e.0, e.1))?;
            ok(1, "complete")
        },
    );
}

fn around(ctx: &Ctx, lab: &Lab, texts: &[Text]) {
    let envs: [&[(&str, &str)]; 12] = [
        &[],
        &[("RUST_LOG", "trace")],
        &[("RUST_BACKTRACE", "full")],
        &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C")],
        &[("HOME", "/nowhere"), ("PATH", "")],
        &[("TMPDIR", "/nowhere")],
        &[("CLICOLOR_FORCE", "1"), ("TERM", "xterm-256color"), ("COLORTERM", "truecolor")],
        &[("NO_COLOR", "1"), ("COLUMNS", "20")],
        &[("INPUT", "other.xsd"), ("OUTPUT", "other.rs")],
        &[("XSD_PARSER_INPUT", "other.xsd"), ("WSDL_PARSER_OUTPUT", "other.rs"), ("OUT_DIR", "other"), ("CARGO_MANIFEST_DIR", "other")],
        &[("PWD", "/"), ("OLDPWD", "/tmp")],
        &[("DEBUG", "1"), ("VERBOSE", "1"), ("CI", "true")],
    ];
    ctx.bound(format!("surroundings: {} environments x 4 working directories x standard input empty or another schema x {} texts x a file, a directory or standard output, with other files lying about", envs.len(), texts.len()));
    ctx.explore(
        "surroundings",
        0,
        |c| Some((c.choose(envs.len()), c.choose(4), c.flag(), c.choose(texts.len()), c.choose(3))),
        |x| hash64(x),
        |x| format!("{:?}", x),
        |x| {
            let (e, d, input, t, to) = *x;
            let t = &texts[t];
            let b = lab.bench();
            let mut tree = Tree::new();
            put(&mut tree, "here/in/a.xsd", Node::File(t.bytes.clone()));
            put(&mut tree, "here/out/a.rs", Node::File(b"// old".to_vec()));
            for p in ["other.xsd", "here/other.xsd", "here/types.xsd", "types.xsd", "here/in.xsd", "here/a.xsd"] {
                put(&mut tree, p, Node::File(texts[1].bytes.clone()));
            }
            for p in ["here/other/keep.rs", "here/rustfmt.toml", "here/Cargo.toml", "here/.env", "here/.xsd-parser.toml", "here/output/rs/keep.rs", "here/output/wsdl-rs/keep.rs"] {
                put(&mut tree, p, Node::File(b"input = \"other.xsd\"\noutput = \"other.rs\"\nINPUT=other.xsd\n".to_vec()));
            }
            b.write(&tree);
            let (dir, pre) = match d {
                0 => (format!("{}/here", b.root), String::new()),
                1 => (format!("{}/here/in", b.root), "../".to_string()),
                2 => ("/".to_string(), format!("{}/here/", b.root)),
                _ => (b.root.clone(), "here/".to_string()),
            };
            let around = Around { dir: Some(dir), env: envs[e].to_vec(), stdin: input.then(|| "other.xsd".to_string()) };
            let (i, o) = match to {
                1 => (format!("{}in", pre), format!("{}out", pre)),
                _ => (format!("{}in/a.xsd", pre), format!("{}out/a.rs", pre)),
            };
            let (args, want) = if to == 2 { (vec!["-i".to_string(), i], Want::stdout(t.code.as_deref())) } else { (io(&i, &o), Want::file("here/out/a.rs", t.code.as_deref(), true)) };
            let r = b.run_in(&args, &[], &around);
            b.judge(&tree, &want, &r).map_err(|e| viol("surroundings", format!("{:?} {:?}", x, args), e.0, e.1))?;
            ok(1, "of no influence")
        },
    );
}
