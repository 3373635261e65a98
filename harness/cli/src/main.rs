//! C17, C18: histories of runs of the command-line tools over file trees, compared with a model of the
//! resulting tree.  The real executables, built from /repo, run as an unprivileged user inside scratch
//! directories which each case creates and removes.
#[path = "../../common/mc.rs"]
mod mc;
mod docs;
mod more;
mod tree;

use mc::*;
use std::collections::BTreeMap;
use tree::*;

pub fn lib_xsd(text: &str) -> Option<String> {
    guard(|| {
        let file = xsd_parser::parser::parse(text).ok()?;
        Some(xsd_parser::generator::builder::GeneratorBuilder::default().build().generate_rs_file(&file))
    })
    .ok()
    .flatten()
}

/// What one input file may hold, and the code it stands for.
#[derive(Clone)]
pub struct Text {
    pub what: &'static str,
    pub bytes: Vec<u8>,
    pub code: Option<String>,
}

pub fn xsd_texts() -> Vec<Text> {
    let s = |body: &str| format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:tns=\"http://example.com\" targetNamespace=\"http://example.com\">{}</xs:schema>", body);
    let ty = |n: &str| format!("<xs:complexType name=\"{0}\"><xs:annotation><xs:documentation>The {0} — é中</xs:documentation></xs:annotation><xs:sequence><xs:element name=\"a\" type=\"xs:int\"/></xs:sequence></xs:complexType>", n);
    let long: String = (0..60).map(|i| ty(&format!("Kind{}", i))).collect();
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![
        ("short", s(&ty("Thing")).into_bytes()),
        ("long", s(&long).into_bytes()),
        ("malformed", s(&ty("Thing")).replace("</xs:schema>", "").into_bytes()),
        ("other", format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<!-- c -->\r\n{}\r\n", s("<xs:simpleType name=\"Mode\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"On\"/></xs:restriction></xs:simpleType>")).into_bytes()),
        ("empty schema", s("").into_bytes()),
        ("empty file", vec![]),
        ("not UTF-8", { let mut b = s(&ty("Thing")).into_bytes(); let n = b.len(); b.insert(n - 12, 0xff); b }),
        ("no XML", b"# Notes\nnot a schema\n".to_vec()),
        ("cut short", { let b = s(&long).into_bytes(); b[..b.len() / 2].to_vec() }),
        ("derived", s(&format!("{}<xs:complexType name=\"Ext\"><xs:complexContent><xs:extension base=\"tns:Thing\"><xs:attribute name=\"x\" type=\"xs:string\"/></xs:extension></xs:complexContent></xs:complexType>", ty("Thing"))).into_bytes()),
    ];
    v.drain(..).map(|(what, bytes)| Text { what, code: std::str::from_utf8(&bytes).ok().and_then(lib_xsd), bytes }).collect()
}

fn main() {
    let ctx = Ctx::from_args();
    ctx.assume("the executables are built from /repo's working tree by check.sh and run unmodified; file contents, exit status and standard output are what is observed");
    let wsdl = match ctx.prop.as_str() {
        "C17" => false,
        "C18" => true,
        p => {
            eprintln!("no check for {}", p);
            std::process::exit(2)
        }
    };
    let texts = if wsdl { docs::wsdl_texts() } else { xsd_texts() };
    let lab = Lab::new(&ctx, if wsdl { "wsdl-parser" } else { "xsd-parser" });
    assert!(texts[0].code.is_some() && texts[1].code.is_some() && texts[2].code.is_none(), "texts");
    if wsdl {
        docs::embedded(&ctx, &lab);
        docs::many(&ctx, &lab);
    }
    single(&ctx, &lab, &texts);
    trees(&ctx, &lab, &texts);
    histories(&ctx, &lab, &texts);
    faults(&ctx, &lab, &texts);
    more::explore(&ctx, &lab, &texts);
    lab.close();
    ctx.finish()
}

const OLD_LONG: &[u8] = &[b'/'; 60000];

/// Old contents of an output: longer than anything generated, short, empty, or the file is not there.
fn old(k: usize) -> Option<Node> {
    match k {
        0 => None,
        1 => Some(Node::File(OLD_LONG.to_vec())),
        2 => Some(Node::File(b"// old\n".to_vec())),
        _ => Some(Node::File(vec![])),
    }
}

fn single(ctx: &Ctx, lab: &Lab, texts: &[Text]) {
    let paths = ["in.xsd", "./in.xsd", "dir/some schema.v1.xsd", "é/中.xml", "noext", "ABS/dir/in.xsd", "dir/../in.xsd", "-odd.xsd"];
    let outs = ["", "out.rs", "new/out.rs", "there/out.rs", "out dir/é.txt", "a-directory", "ABS/there/abs.rs", "full", "noext-out", "there/link.rs"];
    ctx.bound(format!("single files: {} contents x {} input paths x {} outputs (standard output, absent, in missing directories, a directory, a full device, a link) x 4 old contents x 4 ways to write the options", texts.len(), paths.len(), outs.len()));
    ctx.explore(
        "single files",
        0,
        |c| {
            let t = c.choose(texts.len());
            let p = c.choose(if t < 3 { paths.len() } else { 1 });
            let o = c.choose(outs.len());
            let k = if o == 0 || outs[o] == "a-directory" || outs[o] == "full" || outs[o].starts_with("new") { 0 } else { c.choose(if t < 3 && p < 3 { 4 } else { 2 }) };
            let flags = c.choose(if p < 2 { 4 } else { 1 });
            if paths[p].starts_with('-') && flags != 0 {
                return None;
            }
            // writing nothing to a full device succeeds
            if outs[o] == "full" && texts[t].code.as_deref() == Some("") {
                return None;
            }
            Some((t, p, o, k, flags))
        },
        |x| hash64(x),
        |x| format!("input {} holding {}, output {:?}, {}, flags {}", paths[x.1], texts[x.0].what, outs[x.2], ["absent", "old longer", "old shorter", "old empty"][x.3], x.4),
        |x| {
            let (t, p, o, k, flags) = *x;
            let b = lab.bench();
            let mut tree = Tree::new();
            put(&mut tree, "there/keep.txt", Node::File(b"keep".to_vec()));
            put(&mut tree, "out dir/keep.txt", Node::File(b"keep".to_vec()));
            put(&mut tree, "a-directory/keep.txt", Node::File(b"keep".to_vec()));
            tree.insert("dir".into(), Node::Dir);
            if outs[o] == "full" {
                tree.insert("full".into(), Node::Link("/dev/full".into()));
            }
            let inp = norm(paths[p]);
            put(&mut tree, &inp, Node::File(texts[t].bytes.clone()));
            let outp = norm(outs[o]);
            if outs[o] == "there/link.rs" {
                tree.insert("there/link.rs".into(), Node::Link("target.rs".into()));
                tree.insert("there/target.rs".into(), Node::File(b"// old".to_vec()));
            } else if let Some(n) = old(k) {
                put(&mut tree, &outp, n);
            }
            let abs = |s: &str| s.replacen("ABS/", &format!("{}/", b.root), 1);
            let (i, out) = (abs(paths[p]), abs(outs[o]));
            let mut args: Vec<String> = match flags {
                0 => vec![format!("--input={}", i)],
                1 => vec!["-i".into(), i],
                2 => vec!["--input".into(), i],
                _ => vec![format!("-i{}", i)],
            };
            if o > 0 {
                let mut a = match flags {
                    0 => vec![format!("--output={}", out)],
                    1 => vec!["-o".into(), out],
                    2 => vec!["--output".into(), out],
                    _ => vec![format!("-o{}", out)],
                };
                if flags == 1 {
                    a.extend(std::mem::take(&mut args));
                    args = a;
                } else {
                    args.extend(a);
                }
            }
            b.write(&tree);
            let want = if o == 0 {
                Want::stdout(texts[t].code.as_deref())
            } else {
                let fits = match outs[o] {
                    "a-directory" | "full" => false,
                    s => !s.starts_with("new/"),
                };
                let real = if outs[o] == "there/link.rs" { "there/target.rs".to_string() } else { outp };
                Want::file(&real, texts[t].code.as_deref(), fits)
            };
            let r = b.run(&args, &[]);
            b.judge(&tree, &want, &r).map_err(|e| viol("single", format!("{} {:?} with {} ({})", lab.name, args, texts[t].what, ["absent", "longer", "shorter", "empty"][k]), e.0, e.1))?;
            ok(1, if r.success { "generated" } else { "refused" })
        },
    );
    ctx.bound("missing inputs, no arguments, unknown arguments");
    ctx.explore(
        "missing inputs",
        0,
        |c| Some((c.choose(5), c.flag())),
        |x| hash64(x),
        |x| format!("{:?}", x),
        |x| {
            let b = lab.bench();
            let mut tree = Tree::new();
            put(&mut tree, "there/out.rs", Node::File(b"// old".to_vec()));
            if x.0 == 4 {
                tree.insert("gone.xsd".into(), Node::Link("nowhere".into()));
            }
            b.write(&tree);
            let mut args: Vec<String> = match x.0 {
                0 => vec![],
                1 => vec!["-i".into(), "missing.xsd".into()],
                2 => vec!["-i".into(), "there/missing.xsd".into()],
                3 => vec!["--no-such-option".into()],
                _ => vec!["-i".into(), "gone.xsd".into()],
            };
            if x.1 {
                args.extend(["-o".to_string(), "there/out.rs".to_string()]);
            }
            let r = b.run(&args, &[]);
            b.judge(&tree, &Want::failure(), &r).map_err(|e| viol("missing", format!("{:?}", args), e.0, e.1))?;
            ok(1, "refused")
        },
    );
}

/// Slots of the input tree, with the output each of them has.
const SLOTS: [(&str, &str); 3] = [("a.xsd", "a.rs"), ("sub/b c.v2.wsdl", "sub/b c.v2.rs"), ("sub/deep.er/é", "sub/deep.er/é.rs")];

#[derive(Clone, Copy, Hash, PartialEq, Eq, Debug)]
struct Setup {
    /// per slot: 0 absent, 1.. text, 100 locked, 101 link
    ins: [usize; 3],
    olds: [usize; 3],
}
fn slot_node(k: usize, texts: &[Text]) -> Option<Node> {
    match k {
        0 => None,
        100 => Some(Node::Locked(texts[0].bytes.clone())),
        101 => Some(Node::Link("ROOT/elsewhere.xsd".into())),
        k => Some(Node::File(texts[k - 1].bytes.clone())),
    }
}
fn slot_code(k: usize, texts: &[Text]) -> Option<&str> {
    match k {
        0 | 100 => None,
        101 => texts[1].code.as_deref(),
        k => texts[k - 1].code.as_deref(),
    }
}

/// What a run over the directory should do.
fn want_dir(ins: &[usize; 3], texts: &[Text], out: &str, extra_dirs: &[&str]) -> Want {
    let mut w = Want { success: true, files: BTreeMap::new(), dirs: vec![out.to_string()], stdout: None };
    for (i, (inp, o)) in SLOTS.iter().enumerate() {
        if ins[i] == 0 {
            continue;
        }
        if let Some((d, _)) = inp.rsplit_once('/') {
            w.dirs.push(format!("{}/{}", out, d));
        }
        match slot_code(ins[i], texts) {
            Some(c) => {
                w.files.insert(format!("{}/{}", out, o), c.to_string());
            }
            None => w.success = false,
        }
    }
    for d in extra_dirs {
        w.dirs.push(format!("{}/{}", out, d));
    }
    w
}

fn dir_tree(ins: &[usize; 3], texts: &[Text], input: &str) -> Tree {
    let mut tree = Tree::new();
    add_dirs(&mut tree, input);
    put(&mut tree, "elsewhere.xsd", Node::File(texts[1].bytes.clone()));
    put(&mut tree, "unrelated/keep.rs", Node::File(b"keep".to_vec()));
    for (i, (inp, _)) in SLOTS.iter().enumerate() {
        if let Some(n) = slot_node(ins[i], texts) {
            put(&mut tree, &format!("{}/{}", input, inp), n);
        }
    }
    tree
}

fn trees(ctx: &Ctx, lab: &Lab, texts: &[Text]) {
    let th = ctx.thorough();
    let mut kinds: Vec<usize> = vec![0, 1, 2, 3, 101];
    if lab.unprivileged {
        kinds.push(100);
    }
    if th {
        kinds.extend(4..=texts.len());
    }
    ctx.bound(format!("trees: 3 places in 3 levels, each absent, a link, locked or one of {} texts; each output absent, longer, shorter or empty before", kinds.len()));
    ctx.explore(
        "trees",
        0,
        |c| {
            let mut s = Setup { ins: [0; 3], olds: [0; 3] };
            for i in 0..3 {
                s.ins[i] = *c.pick(&kinds);
            }
            for i in 0..3 {
                s.olds[i] = c.choose(if th { 4 } else { 3 });
            }
            Some(s)
        },
        |s| hash64(s),
        |s| format!("inputs {:?} old outputs {:?}", s.ins, s.olds),
        |s| {
            let b = lab.bench();
            let mut tree = dir_tree(&s.ins, texts, "in");
            for i in 0..3 {
                if let Some(n) = old(s.olds[i]) {
                    put(&mut tree, &format!("out/{}", SLOTS[i].1), n);
                }
            }
            b.write(&tree);
            let r = b.run(&["-i".into(), "in".into(), "-o".into(), "out".into()], &[]);
            b.judge(&tree, &want_dir(&s.ins, texts, "out", &[]), &r).map_err(|e| viol("tree", format!("inputs {:?} old outputs {:?}", s.ins, s.olds), e.0, e.1))?;
            ok(1, if r.success { "mirrored" } else { "refused" })
        },
    );
    let default = (format!("input/{}", lab.format), format!("output/{}", if lab.format == "xsd" { "rs" } else { "wsdl-rs" }));
    let ins = ["in", "in/", "./in", "ABS/in", "a b/é", ""];
    let outs = ["out", "out/", "ABS/new/er/out", "o p/é.d", "blocked-file", "blocked-inside", "blocked-dir", ""];
    ctx.bound(format!("directory arguments: {} ways to name the input directory x {} outputs (absent, nested, occupied by files or directories, default) x empty directories x {} inputs", ins.len(), outs.len(), 4));
    ctx.explore(
        "directory arguments",
        0,
        |c| Some((c.choose(ins.len()), c.choose(outs.len()), c.choose(4), c.choose(3))),
        |x| hash64(x),
        |x| format!("input {:?}, output {:?}, setup {}, empty directories {}", ins[x.0], outs[x.1], x.2, x.3),
        |x| {
            let b = lab.bench();
            let set = [[1, 2, 4], [1, 0, 0], [0, 0, 1], [2, 3, 1]][x.2];
            let input = if ins[x.0].is_empty() { default.0.clone() } else { norm(ins[x.0]) };
            let output = if outs[x.1].is_empty() { default.1.clone() } else { norm(outs[x.1]) };
            let mut tree = dir_tree(&set, texts, &input);
            let mut extra = vec![];
            if x.3 > 0 {
                extra.push("empty");
                add_dirs(&mut tree, &format!("{}/empty", input));
            }
            if x.3 > 1 {
                extra.push("empty/inner.x");
                add_dirs(&mut tree, &format!("{}/empty/inner.x", input));
            }
            let mut want = want_dir(&set, texts, &output, &extra);
            match outs[x.1] {
                "blocked-file" => {
                    put(&mut tree, &output, Node::File(b"in the way".to_vec()));
                    want = Want { success: false, files: BTreeMap::new(), dirs: vec![], stdout: None };
                }
                "blocked-inside" => {
                    put(&mut tree, &format!("{}/sub", output), Node::File(b"in the way".to_vec()));
                    if set[1] != 0 || set[2] != 0 {
                        want.success = false;
                        want.files.retain(|f, _| !f.contains("/sub/"));
                        want.dirs.retain(|f| !f.contains("/sub"));
                    }
                }
                "blocked-dir" => {
                    add_dirs(&mut tree, &format!("{}/a.rs/x", output));
                    if set[0] != 0 {
                        want.success = false;
                        want.files.retain(|f, _| !f.ends_with("/a.rs"));
                    }
                }
                _ => {}
            }
            b.write(&tree);
            let mut args = vec![];
            let abs = |s: &str| s.replacen("ABS/", &format!("{}/", b.root), 1);
            if !ins[x.0].is_empty() {
                args.extend(["-i".to_string(), abs(ins[x.0])]);
            }
            if !outs[x.1].is_empty() {
                args.extend(["-o".to_string(), abs(outs[x.1])]);
            }
            let r = b.run(&args, &[]);
            b.judge(&tree, &want, &r).map_err(|e| viol("directory", format!("{:?} over inputs {:?}", args, set), e.0, e.1))?;
            ok(1, if r.success { "mirrored" } else { "refused" })
        },
    );
}

/// Runs with edits of the inputs in between.
fn histories(ctx: &Ctx, lab: &Lab, texts: &[Text]) {
    let th = ctx.thorough();
    let runs = if th { 4 } else { 3 };
    let kinds: &[usize] = if th { &[0, 1, 2, 3, 4] } else { &[0, 1, 2, 3] };
    ctx.bound(format!("histories: {} runs over a tree of {} places, before each run but the first one place changed to absent, one of {} texts (valid or malformed), or an output removed; all states of all runs compared", runs, if th { 3 } else { 2 }, kinds.len() - 1));
    let places = if th { 3 } else { 2 };
    ctx.explore(
        "histories",
        0,
        |c| {
            let mut ins = [0usize; 3];
            for i in 0..places {
                ins[(i + 3 - places) % 3] = *c.pick(kinds);
            }
            let edits: Vec<(usize, usize)> = (0..runs - 1).map(|_| (3 - places + c.choose(places), c.choose(kinds.len() + 1))).collect();
            Some((ins, edits))
        },
        |x| hash64(x),
        |x| format!("inputs {:?}, edits (place, content) {:?}", x.0, x.1),
        |x| {
            let (mut ins, edits) = x.clone();
            let b = lab.bench();
            let mut tree = dir_tree(&ins, texts, "in");
            b.write(&tree);
            for step in 0..runs {
                if step > 0 {
                    let (p, k) = edits[step - 1];
                    let (ip, op) = (format!("in/{}", SLOTS[p].0), format!("out/{}", SLOTS[p].1));
                    if k == kinds.len() {
                        tree.remove(&op);
                        b.remove(&op);
                    } else {
                        ins[p] = kinds[k];
                        tree.remove(&ip);
                        b.remove(&ip);
                        if let Some(n) = slot_node(ins[p], texts) {
                            b.put(&ip, &n);
                            put(&mut tree, &ip, n);
                        }
                    }
                }
                let r = b.run(&["-i".into(), "in".into(), "-o".into(), "out".into()], &[]);
                // directories whose files are gone are mirrored as well
                let dirs: Vec<String> = tree.iter().filter(|(p, n)| **n == Node::Dir && p.starts_with("in/")).map(|(p, _)| p[3..].to_string()).collect();
                let want = want_dir(&ins, texts, "out", &dirs.iter().map(|s| s.as_str()).collect::<Vec<_>>());
                tree = b.judge(&tree, &want, &r).map_err(|e| viol("history", format!("run {} of inputs {:?} edits {:?}", step, x.0, edits), e.0, e.1))?;
            }
            ok(runs as u64, "every run as predicted")
        },
    );
}

/// System calls which fail, transfer less than asked, are interrupted, or never return.
fn faults(ctx: &Ctx, lab: &Lab, texts: &[Text]) {
    let th = ctx.thorough();
    let n = if th { 40 } else { 12 };
    // EINTR, EIO, ENOSPC, EACCES, EMFILE; 0 kills the process
    let actions = [0, 4, 5, 28, 13, 24];
    let shorts = [0, 1, 7, 4096];
    ctx.bound(format!("faults: each of the first {} opens, reads, writes and directory creations fails ({} errors), is interrupted, or kills the tool, with transfers of at most 1, 7, 4096 or any number of bytes, for one file, standard output and a directory; each followed by a run without faults", n, actions.len() - 2));
    ctx.explore(
        "faults",
        0,
        |c| {
            let mode = c.choose(3);
            let short = c.choose(shorts.len());
            let op = c.choose(5);
            if op == 4 {
                return if short == 0 { None } else { Some((mode, short, op, 0, 0)) };
            }
            let at = c.choose(n);
            let action = c.choose(actions.len());
            if op == 3 && mode != 2 {
                return None;
            }
            Some((mode, short, op, at, action))
        },
        |x| hash64(x),
        |x| format!("{} with transfers of at most {} bytes, {} {} fails with {}", ["one file", "standard output", "a directory"][x.0], shorts[x.1], ["open", "read", "write", "mkdir", "nothing"][x.2], x.3, actions[x.4]),
        |x| {
            let (mode, short, op, at, action) = *x;
            let b = lab.bench();
            let ins = [1, 2, 1];
            let mut tree = dir_tree(&ins, texts, "in");
            put(&mut tree, "out/a.rs", Node::File(OLD_LONG.to_vec()));
            b.write(&tree);
            let (args, want): (Vec<String>, Want) = match mode {
                0 => (vec!["-i".into(), "elsewhere.xsd".into(), "-o".into(), "out/a.rs".into()], Want::file("out/a.rs", texts[1].code.as_deref(), true)),
                1 => (vec!["-i".into(), "elsewhere.xsd".into()], Want::stdout(texts[1].code.as_deref())),
                _ => (vec!["-i".into(), "in".into(), "-o".into(), "out".into()], want_dir(&ins, texts, "out", &[])),
            };
            let mut env = vec![];
            if short > 0 {
                env.push(("MC_SHORT", shorts[short].to_string()));
            }
            if op < 4 {
                env.push(("MC_FAULT", format!("{}:{}:{}", ["o", "r", "w", "m"][op], at, actions[action])));
            }
            let r = b.run(&args, &env);
            let harmless = op == 4 || actions[action] == 4 && (op == 1 || op == 2);
            let say = |e: (String, String)| viol("fault", format!("{:?}: {:?} {:?}", x, args, env), e.0, e.1);
            if r.success || harmless {
                // whatever went wrong did not keep the tool from finishing
                b.judge(&tree, &want, &r).map_err(say)?;
            } else {
                b.judge_failed(&tree, &want, &r).map_err(say)?;
            }
            let tree = b.read();
            let r2 = b.run(&args, &[]);
            b.judge(&tree, &want, &r2).map_err(|e| viol("fault", format!("second run after {:?}: {:?} {:?}", x, args, env), e.0, e.1))?;
            ok(2, if r.success { "not affected" } else if action == 0 { "killed, then repaired" } else { "reported, then repaired" })
        },
    );
}
