//! Scratch file trees, runs of the tool in them, and the comparison with what a run should do.
use crate::mc::*;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    /// a file the tool may not read
    Locked(Vec<u8>),
    Link(String),
}
/// Path below the root -> what is there
pub type Tree = BTreeMap<String, Node>;

pub fn norm(p: &str) -> String {
    let p = p.strip_prefix("ABS/").unwrap_or(p);
    let mut v: Vec<&str> = vec![];
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            s => v.push(s),
        }
    }
    v.join("/")
}
pub fn add_dirs(t: &mut Tree, d: &str) {
    let mut at = String::new();
    for s in d.split('/') {
        if !at.is_empty() {
            at.push('/');
        }
        at += s;
        t.entry(at.clone()).or_insert(Node::Dir);
    }
}
pub fn put(t: &mut Tree, p: &str, n: Node) {
    if let Some((d, _)) = p.rsplit_once('/') {
        add_dirs(t, d);
    }
    t.insert(p.into(), n);
}

/// What a run should do.
#[derive(Debug, Clone)]
pub struct Want {
    pub success: bool,
    /// outputs and their complete new contents
    pub files: BTreeMap<String, String>,
    pub dirs: Vec<String>,
    pub stdout: Option<String>,
}
impl Want {
    pub fn failure() -> Want {
        Want { success: false, files: BTreeMap::new(), dirs: vec![], stdout: None }
    }
    pub fn stdout(code: Option<&str>) -> Want {
        Want { success: code.is_some(), files: BTreeMap::new(), dirs: vec![], stdout: code.map(|c| c.to_string()) }
    }
    pub fn file(path: &str, code: Option<&str>, fits: bool) -> Want {
        match code {
            Some(c) if fits => Want { success: true, files: [(path.to_string(), c.to_string())].into(), dirs: vec![], stdout: None },
            _ => Want::failure(),
        }
    }
}

pub struct Ran {
    pub success: bool,
    pub code: String,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

pub struct Lab {
    pub dir: String,
    pub name: &'static str,
    pub format: &'static str,
    pub unprivileged: bool,
    next: AtomicUsize,
}
extern "C" {
    fn umask(m: u32) -> u32;
    fn geteuid() -> u32;
}
const NOBODY: u32 = 65534;

impl Lab {
    pub fn new(ctx: &Ctx, name: &'static str) -> Lab {
        unsafe { umask(0) };
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let dir = format!("{}/climc-{}-{}", base, name, std::process::id());
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let exe = format!("{}/target/repo/release/{}", ctx.verif, name);
        std::fs::copy(&exe, format!("{}/tool", dir)).expect("tool built by check.sh");
        std::fs::set_permissions(format!("{}/tool", dir), std::fs::Permissions::from_mode(0o755)).unwrap();
        std::fs::write(format!("{}/shim.c", dir), include_str!("shim.c")).unwrap();
        let o = Command::new("gcc").args(["-O1", "-w", "-shared", "-fPIC", "-o"]).arg(format!("{}/shim.so", dir)).arg(format!("{}/shim.c", dir)).arg("-ldl").output().expect("gcc");
        assert!(o.status.success(), "shim: {}", String::from_utf8_lossy(&o.stderr));
        let mut lab = Lab { dir, name, format: if name == "xsd-parser" { "xsd" } else { "wsdl" }, unprivileged: false, next: AtomicUsize::new(0) };
        // run as another user where that is possible, so that permissions mean something
        if unsafe { geteuid() } == 0 {
            lab.unprivileged = Command::new(format!("{}/tool", lab.dir)).arg("--version").uid(NOBODY).gid(NOBODY).stdout(Stdio::null()).stderr(Stdio::null()).status().map(|s| s.success()).unwrap_or(false);
        }
        ctx.bound(if lab.unprivileged { "the tool runs as an unprivileged user" } else { "the tool runs as the user of the check; no cases of missing permission" });
        lab
    }
    pub fn bench(&self) -> Bench<'_> {
        let root = format!("{}/case{}", self.dir, self.next.fetch_add(1, Relaxed));
        std::fs::create_dir(&root).unwrap();
        std::fs::set_permissions(&root, std::fs::Permissions::from_mode(0o777)).unwrap();
        Bench { lab: self, root }
    }
    pub fn close(&self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
impl Drop for Lab {
    fn drop(&mut self) {
        self.close();
    }
}

/// Where and with what a run takes place.
#[derive(Default)]
pub struct Around {
    pub dir: Option<String>,
    pub env: Vec<(&'static str, &'static str)>,
    /// a file which is the standard input
    pub stdin: Option<String>,
}
pub struct Bench<'a> {
    lab: &'a Lab,
    pub root: String,
}
impl Drop for Bench<'_> {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}
fn first_difference(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let show = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 60).min(v.len())]).into_owned();
    format!("{} bytes instead of {}, differing at {}: {:?} instead of {:?}", b.len(), a.len(), i, show(b), show(a))
}
impl Bench<'_> {
    pub fn write(&self, t: &Tree) {
        for (p, n) in t {
            self.put(p, n);
        }
    }
    pub fn put(&self, p: &str, n: &Node) {
        let f = format!("{}/{}", self.root, p);
        if let Some((d, _)) = f.rsplit_once('/') {
            std::fs::create_dir_all(d).unwrap();
        }
        match n {
            Node::Dir => std::fs::create_dir_all(&f).unwrap(),
            Node::File(b) => std::fs::write(&f, b).unwrap(),
            Node::Locked(b) => {
                std::fs::write(&f, b).unwrap();
                std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0)).unwrap();
            }
            Node::Link(to) => std::os::unix::fs::symlink(to.replace("ROOT", &self.root), &f).unwrap(),
        }
    }
    pub fn remove(&self, p: &str) {
        let _ = std::fs::remove_file(format!("{}/{}", self.root, p));
    }
    pub fn read(&self) -> Tree {
        let mut t = Tree::new();
        self.read_into(&mut t, "");
        t
    }
    fn read_into(&self, t: &mut Tree, d: &str) {
        for e in std::fs::read_dir(format!("{}/{}", self.root, d)).unwrap() {
            let e = e.unwrap();
            let n = e.file_name().to_string_lossy().into_owned();
            let p = if d.is_empty() { n } else { format!("{}/{}", d, n) };
            let ty = e.file_type().unwrap();
            if ty.is_symlink() {
                t.insert(p, Node::Link(std::fs::read_link(e.path()).unwrap().to_string_lossy().replace(&self.root, "ROOT")));
            } else if ty.is_dir() {
                self.read_into(t, &p);
                t.insert(p, Node::Dir);
            } else {
                let b = std::fs::read(e.path()).unwrap_or_else(|e| format!("unreadable: {}", e).into_bytes());
                let locked = e.metadata().unwrap().permissions().mode() & 0o777 == 0;
                t.insert(p, if locked { Node::Locked(b) } else { Node::File(b) });
            }
        }
    }
    pub fn run(&self, args: &[String], env: &[(&str, String)]) -> Ran {
        self.run_in(args, env, &Around::default())
    }
    pub fn run_in(&self, args: &[String], env: &[(&str, String)], around: &Around) -> Ran {
        let mut c = Command::new(format!("{}/tool", self.lab.dir));
        c.args(args).current_dir(around.dir.as_deref().unwrap_or(&self.root)).env_clear().env("RUST_BACKTRACE", "0").stdin(Stdio::null());
        c.envs(around.env.iter().copied());
        if let Some(f) = &around.stdin {
            c.stdin(std::fs::File::open(format!("{}/{}", self.root, f)).unwrap());
        }
        if !env.is_empty() {
            c.env("LD_PRELOAD", format!("{}/shim.so", self.lab.dir)).env("MC_ROOT", &self.root);
            for (k, v) in env {
                c.env(k, v);
            }
        }
        if self.lab.unprivileged {
            c.uid(NOBODY).gid(NOBODY);
        }
        let o = c.output().expect("tool runs");
        Ran { success: o.status.success(), code: format!("{}", o.status), stdout: o.stdout, stderr: String::from_utf8_lossy(&o.stderr).chars().take(300).collect() }
    }

    fn status(&self, r: &Ran) -> String {
        format!("{} {}", r.code, r.stderr)
    }

    /// The tree after the run must be what the run should have made of the tree before; returns it.
    pub fn judge(&self, before: &Tree, want: &Want, r: &Ran) -> Result<Tree, (String, String)> {
        let after = self.read();
        if r.success != want.success {
            return Err((if want.success { "success" } else { "a failure status" }.into(), self.status(r)));
        }
        let out = want.stdout.clone().unwrap_or_default();
        let got = String::from_utf8_lossy(&r.stdout).into_owned();
        if got.trim_end_matches('\n') != out.trim_end_matches('\n') {
            return Err(("the code on standard output".into(), first_difference(out.as_bytes(), got.as_bytes())));
        }
        self.compare(before, want, &after, !r.success, false)?;
        Ok(after)
    }
    /// After a fault: everything the tool did not get to is as before; what it wrote is new, and at most one output is torn.
    pub fn judge_failed(&self, before: &Tree, want: &Want, r: &Ran) -> Result<Tree, (String, String)> {
        let after = self.read();
        let out = want.stdout.clone().unwrap_or_default();
        if !(out.clone() + "\n").as_bytes().starts_with(&r.stdout) {
            return Err(("the beginning of the code on standard output".into(), first_difference(out.as_bytes(), &r.stdout)));
        }
        self.compare(before, want, &after, true, true)?;
        Ok(after)
    }
    fn compare(&self, before: &Tree, want: &Want, after: &Tree, partial: bool, fault: bool) -> Result<(), (String, String)> {
        let mut torn = 0;
        let mut dirs: Vec<String> = vec![];
        for d in want.dirs.iter().map(|d| d.as_str()).chain(want.files.keys().filter_map(|f| f.rsplit_once('/').map(|x| x.0))) {
            let mut t = Tree::new();
            add_dirs(&mut t, d);
            dirs.extend(t.into_keys());
        }
        let mut paths: Vec<&String> = before.keys().chain(after.keys()).chain(want.files.keys()).chain(&dirs).collect();
        paths.sort();
        paths.dedup();
        for p in paths {
            let (b, a) = (before.get(p), after.get(p));
            if let Some(code) = want.files.get(p) {
                let new = Node::File(code.clone().into_bytes());
                if a == Some(&new) || (partial && a == b) {
                    continue;
                }
                if fault && torn == 0 {
                    if let Some(Node::File(got)) = a {
                        if code.as_bytes().starts_with(got) {
                            torn += 1;
                            continue;
                        }
                    }
                }
                let got = match a {
                    Some(Node::File(got)) => first_difference(code.as_bytes(), got),
                    a => format!("{:?}", a),
                };
                return Err((format!("{} holds exactly the generated code", p), got));
            }
            if dirs.contains(p) && b.is_none() {
                if a == Some(&Node::Dir) || (partial && a.is_none()) {
                    continue;
                }
                return Err((format!("directory {}", p), format!("{:?}", a)));
            }
            if a != b {
                let show = |n: Option<&Node>| match n {
                    Some(Node::File(f)) => format!("a file {:?}...", String::from_utf8_lossy(&f[..f.len().min(80)])),
                    n => format!("{:?}", n),
                };
                return Err((format!("{} as before: {}", p, show(b)), show(a)));
            }
        }
        Ok(())
    }
}
