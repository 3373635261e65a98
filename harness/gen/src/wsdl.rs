//! C16: functions generated from a WSDL.
use crate::docs::words_of;
use crate::ir::{comments, toks};
use crate::mc::*;
use crate::model::*;
use crate::names::KEYWORDS;
use crate::*;

#[derive(Clone, Debug)]
pub struct Msg {
    pub name: String,
    /// element in the target namespace, or in another one
    pub own: bool,
    pub local: String,
    pub by_type: bool,
}
#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub input: usize,
    pub output: Option<usize>,
    pub faults: usize,
    pub doc: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Wsdl {
    pub layout: usize,
    pub msgs: Vec<Msg>,
    pub ports: Vec<(String, Vec<Op>)>,
    /// order of the top-level sections; see `render`
    pub order: Vec<usize>,
    /// text put between any two elements
    pub gap: &'static str,
    pub names: bool,
    pub types: Vec<String>,
    /// how attributes are written: plain, or one of `ATTRS`
    pub attrs: usize,
}
/// Ways to write attributes: white space around values, single quotes, attributes of another namespace before or after.
const ATTRS: usize = 9;
fn write_attrs(text: String, how: usize) -> String {
    if how == 0 {
        return text;
    }
    let mut o = String::new();
    let mut rest = text.as_str();
    while !rest.is_empty() {
        let hit = ["name", "message", "element", "type"].iter().filter_map(|a| rest.find(&format!(" {}=\"", a)).map(|i| (i, *a))).min();
        let Some((i, a)) = hit else { break };
        // comments stay as they are
        if let Some(c) = rest.find("<!--") {
            if c < i {
                let e = rest.find("-->").unwrap() + 3;
                o += &rest[..e];
                rest = &rest[e..];
                continue;
            }
        }
        o += &rest[..i];
        let v = &rest[i + a.len() + 3..];
        let end = v.find('"').unwrap();
        let value = &v[..end];
        o += &match how {
            1 => format!(" {}=\" {} \"", a, value),
            2 => format!(" {}=\"{}\n\t\"", a, value),
            3 => format!(" {}=\"\r\n  {}\"", a, value),
            4 => format!(" {}='{}'", a, value),
            5 => format!("\n\t{}\n=\n\"{}\"\n", a, value),
            6 => format!(" xmlns:extension=\"urn:e\" extension:{0}=\"tds:wrong\" {0}=\"{1}\"", a, value),
            7 => format!(" {0}=\"{1}\" ext{0}=\"tds:wrong\" x{0}.more=\"other\"", a, value),
            _ => format!(" {}=\"{}\"", a, value.chars().map(|c| if c == '&' { "&".into() } else if c.is_ascii_alphabetic() && !value.contains('&') { format!("&#x{:X};", c as u32) } else { c.to_string() }).collect::<String>()),
        };
        rest = &v[end + 1..];
    }
    // an element has one declaration of a prefix only
    o += rest;
    if how == 6 {
        let mut t = String::new();
        for (k, tag) in o.split('<').enumerate() {
            if k > 0 {
                t.push('<');
            }
            match tag.find(" xmlns:extension=\"urn:e\"") {
                Some(i) if !tag.starts_with('!') => {
                    t += &tag[..i + 24];
                    t += &tag[i + 24..].replace(" xmlns:extension=\"urn:e\"", "");
                }
                _ => t += tag,
            }
        }
        return t;
    }
    o
}
/// wsdl prefix, prefixes of the target namespace (first is used for elements, second for messages), prefix of another namespace
pub struct Layout {
    pub wsdl: Option<&'static str>,
    pub target: &'static [Option<&'static str>],
    pub refs: (Option<&'static str>, Option<&'static str>),
    pub other: &'static str,
    pub declared: bool,
    /// the other namespace is declared on the message parts only, or before the rest
    pub reverse: bool,
}
pub const LAYOUTS: &[Layout] = &[
    Layout { wsdl: Some("wsdl"), target: &[Some("tds")], refs: (Some("tds"), Some("tds")), other: "tt", declared: true, reverse: false },
    Layout { wsdl: None, target: &[Some("tns")], refs: (Some("tns"), Some("tns")), other: "tt", declared: true, reverse: false },
    Layout { wsdl: Some("wsdl"), target: &[None], refs: (None, None), other: "tt", declared: true, reverse: false },
    Layout { wsdl: Some("wsdl"), target: &[Some("tns"), Some("tds")], refs: (Some("tds"), Some("tns")), other: "tt", declared: true, reverse: false },
    Layout { wsdl: Some("wsdl"), target: &[Some("tns"), Some("tds")], refs: (Some("tns"), Some("tds")), other: "tt", declared: true, reverse: true },
    Layout { wsdl: Some("wsdl"), target: &[None, Some("tds")], refs: (Some("tds"), None), other: "tt", declared: true, reverse: false },
    Layout { wsdl: Some("wsdl"), target: &[None, Some("tds")], refs: (None, Some("tds")), other: "tt", declared: true, reverse: true },
    Layout { wsdl: Some("wsdl"), target: &[Some("transport")], refs: (Some("transport"), Some("transport")), other: "tt", declared: true, reverse: false },
    Layout { wsdl: Some("wsdl"), target: &[Some("tds")], refs: (Some("tds"), Some("tds")), other: "transport", declared: true, reverse: false },
    Layout { wsdl: Some("wsdl"), target: &[Some("tds")], refs: (Some("tds"), Some("tds")), other: "t", declared: true, reverse: true },
    Layout { wsdl: Some("w"), target: &[Some("t")], refs: (Some("t"), Some("t")), other: "tds", declared: true, reverse: false },
    Layout { wsdl: Some("wsdl"), target: &[Some("wsn-b.r")], refs: (Some("wsn-b.r"), Some("wsn-b.r")), other: "wsn-x.y", declared: true, reverse: false },
    Layout { wsdl: Some("wsdl"), target: &[Some("type")], refs: (Some("type"), Some("type")), other: "mod", declared: true, reverse: false },
    Layout { wsdl: None, target: &[], refs: (None, None), other: "tt", declared: false, reverse: false },
];

fn q(p: Option<&str>, l: &str) -> String {
    match p {
        Some(p) => format!("{}:{}", p, l),
        None => l.into(),
    }
}
fn attr_text(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
}

/// Sections: 0 documentation, 1 import, 2 types, 3.. messages, then port types, then binding, service, extension.
pub fn sections(w: &Wsdl) -> usize {
    3 + w.msgs.len() + w.ports.len() + 3
}
pub fn render_wsdl(w: &Wsdl) -> String {
    let l = &LAYOUTS[w.layout];
    let t = |n: &str| q(l.wsdl, n);
    let mut decls = vec![];
    decls.push(match l.wsdl {
        Some(p) => format!("xmlns:{}=\"http://schemas.xmlsoap.org/wsdl/\"", p),
        None => "xmlns=\"http://schemas.xmlsoap.org/wsdl/\"".into(),
    });
    for p in l.target {
        decls.push(match p {
            Some(p) => format!("xmlns:{}=\"http://example.com/t\"", p),
            None => "xmlns=\"http://example.com/t\"".into(),
        });
    }
    decls.push(format!("xmlns:{}=\"http://example.com/t/other\"", l.other));
    decls.push("xmlns:soap=\"http://schemas.xmlsoap.org/wsdl/soap/\"".into());
    decls.push("xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"".into());
    if l.declared {
        decls.push("targetNamespace=\"http://example.com/t\"".into());
    }
    if w.names {
        decls.push("name=\"Service\"".into());
    }
    if l.reverse {
        decls.reverse();
    }
    let mut o = format!("<{} {}>", t("definitions"), decls.join(" "));
    let (mut imports, mut bindings) = (0, 0);
    for &s in &w.order {
        o += w.gap;
        if s == 0 {
            o += &format!("<{0}>about the whole service</{0}>", t("documentation"));
        } else if s == 1 {
            // every namespace is imported once
            let more = if imports > 0 { format!("/{}", imports) } else { String::new() };
            imports += 1;
            o += &format!("<{} namespace=\"http://example.com/t/other{}\" location=\"other.wsdl\"/>", t("import"), more);
        } else if s == 2 {
            o += &format!("<{0}>{1}</{0}>", t("types"), w.types.join(w.gap));
        } else if s < 3 + w.msgs.len() {
            let m = &w.msgs[s - 3];
            let el = if m.own { q(l.refs.0, &m.local) } else { q(Some(l.other), &m.local) };
            o += &format!(
                "<{} name=\"{}\">{}<{} name=\"parameters\" {}=\"{}\"/>{}</{}>",
                t("message"),
                attr_text(&m.name),
                w.gap,
                t("part"),
                if m.by_type { "type" } else { "element" },
                attr_text(&el),
                w.gap,
                t("message")
            );
        } else if s < 3 + w.msgs.len() + w.ports.len() {
            let (n, ops) = &w.ports[s - 3 - w.msgs.len()];
            o += &format!("<{} name=\"{}\">", t("portType"), n);
            if w.names {
                o += &format!("<{0}>about the port</{0}>", t("documentation"));
            }
            for op in ops {
                o += w.gap;
                o += &format!("<{} name=\"{}\"{}>", t("operation"), attr_text(&op.name), if w.names { " parameterOrder=\"parameters\"" } else { "" });
                if let Some(d) = &op.doc {
                    o += &format!("{}<{1}>{2}</{1}>", w.gap, t("documentation"), d.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('\r', "&#13;"));
                }
                let mut param = |tag: &str, m: usize, name: &str| {
                    let nm = if w.names || tag == "fault" { format!(" name=\"{}\"", name) } else { String::new() };
                    let ms = format!(" message=\"{}\"", attr_text(&q(l.refs.1, &w.msgs[m].name)));
                    o += w.gap;
                    o += &if l.reverse { format!("<{}{}{}/>", t(tag), ms, nm) } else { format!("<{}{}{}></{}>", t(tag), nm, ms, t(tag)) };
                };
                param("input", op.input, &w.msgs[(op.input + 1) % w.msgs.len()].name);
                if let Some(m) = op.output {
                    param("output", m, &w.msgs[(m + 1) % w.msgs.len()].name);
                }
                for f in 0..op.faults {
                    param("fault", f % w.msgs.len(), ["Fault", "fault2"][f % 2]);
                }
                o += w.gap;
                o += &format!("</{}>", t("operation"));
            }
            o += &format!("{}</{}>", w.gap, t("portType"));
        } else {
            match s - 3 - w.msgs.len() - w.ports.len() {
                0 => {
                    let (n, ops) = &w.ports[0];
                    let more = if bindings > 0 { bindings.to_string() } else { String::new() };
                    bindings += 1;
                    o += &format!("<{} name=\"Bind{more}\" type=\"{}\"><soap:binding style=\"document\" transport=\"http://schemas.xmlsoap.org/soap/http\"/>", t("binding"), q(l.refs.1, n));
                    // bindings may name operations in another order
                    for op in ops.iter().rev() {
                        o += &format!(
                            "<{0} name=\"{1}\"><soap:operation soapAction=\"http://example.com/{2}\"/><{3}><soap:body use=\"literal\"/></{3}>{4}</{0}>",
                            t("operation"),
                            attr_text(&op.name),
                            "a",
                            t("input"),
                            if op.output.is_some() { format!("<{0}><soap:body use=\"literal\"/></{0}>", t("output")) } else { String::new() }
                        );
                    }
                    o += &format!("</{}>", t("binding"));
                }
                1 => o += &format!("<{0} name=\"Srv\"><{1} name=\"P\" binding=\"{2}\"><soap:address location=\"http://example.com\"/></{1}></{0}>", t("service"), t("port"), q(l.refs.1, "Bind")),
                _ => o += "<ext:note xmlns:ext=\"urn:ext\"><ext:inner/>text</ext:note>",
            }
        }
    }
    write_attrs(o + w.gap + &format!("</{}>", t("definitions")), w.attrs)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Func {
    name: String,
    request: String,
    response: String,
}

pub fn predict_wsdl(w: &Wsdl) -> Vec<Func> {
    let l = &LAYOUTS[w.layout];
    let esc = |s: String| if s.starts_with(|c: char| c.is_numeric()) || is_keyword(&s) { format!("_{}", s) } else { s };
    let ty = |m: usize| {
        let m = &w.msgs[m];
        let n = esc(pascal(&m.local));
        if m.own {
            n
        } else {
            format!("{}::{}", esc(module_of(l.other)), n)
        }
    };
    let mut v = vec![];
    for &s in &w.order {
        if s >= 3 + w.msgs.len() && s < 3 + w.msgs.len() + w.ports.len() {
            for op in &w.ports[s - 3 - w.msgs.len()].1 {
                v.push(Func { name: esc(snake(&op.name)), request: ty(op.input), response: op.output.map(|m| ty(m)).unwrap_or("()".into()) });
            }
        }
    }
    v
}
fn is_keyword(s: &str) -> bool {
    syn::parse_str::<syn::Ident>(s).is_err() && s.chars().all(|c| c.is_alphanumeric())
}
/// Some words are escaped without need.
fn same_ident(want: &str, got: &str) -> bool {
    want == got || (got.strip_prefix('_') == Some(want) && KEYWORDS_PLUS.contains(&want))
}
const KEYWORDS_PLUS: &[&str] = &["alignof", "offsetof", "proc", "pure", "sizeof", "dyn", "async", "await", "try", "union", "macro"];

fn same_path(want: &str, got: &str) -> bool {
    let (a, b): (Vec<&str>, Vec<&str>) = (want.split("::").collect(), got.split("::").collect());
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_ident(x, y))
}

pub fn functions(src: &str) -> Result<Vec<Func>, String> {
    let f = syn::parse_file(src).map_err(|e| format!("not valid Rust: {}", e))?;
    let mut v = vec![];
    for i in &f.items {
        let syn::Item::Fn(x) = i else { return Err(format!("not a function: {}", toks(i))) };
        if !x.attrs.is_empty() {
            return Err(format!("attributes: {}", toks(i)));
        }
        if !matches!(x.vis, syn::Visibility::Public(_)) || x.sig.asyncness.is_none() || x.sig.unsafety.is_some() || x.sig.abi.is_some() || x.sig.variadic.is_some() {
            return Err(format!("not a public async function: {}", toks(&x.sig)));
        }
        let g = &x.sig.generics;
        let mut bound = String::new();
        let mut param = String::new();
        if g.params.len() == 1 {
            if let syn::GenericParam::Type(t) = &g.params[0] {
                param = t.ident.to_string();
                bound = toks(&t.bounds);
            }
        }
        if let Some(wh) = &g.where_clause {
            bound += &toks(wh);
        }
        if bound != "transport::Transport" {
            return Err(format!("not generic over the transport: {}", toks(&x.sig)));
        }
        let args: Vec<(String, String)> = x
            .sig
            .inputs
            .iter()
            .map(|a| match a {
                syn::FnArg::Typed(p) => (toks(&p.pat), toks(&p.ty)),
                a => (String::new(), toks(a)),
            })
            .collect();
        if args.len() != 2 || args[0].1 != format!("&{}", param) || !args[1].1.starts_with('&') {
            return Err(format!("not (transport, request): {}", toks(&x.sig)));
        }
        if toks(&x.block) != format!("{{transport::request({},{}).await}}", args[0].0, args[1].0) {
            return Err(format!("does not send the request: {}", toks(&x.block)));
        }
        let out = toks(&x.sig.output);
        let Some(resp) = out.strip_prefix("->Result<").and_then(|s| s.strip_suffix(",transport::Error>")) else { return Err(format!("result {}", out)) };
        v.push(Func { name: x.sig.ident.to_string(), request: args[1].1[1..].to_string(), response: resp.to_string() });
    }
    Ok(v)
}

fn gen_wsdl(text: &str) -> Result<String, String> {
    guard(|| {
        let doc = roxmltree::Document::parse(text).map_err(|e| format!("harness: {}", e))?;
        let d = wsdl_parser::parser::definitions::Definitions::new(&doc.root_element());
        Ok::<_, String>(wsdl_parser::generator::generate(&d))
    })
    .unwrap_or_else(|p| Err(format!("panic: {}", p)))
}

fn check(w: &Wsdl) -> Result<Obs, Viol> {
    check_times(w, 1)
}
fn check_times(w: &Wsdl, times: usize) -> Result<Obs, Viol> {
    check_as(w, render_wsdl(w), times)
}
fn check_as(w: &Wsdl, text: String, times: usize) -> Result<Obs, Viol> {
    let src = gen_wsdl(&text).map_err(|p| viol("generation-fails", text.clone(), "generated code", p))?;
    let got = functions(&src).map_err(|e| viol("invalid", text.clone(), "public async functions", format!("{}\n{}", e, src)))?;
    let want = predict_wsdl(w);
    if got.len() != want.len() {
        return Err(viol("count", text, format!("{:?}", want), format!("{:?}", got)));
    }
    for (a, b) in want.iter().zip(&got) {
        if !same_ident(&a.name, &b.name) || !same_path(&a.request, &b.request) || !same_path(&a.response, &b.response) {
            return Err(viol("differs", text, format!("{:?} in {:?}", a, want), format!("{:?} in {:?}\nSOURCE:\n{}", b, got, src)));
        }
    }
    // documentation reaches comments, in the order of the operations
    let words: Vec<String> = words_of(&comments(&src));
    let mut docs = vec![];
    for &s in &w.order {
        if s >= 3 + w.msgs.len() && s < 3 + w.msgs.len() + w.ports.len() {
            for op in &w.ports[s - 3 - w.msgs.len()].1 {
                for l in op.doc.as_deref().unwrap_or("").lines() {
                    if l.trim().chars().count() > 1 {
                        docs.extend(l.split_whitespace().map(|w| w.to_string()));
                    }
                }
            }
        }
    }
    let squash = |v: &[String]| v.iter().filter(|w| w.chars().count() > 1).cloned().collect::<Vec<_>>();
    if squash(&words) != squash(&docs) {
        return Err(viol("documentation", text, format!("{:?}", docs), format!("{:?}\nSOURCE:\n{}", words, src)));
    }
    for _ in 1..times {
        let again = gen_wsdl(&text).map_err(|p| viol("generation-fails", text.clone(), "generated code", p))?;
        if again != src {
            return Err(viol("not-deterministic", text, src, again));
        }
    }
    ok(times as u64, if want.is_empty() { "no functions" } else { "one function each, in order" })
}

fn msgs3() -> Vec<Msg> {
    let m = |name: &str, own, local: &str| Msg { name: name.into(), own, local: local.into(), by_type: false };
    vec![m("GetThingRequest", true, "GetThing"), m("GetThingResponse", true, "GetThingResponse"), m("NotifyMessage", false, "Notify")]
}
const OPS: [&str; 6] = ["GetThing", "SetThing", "notify", "Probe", "Reset", "Stop"];
fn op(name: &str, input: usize, output: Option<usize>) -> Op {
    Op { name: name.into(), input, output, faults: 0, doc: None }
}
fn wsdl(ports: Vec<(String, Vec<Op>)>) -> Wsdl {
    let mut w = Wsdl { layout: 0, msgs: msgs3(), ports, order: vec![], gap: "", names: false, types: vec![], attrs: 0 };
    w.order = (2..3 + w.msgs.len() + w.ports.len()).collect();
    w
}

/// Documents used in the runs of other processes.
pub fn family() -> Vec<Wsdl> {
    (1..7)
        .map(|n| {
            let mut w = wsdl((0..n).map(|i| (format!("Port{}", (i * 5 + n) % 7), vec![op(&format!("{}{}", OPS[i % 6], i), i % 3, Some((i + 1) % 3)), op(&format!("Poll{}", i), 2, None)])).collect());
            w.layout = n % LAYOUTS.len();
            w
        })
        .collect()
}
pub fn emit() {
    for w in family() {
        println!("{:?}", gen_wsdl(&render_wsdl(&w)));
    }
}

pub fn c16(ctx: &Ctx) {
    let th = ctx.thorough();
    let key = |w: &Wsdl| hash64(render_wsdl(w).as_str());
    let max = if th { 4 } else { 3 };
    ctx.bound(format!("operations: up to {} operations split over up to {} port types (port types listed in every order), each request-response or one-way, every assignment of 3 messages to inputs and outputs (shared, unused, the same twice), with and without faults on the first", max, if th { 3 } else { 2 }));
    ctx.explore(
        "operations",
        0,
        |c| {
            let n = c.choose(max + 1);
            let np = 1 + c.choose(if th && n > 2 { 2 } else { 2 + th as usize });
            let mut ports: Vec<(String, Vec<Op>)> = (0..np).map(|i| (["PortB", "PortA", "PortC"][i].to_string(), vec![])).collect();
            let mut at = 0;
            for i in 0..n {
                at += c.choose(np - at);
                let input = c.choose(3);
                let output = [None, Some(0), Some(1), Some(2)][c.choose(4)];
                let mut o = op(OPS[i], input, output);
                if i == 0 && output.is_some() {
                    o.faults = c.choose(3);
                }
                ports[at].1.push(o);
            }
            let mut w = wsdl(ports);
            if np > 1 && c.flag() {
                let (m, e) = (3 + w.msgs.len(), 3 + w.msgs.len() + w.ports.len());
                w.order = (2..m).chain((m..e).rev()).collect();
            }
            Some(w)
        },
        key,
        |w| render_wsdl(w),
        |w| check_times(w, 2),
    );
    ctx.bound(format!("layouts: {} prefix layouts x element of each of 2 messages in the target or another namespace, by element or type x equal local names x message names equal to elements x 3 signatures", LAYOUTS.len()));
    ctx.explore(
        "layouts",
        0,
        |c| {
            let layout = c.choose(LAYOUTS.len());
            let locals = ["GetThing", "Transport", "transport", "Error", "type", "T", "GetURLs", "tds", "a.b-c", "Result"];
            let msgs: Vec<Msg> = (0..2)
                .map(|i| Msg { name: String::new(), own: c.flag() && LAYOUTS[layout].declared, local: c.pick(&locals[..if i == 0 { locals.len() } else { 3 }]).to_string(), by_type: c.flag() })
                .collect();
            let names = [["InMsg", "OutMsg"], ["GetThing", "Get.Thing"], ["Transport", "GetThing"], ["parameters", "T"]][c.choose(4)];
            let mut w = wsdl(vec![("Port".into(), vec![op("DoIt", 0, [None, Some(1), Some(0)][c.choose(3)]), op("Undo", 1, Some(0))])]);
            w.msgs = msgs;
            for (m, n) in w.msgs.iter_mut().zip(names) {
                m.name = n.into();
            }
            w.layout = layout;
            w.order = (2..3 + w.msgs.len() + w.ports.len()).collect();
            Some(w)
        },
        key,
        |w| render_wsdl(w),
        check,
    );
    // names which are parts of one another or differ in few characters
    let rel: &[&str] = &["Get", "ForGet", "GetFor", "get", "GetRequest", "Request", "ForGetRequest", "Get.Request", "Get-Request", "Get_", "Get2", "GET", "tds", "input"];
    let rk = if th { rel.len() } else { 9 };
    ctx.bound(format!("related names: every ordered choice of 3 message names, 2 port types and {} operation names, elements from {} names which contain one another", 2, rel.len()));
    ctx.explore(
        "related names",
        0,
        |c| {
            let mut w = wsdl(vec![("P".into(), vec![op("DoIt", 0, Some(1)), op("Undo", 1, Some(2))]), ("Q".into(), vec![op("Third", 2, None)])]);
            match c.choose(3) {
                0 => {
                    for m in 0..3 {
                        w.msgs[m].name = c.pick(if m == 2 { &rel[..rk] } else { rel }).to_string();
                        w.msgs[m].local = ["One", "Two", "Three"][m].into();
                    }
                    if w.msgs[0].name == w.msgs[1].name || w.msgs[1].name == w.msgs[2].name || w.msgs[0].name == w.msgs[2].name {
                        return None;
                    }
                }
                1 => {
                    w.ports[0].0 = c.pick(rel).to_string();
                    w.ports[1].0 = c.pick(rel).to_string();
                    w.ports[0].1[0].name = c.pick(rel).to_string();
                    w.ports[1].1[0].name = c.pick(rel).to_string();
                    if w.ports[0].0 == w.ports[1].0 || snake(&w.ports[0].1[0].name) == snake(&w.ports[1].1[0].name) {
                        return None;
                    }
                }
                _ => {
                    let n = c.pick(rel).to_string();
                    let e = c.pick(rel).to_string();
                    w.ports[0].0 = if c.flag() { n.clone() } else { e.clone() };
                    w.ports[0].1[0].name = if c.flag() { n.clone() } else { e.clone() };
                    w.msgs[0].name = n;
                    w.msgs[1].name = format!("{}Response", e);
                    w.msgs[0].local = e.clone();
                    w.msgs[1].local = format!("{}Response", e);
                }
            }
            if c.flag() {
                let (m, k) = (3, 3 + w.msgs.len());
                w.order[m - 2..k - 2].reverse();
            }
            Some(w)
        },
        key,
        |w| render_wsdl(w),
        check,
    );
    let alpha: &[char] = &['a', 'B', '1', '.', '-', '_'];
    let n = if th { 6 } else { 4 };
    ctx.bound(format!("names: all names of up to {} characters over {:?} with a letter or digit, and {} reserved words x 3 casings, as operation, message, own element, foreign element", n, alpha, KEYWORDS.len()));
    ctx.explore(
        "names",
        0,
        |c| {
            let at = c.choose(4);
            let name: String = if c.flag() {
                let k = *c.pick(KEYWORDS);
                match c.choose(3) {
                    0 => k.into(),
                    1 => k[..1].to_uppercase() + &k[1..],
                    _ => format!("{}_", k),
                }
            } else {
                (0..1 + c.choose(n)).map(|_| *c.pick(alpha)).collect()
            };
            let f = name.chars().next().unwrap();
            if !(f.is_alphabetic() || f == '_') || !name.chars().any(|c| c.is_alphanumeric()) {
                return None;
            }
            let mut w = wsdl(vec![("Port".into(), vec![op("DoIt", 0, Some(1)), op("Undo", 1, Some(2))])]);
            match at {
                0 => w.ports[0].1[0].name = name,
                1 => w.msgs[0].name = name,
                2 => w.msgs[0].local = name,
                _ => w.msgs[2].local = name,
            }
            Some(w)
        },
        key,
        |w| render_wsdl(w),
        check,
    );
    let all = 3 + 3 + 2 + 3;
    ctx.bound(format!("surroundings: {} deviations among section order (any section moved anywhere), missing sections, whitespace and comments between elements, names and parameter orders, faults, documentation, embedded schemas, layouts, messages", if th { 4 } else { 3 }));
    let gaps: &[&str] = &["", "\n  ", "<!-- a comment -->", "<?pi data?>\n", "\n<!-- <wsdl:portType name=\"x\"><wsdl:operation name=\"y\"/></wsdl:portType> -->\n"];
    let schema_texts = [
        "",
        "<xs:schema targetNamespace=\"http://example.com/t\"><xs:element name=\"GetThing\"><xs:complexType/></xs:element></xs:schema>",
        "<xs:schema xmlns:a=\"urn:a\" targetNamespace=\"urn:a\"><xs:complexType name=\"message\"/></xs:schema>",
    ];
    ctx.explore(
        "surroundings",
        if th { 4 } else { 3 },
        |c| {
            let mut w = wsdl(vec![("PortB".into(), vec![op("GetThing", 0, Some(1)), op("Notify", 2, None)]), ("PortA".into(), vec![op("SetThing", 1, Some(2))])]);
            w.order = (0..all).collect();
            w.gap = *c.dev_pick(gaps);
            w.names = c.dev(2) == 1;
            w.layout = c.dev(LAYOUTS.len() - 1);
            w.attrs = c.dev(ATTRS);
            for k in 0..2 {
                match c.dev(3) {
                    0 => {}
                    n => w.types.push(format!("{}{}", schema_texts[n], if k == 0 { "" } else { "<!-- second -->" })),
                }
            }
            for p in 0..2 {
                for o in 0..w.ports[p].1.len() {
                    let op = &mut w.ports[p].1[o];
                    op.faults = if op.output.is_some() { c.dev(3) } else { 0 };
                    op.doc = [None, Some("Gets the thing."), Some(""), Some("line one\n   line two\r\nlast")][c.dev(4)].map(|s: &str| s.to_string());
                    op.output = match (op.output, c.dev(3)) {
                        (x, 0) => x,
                        (Some(_), 1) => None,
                        (_, k) => Some(k - 1),
                    };
                    if op.output.is_none() {
                        op.faults = 0;
                    }
                }
            }
            // moves of sections: take the i-th out and put it in at j
            for _ in 0..2 {
                let m = c.dev(all * all);
                let (i, j) = (m / all, m % all);
                if m > 0 {
                    let s = w.order.remove(i);
                    w.order.insert(j, s);
                }
            }
            // drop a section which is not needed
            match c.dev(7) {
                0 => {}
                k => {
                    let s = [0, 1, 2, 8, 9, 10][k - 1];
                    w.order.retain(|x| *x != s);
                }
            }
            Some(w)
        },
        key,
        |w| render_wsdl(w),
        check,
    );
    ctx.bound(format!("attributes: {} ways to write attributes (white space around values, quotes, character references, attributes of other namespaces) x {} layouts x names and parameter orders x 4 contents", ATTRS, LAYOUTS.len()));
    ctx.explore(
        "attributes",
        0,
        |c| {
            let mut w = family()[c.choose(4)].clone();
            w.attrs = c.choose(ATTRS);
            w.layout = c.choose(LAYOUTS.len());
            if !LAYOUTS[w.layout].declared {
                w.msgs.iter_mut().for_each(|m| m.own = false);
            }
            w.names = c.flag();
            for m in w.msgs.iter_mut() {
                m.by_type = c.flag();
            }
            w.gap = *c.pick(&["", "\n"]);
            Some(w)
        },
        key,
        |w| render_wsdl(w),
        check,
    );
    sizes(ctx, th);
    let words: &[&str] = &["ab", "//", "*/", "/*", "}", "pub fn x(){}", "\n", "\r", "\r\n", "\t", " ", "\"", "'", "\\", "{}", "{0}", "é中", "\u{2028}", "\u{85}", "\u{a0}", "#![x]", "&<>", "https://example.com/a/very/long/link/that/does/not/fit/into/one/comment/line/of/eighty/chars", "a"];
    let dn = if th { 4 } else { 3 };
    ctx.bound(format!("documentation: all texts of up to {} pieces out of {}", dn, words.len()));
    ctx.explore(
        "documentation",
        0,
        |c| {
            let k = 1 + c.choose(dn);
            let t: String = (0..k).map(|_| *c.pick(words)).collect();
            let mut w = wsdl(vec![("PortB".into(), vec![op("GetThing", 0, Some(1)), op("Notify", 2, None)])]);
            w.ports[0].1[c.choose(2)].doc = Some(t);
            Some(w)
        },
        key,
        |w| render_wsdl(w),
        check,
    );
    let reps = if th { 200 } else { 40 };
    ctx.bound(format!("repetition: documents of up to 6 port types in every prefix layout, generated {} times, and in {} further processes", reps, 8));
    ctx.explore(
        "repetition",
        0,
        |c| {
            let f = family();
            let mut w = c.pick(&f).clone();
            w.layout = c.choose(LAYOUTS.len() - 1);
            w.order[3..].rotate_left(c.choose(3));
            Some(w)
        },
        key,
        |w| render_wsdl(w),
        |w| check_times(w, reps),
    );
    if ctx.replay.is_none() {
        let exe = std::env::current_exe().unwrap();
        let want: Vec<String> = family().iter().map(|w| format!("{:?}", gen_wsdl(&render_wsdl(w)))).collect();
        for p in 0..8 {
            let o = std::process::Command::new(&exe).arg("emit-wsdl").current_dir(["/", "/tmp"][p % 2]).env("LANG", ["C", "tr_TR.UTF-8"][p % 2]).output().unwrap();
            let got = String::from_utf8_lossy(&o.stdout).into_owned();
            for (i, (a, b)) in want.iter().zip(got.lines().map(Some).chain(std::iter::repeat(None))).enumerate() {
                if Some(a.as_str()) != b {
                    ctx.report(viol("process-dependent", render_wsdl(&family()[i]), a.clone(), b.unwrap_or("nothing")));
                }
            }
        }
        ctx.add("processes", 8, 48, 48);
        ctx.class("same text in other processes", 48);
    }
}

/// One thing of the document repeated or made longer, up to every size.
fn sizes(ctx: &Ctx, th: bool) {
    let mut ns: Vec<usize> = (1..if th { 140 } else { 72 }).collect();
    ns.extend([100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1025]);
    if th {
        ns.extend([2000, 4096, 10000]);
    }
    ns.sort();
    ns.dedup();
    let what = ["port types", "operations of one port type", "messages", "faults", "operation name", "message name", "element name", "port type name", "words of documentation", "lines of documentation", "letters of a word", "white space between elements", "comments", "imports", "bindings", "schemas", "documented operations", "operations over port types", "prefixes", "attributes"];
    ctx.bound(format!("sizes: each of {:?} of {} sizes up to {}, in two orders of the operations or letters", what, ns.len(), ns.last().unwrap()));
    let key = |x: &(usize, usize, bool)| hash64(x);
    // the names have no order of their own, and neither does the reverse
    let label = |i: usize| format!("{}{}", ["Get", "Do", "put", "List", "a", "Z"][i % 6], i * 7919 % 10007);
    let make = |x: &(usize, usize, bool)| -> Wsdl {
        let (k, n, rev) = *x;
        let mut w = wsdl(vec![("PortB".into(), vec![op("GetThing", 0, Some(1)), op("Notify", 2, None)])]);
        let long = |n: usize, rev: bool| -> String { (0..n).map(|i| if rev { (b'a' + ((i * 7) % 26) as u8) as char } else { "Ab1c".chars().nth(i % 4).unwrap() }).collect() };
        let idx: Vec<usize> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
        match k {
            0 => w.ports = idx.iter().map(|&i| (format!("P{}", label(i)), vec![op(&label(i), i % 3, Some((i + 1) % 3))])).collect(),
            1 => w.ports[0].1 = idx.iter().map(|&i| op(&label(i), i % 3, if i % 5 == 2 { None } else { Some((i / 2) % 3) })).collect(),
            2 => {
                w.msgs = idx.iter().map(|&i| Msg { name: format!("M{}", label(i)), own: i % 3 != 1, local: format!("E{}", label(i)), by_type: i % 4 == 3 }).collect();
                w.ports[0].1 = idx.iter().map(|&i| op(&label(i), i, if i % 5 == 2 { None } else { Some((i * 31 + 1) % n) })).collect();
            }
            3 => w.ports[0].1[0].faults = n,
            4 => w.ports[0].1[0].name = format!("X{}", long(n, rev)),
            5 => w.msgs[0].name = format!("X{}", long(n, rev)),
            6 => w.msgs[0].local = format!("X{}", long(n, rev)),
            7 => w.ports[0].0 = format!("X{}", long(n, rev)),
            8 => w.ports[0].1[rev as usize].doc = Some((0..n).map(|i| format!("word{}", i)).collect::<Vec<_>>().join(" ")),
            9 => w.ports[0].1[rev as usize].doc = Some((0..n).map(|i| format!("line {}{}", i, if i % 3 == 0 { "\n" } else { "" })).collect::<Vec<_>>().join("\n")),
            10 => w.ports[0].1[rev as usize].doc = Some(format!("before {} after", "w".repeat(n + 1))),
            11 => w.gap = Box::leak(if rev { "\n".repeat(n) } else { " ".repeat(n) }.into_boxed_str()),
            12 => w.gap = Box::leak(if rev { format!("<!--{}-->", "c".repeat(n)) } else { "<!--c-->".repeat(n) }.into_boxed_str()),
            13 | 14 => {
                w.types = vec!["<xs:schema/>".into()];
                let s = if k == 13 { 1 } else { 3 + w.msgs.len() + w.ports.len() };
                let at = if rev { w.order.len() } else { 0 };
                for _ in 0..n {
                    w.order.insert(at, s);
                }
            }
            15 => w.types = idx.iter().map(|&i| format!("<xs:schema targetNamespace=\"urn:{0}\"><xs:element name=\"E{0}\"/></xs:schema>", i)).collect(),
            16 => {
                w.ports[0].1 = idx
                    .iter()
                    .map(|&i| {
                        let mut o = op(&label(i), i % 3, Some(1));
                        o.doc = Some(format!("Operation number{} does it.", i));
                        o
                    })
                    .collect()
            }
            17 => w.ports = (0..n / 3 + 1).map(|p| (format!("P{}", label(p)), idx.iter().filter(|i| **i % (n / 3 + 1) == p).map(|&i| op(&label(i), i % 3, Some((i + 1) % 3))).collect())).collect(),
            18 | 19 => {}
            _ => unreachable!(),
        }
        if ![13, 14].contains(&k) {
            w.order = (2..3 + w.msgs.len() + w.ports.len()).collect();
        }
        w
    };
    ctx.explore(
        "sizes",
        0,
        |c| Some((c.choose(what.len()), *c.pick(&ns), c.flag())),
        key,
        |x| format!("{} {} {}", x.1, what[x.0], if x.2 { "reversed" } else { "" }),
        |x| {
            let w = make(x);
            if x.0 < 18 {
                return check_as(&w, render_wsdl(&w), 1);
            }
            // declarations or attributes of no importance, before or after the others
            let extra: String = (0..x.1).map(|i| if x.0 == 18 { format!(" xmlns:n{0}=\"urn:n{0}\"", i) } else { format!(" a{0}=\"v{0}\"", i) }).collect();
            let text = render_wsdl(&w);
            let text = if x.2 { text.replacen(" ", &format!("{} ", extra), 1) } else { text.replacen(">", &format!("{}>", extra), 1) };
            check_as(&w, text, 1)
        },
    );
}
