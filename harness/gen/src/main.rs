//! Source-generation checks: every schema of a bounded family is generated by the real parser and
//! generator and compared with the reference model.
#[path = "../../common/mc.rs"]
mod mc;
mod choices;
mod derive;
mod docs;
mod grand;
mod ir;
mod local;
mod names;
mod nest;
mod model;
mod parts;
mod refs;
mod simple;
mod wsdl;

use mc::*;
use model::*;

/// Generate with a fresh default generator.
pub fn generate(xsd: &str) -> Result<String, String> {
    guard(|| {
        let file = xsd_parser::parser::parse(xsd).map_err(|_| "parse error".to_string())?;
        Ok::<_, String>(xsd_parser::generator::builder::GeneratorBuilder::default().build().generate_rs_file(&file))
    })
    .unwrap_or_else(|p| Err(format!("panic: {}", p)))
}

/// The generated source of a schema must reduce to exactly what the model predicts.
pub fn conform(s: &Schema) -> Result<Obs, Viol> {
    conform_text(s, &render(s)).map(|_| Obs { runs: 1, class: "as predicted" })
}

pub fn conform_text(s: &Schema, xsd: &str) -> Result<String, Viol> {
    let src = match generate(xsd) {
        Ok(s) => s,
        Err(p) => return Err(viol("generation-fails", xsd, "generated code", p)),
    };
    let got = match ir::extract(&src) {
        Ok(g) => g,
        Err(e) => return Err(viol("invalid-rust", xsd, "valid Rust", format!("{}\n{}", e, src))),
    };
    let want = Model::new(s).predict();
    match ir::diff(&want, &got) {
        None => Ok(src),
        Some((w, g)) => Err(viol("differs", xsd, w, format!("{}\nSOURCE:\n{}", g, src))),
    }
}

pub fn explore_schemas(ctx: &Ctx, name: &str, budget: u32, construct: impl Fn(&mut Chooser) -> Option<Schema> + Sync) {
    ctx.explore(name, budget, construct, |s| hash64(render(s).as_str()), |s| render(s), conform);
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("emit") {
        return local::emit(std::env::args().nth(2).and_then(|n| n.parse().ok()).unwrap_or(1));
    }
    if std::env::args().nth(1).as_deref() == Some("emit-wsdl") {
        return wsdl::emit();
    }
    let ctx = Ctx::from_args();
    ctx.assume("the reference model (harness/gen/src/model.rs) states the property; generated source is compared after reduction to items, members, types and XML names (harness/gen/src/ir.rs), so layout and comments do not matter");
    match ctx.prop.as_str() {
        "C01" => refs::c01(&ctx),
        "C02" => refs::c02(&ctx),
        "C03" => refs::c03(&ctx),
        "C04" => derive::c04(&ctx),
        "C05" => choices::c05(&ctx),
        "C06" => derive::c06(&ctx),
        "C07" => simple::c07(&ctx),
        "C09" => names::c09(&ctx),
        "C10" => docs::c10(&ctx),
        "C11" => nest::c11(&ctx),
        "C12" => local::c12(&ctx),
        "C13" => local::c13(&ctx),
        "C14" => parts::c14(&ctx),
        "C16" => wsdl::c16(&ctx),
        p => {
            eprintln!("no check for {}", p);
            std::process::exit(2)
        }
    }
    if matches!(ctx.prop.as_str(), "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C11") {
        grand::sizes(&ctx);
        grand::explore(&ctx);
        grand::near_rich(&ctx);
        grand::other_words(&ctx);
        grand::neighbouring(&ctx);
    }
    if matches!(ctx.prop.as_str(), "C10" | "C12") {
        grand::indifferent(&ctx);
        grand::other_words(&ctx);
    }
    ctx.finish()
}
