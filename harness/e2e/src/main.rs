//! C08, C15: generated modules, compiled with rustc and run, against models of facets and documents.
mod batch;
mod carry;
mod facets;
#[path = "../../common/mc.rs"]
mod mc;
mod more;
mod schema;

use mc::*;

fn main() {
    let ctx = Ctx::from_args();
    match ctx.prop.as_str() {
        "C08" => facets::run(&ctx),
        "C15" => carry::run(&ctx),
        p => {
            eprintln!("no check for {}", p);
            std::process::exit(2)
        }
    }
    ctx.finish()
}
