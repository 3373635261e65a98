//! C29, C30, C31: value types, wrappers and unions in every XML position, against a document model.
#[path = "../../common/mc.rs"]
mod mc;
mod position;
mod tuple;
mod types;
mod union;

use mc::*;

fn main() {
    let ctx = Ctx::from_args();
    ctx.assume("yaserde 0.7.1, yaserde_derive 0.7.1 and xml-rs 0.8.19 as locked; their own limits (white space at text edges is trimmed, markup characters inside attribute literals, a child named like its parent) are outside the modelled documents");
    match ctx.prop.as_str() {
        "C29" => position::run(&ctx, types::all()),
        "C30" => tuple::run(&ctx),
        "C31" => union::run(&ctx),
        p => {
            eprintln!("no check for {}", p);
            std::process::exit(2)
        }
    }
    ctx.finish()
}
