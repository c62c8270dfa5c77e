pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c31;
pub mod c32;

use forust_ml::GradientBooster;
use fvm::case::Case;
use fvm::run::{Ctx, W};
use fvm::view::Model;

/// Trains a case and reads the model back.
pub fn fit_model(w: &mut W, c: &Case) -> Option<(GradientBooster, Model)> {
    let b = w.must("fit", c, || c.train())?;
    match Model::of(&b) {
        Ok(m) => Some((b, m)),
        Err(e) => {
            w.fail("dump", e, c);
            None
        }
    }
}

pub fn dispatch(id: &str, ctx: &Ctx) -> bool {
    match id {
        "C01" => c01::run(ctx),
        "C02" => c02::run(ctx),
        "C03" => c03::run(ctx),
        "C04" => c04::run(ctx),
        "C05" => c05::run(ctx),
        "C06" => c06::run(ctx),
        "C07" => c07::run(ctx),
        "C08" => c08::run(ctx),
        "C09" => c09::run(ctx),
        "C10" => c10::run(ctx),
        "C11" => c11::run(ctx),
        "C12" => c12::run(ctx),
        "C13" => c13::run(ctx),
        "C14" => c14::run(ctx),
        "C15" => c15::run(ctx),
        "C16" => c16::run(ctx),
        "C17" => c17::run(ctx),
        "C18" => c18::run(ctx),
        "C19" => c19::run(ctx),
        "C20" => c20::run(ctx),
        "C21" => c21::run(ctx),
        "C22" => c22::run(ctx),
        "C23" => c23::run(ctx),
        "C24" => c24::run(ctx),
        "C25" => c25::run(ctx),
        "C31" => c31::run(ctx),
        "C32" => c32::run(ctx),
        "C26" => c26::run(ctx),
        _ => return false,
    }
    true
}
