//! Property checks for chanoma: see /verif/DESIGN.md.

pub mod alloc;
pub mod files;
pub mod fuzz;
pub mod gen;
pub mod model;
pub mod props;
pub mod run;

use props::{conf, errors, ext, load, memory, pipe, scale, table, text, values};
use run::{harness_error, Ctx, Replay};
use std::path::{Path, PathBuf};

pub fn dispatch(ctx: &mut Ctx) {
    match ctx.id.clone().as_str() {
        "C01" => text::c01(ctx),
        "C02" => text::c02(ctx),
        "C03" => text::c03(ctx),
        "C04" => pipe::c04(ctx),
        "C05" => pipe::c05(ctx),
        "C06" => pipe::c06(ctx),
        "C07" => text::c07(ctx),
        "C08" => text::c08(ctx),
        "C09" => text::c09(ctx),
        "C10" => conf::c10(ctx),
        "C11" => conf::c11(ctx),
        "C12" => conf::c12(ctx),
        "C13" => table::c13(ctx),
        "C14" => table::c14(ctx),
        "C15" => table::c15(ctx),
        "C16" => ext::c16(ctx),
        "C17" => ext::c17(ctx),
        "C18" => pipe::c18(ctx),
        "C19" => load::c19(ctx),
        "C20" => scale::c20(ctx),
        "C21" => errors::c21(ctx),
        "C22" => values::c22(ctx),
        "C23" => memory::c23(ctx),
        x => harness_error(&format!("unknown property {x}")),
    }
}

pub fn root() -> PathBuf {
    std::env::var_os("VH_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn read_replay(p: &Path) -> Replay {
    let t = std::fs::read_to_string(p).unwrap_or_else(|e| harness_error(&format!("{}: {e}", p.display())));
    serde_json::from_str(&t).unwrap_or_else(|e| harness_error(&format!("{}: {e}", p.display())))
}

