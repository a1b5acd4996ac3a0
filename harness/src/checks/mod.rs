pub mod crash;
pub mod dynamic;
pub mod graph;
pub mod instr;
pub mod plate;
pub mod library;
pub mod live;
pub mod mem;
pub mod mix;
pub mod models;
pub mod msgs;
pub mod safe;
pub mod text;
pub mod wasm;

use crate::rep::Rep;

pub fn run(rep: &Rep) -> bool {
    if let Some(f) = models::FOCI.iter().find(|f| f.id == rep.id) {
        models::run(rep, f);
        return true;
    }
    match rep.id.as_str() {
        "C01" => live::c01(rep),
        "C02" => live::c02(rep),
        "C03" => live::c03(rep),
        "C04" => text::c04(rep),
        "C05" => text::c05(rep),
        "C06" => text::c06(rep),
        "C07" => crash::c07(rep),
        "C08" => mix::c08(rep),
        "C09" => graph::c09(rep),
        "C10" => mix::c10(rep),
        "C11" => mix::c11(rep),
        "C19" => instr::c19(rep),
        "C34" => plate::c34(rep),
        "C35" => library::c35(rep),
        "C21" => msgs::c21(rep),
        "C22" => mix::c22(rep),
        "C25" => safe::c25(rep),
        "C26" => mem::c26(rep),
        "C27" => wasm::c27(rep),
        "C30" => dynamic::c30(rep),
        "C23" => mix::c23(rep),
        _ => return false,
    }
    true
}
