//! The scenarios of every property.
use crate::engine::Scenario;

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34"];

pub fn scenarios(p: &str, thorough: bool) -> Vec<Scenario> {
    match p {
        "C01" => crate::c_pbf::c01(thorough),
        "C02" => crate::c_pbf::c02(thorough),
        "C03" => crate::c_pbf::c03(thorough),
        "C04" => crate::c_pbf::c04(thorough),
        "C05" => crate::c_hist::c05(thorough),
        "C06" => crate::c_pbf::c06(thorough),
        "C07" => crate::c_fault::c07(thorough),
        "C08" => crate::c_fault::c08(thorough),
        "C14" => crate::c_wr::c14(thorough),
        "C15" => crate::c_wr::c15(thorough),
        "C16" => crate::c_obj::c16(thorough),
        "C17" => crate::c_obj::c17(thorough),
        "C18" => crate::c_obj::c18(thorough),
        "C19" => crate::c_obj::c19(thorough),
        "C20" => crate::c_val::c20(thorough),
        "C21" => crate::c_val::c21(thorough),
        "C27" => crate::c_val::c27(thorough),
        "C22" => crate::c_cs::c22(thorough),
        "C23" => crate::c_cs::c23(thorough),
        "C25" => crate::c_file::c25(thorough),
        "C26" => crate::c_file::c26(thorough),
        "C28" => crate::c_fault::c28(thorough),
        "C29" => crate::c_wr::c29(thorough),
        "C30" => crate::c_bad::c30(thorough),
        "C31" => crate::c_bad::c31(thorough),
        "C32" => crate::c_bad::c32(thorough),
        "C33" => crate::c_bad::c33(thorough),
        "C34" => crate::c_live::c34(thorough),
        "C24" => crate::c_fault::c24(thorough),
        "C09" => crate::c_xml::c09(thorough),
        "C10" => crate::c_xml::c10(thorough),
        "C11" => crate::c_xml::c11(thorough),
        "C12" => crate::c_xml::c12(thorough),
        "C13" => crate::c_xml::c13(thorough),
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
}
