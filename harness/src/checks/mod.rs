use crate::explore::Phase;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c07;
mod c09;
mod c11;
mod c14;
mod c16;
mod c19;
mod c20;
pub mod common;
mod marathon;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub phases: Vec<Phase>,
}

pub const IDS: [&str; 20] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20",
];

pub fn get(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "C01" => c01::check(thorough),
        "C02" => c02::check(thorough),
        "C03" => c03::check(thorough),
        "C04" => c04::check(thorough),
        "C05" => c05::c05(thorough),
        "C06" => c05::c06(thorough),
        "C07" => c07::c07(thorough),
        "C08" => c07::c08(thorough),
        "C09" => c09::c09(thorough),
        "C10" => c09::c10(thorough),
        "C11" => c11::c11(thorough),
        "C12" => c11::c12(thorough),
        "C13" => c07::c13(thorough),
        "C14" => c14::c14(thorough),
        "C15" => c14::c15(thorough),
        "C16" => c16::c16(thorough),
        "C17" => c16::c17(thorough),
        "C18" => c09::c18(thorough),
        "C19" => c19::check(thorough),
        "C20" => c20::check(thorough),
        _ => return None,
    })
}
