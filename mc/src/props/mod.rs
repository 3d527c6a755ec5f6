use crate::engine::Driver;
pub mod big;
pub mod hist;
pub mod net;
pub mod steps;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod nets;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;

pub fn drivers(id: &str, thorough: bool) -> Option<(Vec<Driver>, Vec<&'static str>)> {
    Some(match id {
        "C01" => c01::drivers(thorough),
        "C02" => c02::drivers(thorough),
        "C03" => c03::drivers(thorough),
        "C04" => c04::drivers(thorough),
        "C05" => c05::drivers(thorough),
        "C06" => c06::drivers(thorough),
        "C07" => c07::drivers(thorough),
        "C08" => c08::drivers(thorough),
        "C09" => c09::drivers(thorough),
        "C10" => c10::drivers(thorough),
        "C11" => c11::drivers(thorough),
        "C12" => c12::drivers(thorough),
        "C13" => c13::drivers(thorough),
        "C14" => c14::drivers(thorough),
        "C15" => c15::drivers(thorough),
        "C16" => c16::drivers(thorough),
        "C17" => c17::drivers(thorough),
        "C18" => c18::drivers(thorough),
        "C19" => c19::drivers(thorough),
        "C20" => c20::drivers(thorough),
        "C21" => c21::drivers(thorough),
        "C22" => c22::drivers(thorough),
        "C23" => c23::drivers(thorough),
        "C24" => c24::drivers(thorough),
        "C25" => c25::drivers(thorough),
        "C26" => c26::drivers(thorough),
        _ => return None,
    })
}
