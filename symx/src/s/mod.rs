//! Scenarios per property. Each one drives the library's public operations on symbolic elements and
//! states what the reference model says about the results.
use crate::engine::Scenario;

mod data;
mod fail;
mod grad;
mod net;
mod par;
mod round;
mod special;

pub fn scenarios(prop: &str, tier: &str) -> Vec<Scenario> {
    let t = tier == "thorough";
    match prop {
        "C01" => data::c01(t),
        "C02" => data::c02(t),
        "C03" => data::c03(t),
        "C04" => data::c04(t),
        "C05" => data::c05(t),
        "C06" => data::c06(t),
        "C07" => data::c07(t),
        "C08" => data::c08(t),
        "C09" => data::c09(t),
        "C10" => grad::c10(t),
        "C11" => grad::c11(t),
        "C12" => grad::c12(t),
        "C13" => grad::c13(t),
        "C15" => par::c15(t),
        "C16" => net::c16(t),
        "C17" => net::c17(t),
        "C18" => net::c18(t),
        "C19" => net::c19(t),
        "C20" => grad::c20(t),
        "C21" => data::c21(t),
        "C22" => data::c22(t),
        "C23" => data::c23(t),
        "C25" => data::c25(t),
        "C28" => special::c28(t),
        "C29" => special::c29(t),
        "C30" => round::c30(t),
        "C24" => fail::c24(t),
        _ => panic!("symx: no scenarios for {prop}"),
    }
}
