use crate::job::{Job, Tier};
pub mod core;
pub mod config;
#[cfg(feature = "dot")]
pub mod dot;
#[cfg(not(dam_mc_plain))]
pub mod dram;
pub mod pcu;
#[cfg(feature = "log")]
pub mod logging;
pub mod run;
pub mod store;
pub mod device;
pub mod util;
pub mod progs;
pub mod time;
pub mod types;
pub fn jobs(prop: &str, tier: Tier) -> Vec<Job> {
    match prop {
        "C01" => core::c01(tier),
        "C04" => core::c04(tier),
        "C02" => core::c02(tier),
        "C03" => core::c03(tier),
        "C05" => core::c05(tier),
        "C06" => core::c06(tier),
        "C08" => core::c08(tier),
        "C09" => util::c09(tier),
        "C12" => store::c12(tier),
        "C13" => store::c13(tier),
        "C15" => pcu::c15(tier),
        #[cfg(not(dam_mc_plain))]
        "C14" => dram::c14(tier),
        "C16" => util::c16(tier),
        "C17" => util::c17(tier),
        "C23" => util::c23(tier),
        "C10" => run::c10(tier),
        "C11" => run::c11(tier),
        "C20" => run::c20(tier),
        "C24" => run::c24(tier),
        "C26" => run::c26(tier),
        "C07" => time::c07(tier),
        #[cfg(feature = "log")]
        "C18" => logging::c18(tier),
        #[cfg(feature = "dot")]
        "C21" => dot::c21(tier),
        "C22" => config::c22(tier),
        "C25" => types::c25(tier),
        "C19" => time::c19(tier),
        _ => vec![],
    }
}
