mod api;
mod decls;
mod extra;
mod misc;
pub use misc::{__model_fdatasync, __model_fsync, __model_ftruncate64, __model_lseek64, __model_pwrite64, __model_write, __model_writev, Iov, FD};
mod objs;

/// entry point: check one property at one depth (tier 0 quick, 1 thorough)
pub fn run(id: u32, tier: u32) {
    match id {
        1 => api::c01(tier),
        2 => api::c02(tier),
        3 => api::c03(tier),
        4 => api::c04(tier),
        5 => api::c05(tier),
        6 => misc::c06(tier),
        7 => objs::c07(tier),
        8 => objs::c08(tier),
        9 => objs::c09(tier),
        10 => objs::c10(tier),
        11 => objs::c11(tier),
        12 => objs::c12(tier),
        13 => objs::c13(tier),
        14 => objs::c14(tier),
        15 => objs::c15(tier),
        16 => objs::c16(tier),
        17 => objs::c17(tier),
        18 => misc::c18(tier),
        19 => misc::c19(tier),
        20 => decls::c20(tier),
        21 => misc::c21(tier),
        22 => extra::c22(tier),
        23 => extra::c23(tier),
        24 => extra::c24(tier),
        25 => extra::c25(tier),
        26 => extra::c26(tier),
        _ => crate::sym::fail("no such property"),
    }
    crate::sym::reach("end");
}
