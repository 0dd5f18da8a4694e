use sim_core::elem::*;
sim_core::kinds! {
    u8s vec_u8 [
        0 bool,
        1 P<2>,
        1 P<3>,
        1 P<4>,
        0 Abc,
        0 Option<bool>,
        1 P<5>,
        1 P<8>,
        0 Neg,
        1 P<9>,
        1 P<16>,
        1 P<17>,
        0 Pair,
    ]
}
