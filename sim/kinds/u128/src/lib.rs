use sim_core::elem::*;
sim_core::kinds! {
    u128s vec_u128 [
        0 bool,
        1 P<3>,
        1 P<5>,
        1 P<16>,
        1 P<100>,
        1 P<256>,
        1 P<2000>,
        1 P<70000>,
        1 P<16777217>,
        1 P<4294967296>,
        1 P<8589934593>,
        1 P<8796093022208>,
        1 P<9223372036854775813>,
        0 Pair,
        0 (Abc, Abc, Abc, bool),
        1 Result<P<3>, Option<Pair>>,
        0 [[Abc; 2]; 8],
    ]
}
