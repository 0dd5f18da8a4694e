use sim_core::elem::*;
sim_core::kinds! {
    u64s vec_u64 [
        0 bool,
        1 P<3>,
        1 P<5>,
        1 P<16>,
        1 P<17>,
        1 P<100>,
        1 P<256>,
        1 P<500>,
        1 P<2049>,
        1 P<1000>,
        1 P<2000000>,
        1 P<3000000>,
        1 P<4294967296>,
        1 P<4294967297>,
        1 P<1099511627776>,
        1 P<9223372036854775809>,
        1 P<18446744073709551615>,
        0 Rich,
        0 [Big; 3],
        0 [Neg; 15],
        0 [Abc; 32],
    ]
}
