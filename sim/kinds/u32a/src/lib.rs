use sim_core::elem::*;
sim_core::kinds! {
    u32s vec_u32 [
        0 bool,
        1 P<2>,
        1 P<3>,
        1 P<5>,
        1 P<10>,
        1 P<20>,
        1 P<50>,
        1 P<100>,
        1 P<256>,
        1 P<257>,
        1 P<1000>,
        1 P<1500>,
        1 P<20000>,
        1 P<40000>,
        1 P<70000>,
        1 P<1500000>,
        1 P<2147483648>,
        1 P<4294967295>,
    ]
}
