use sim_core::elem::*;
sim_core::kinds! {
    u16s vec_u16 [
        0 bool,
        1 P<3>,
        1 P<7>,
        1 P<16>,
        1 P<25>,
        1 P<60>,
        1 P<128>,
        1 P<256>,
        1 P<300>,
        1 P<1000>,
        1 P<2000>,
    ]
}
