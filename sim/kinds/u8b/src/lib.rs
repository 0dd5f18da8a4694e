use sim_core::elem::*;
sim_core::kinds! {
    u8s vec_u8 [
        1 P<33>,
        0 Rich,
        1 P<100>,
        0 Wrap,
        1 P<200>,
        1 P<256>,
        0 [Big; 2],
        1 Option<P<7>>,
        0 Option<()>,
        0 Option<Option<bool>>,
        0 [bool; 7],
        1 Pk8<P<256>>,
        0 Result<(), ()>,
    ]
}
