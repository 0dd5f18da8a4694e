use sim_core::elem::*;
sim_core::kinds! {
    smalls smallvec_u32 [
        0 bool,
        1 P<3>,
        1 P<5>,
        1 P<20>,
        1 P<50>,
        1 P<100>,
        1 P<300>,
        1 P<70000>,
        1 P<4294967296>,
        0 Abc,
        0 Option<Neg>,
        0 [Big; 2],
        0 Wrap,
        1 (P<3>, P<4>),
        0 Option<Option<bool>>,
        1 [P<3>; 2],
    ]
}
