use sim_core::elem::*;
sim_core::kinds! {
    u32s vec_u32 [
        1 P<4294967296>,
        0 [Big; 2],
        0 Option<[Abc; 3]>,
        0 Result<Abc, Neg>,
        0 (Big,),
        0 [bool; 20],
        0 [[bool; 4]; 5],
        0 Gen<Option<bool>, Abc>,
        0 (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool),
        0 Rich,
        0 Wrap,
        1 Option<P<7>>,
        1 (P<3>, bool),
        1 [P<3>; 3],
        0 [bool; 32],
        0 ((), bool, ()),
        1 Pk16<P<65536>>,
        0 ([(); 3], Abc),
        0 (Option<[Abc; 0]>, [bool; 0]),
    ]
}
