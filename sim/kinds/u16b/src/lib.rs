use sim_core::elem::*;
sim_core::kinds! {
    u16s vec_u16 [
        1 P<4000>,
        1 P<5000>,
        1 P<20000>,
        1 P<60000>,
        1 P<65536>,
        0 (Abc, Neg, bool),
        0 Gen<Abc, bool>,
        0 Rich,
        0 [Neg; 4],
        0 (bool, bool, Abc, bool, bool, (), bool),
        1 Pk8<Option<P<99>>>,
    ]
}
