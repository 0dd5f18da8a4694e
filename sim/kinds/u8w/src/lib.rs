sim_core::slim! {
    u8s vec_u8 [2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256]
}
