sim_core::slim! {
    smalls smallvec_u32 [2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 512, 513, 1024, 1025, 2048, 2049, 4096, 4097, 8192, 8193, 16384, 16385, 32768, 32769, 65536, 65537, 131072, 131073, 262144, 262145, 524288, 524289, 1048576, 1048577, 2097152, 2097153, 4194304, 4194305, 8388608, 8388609, 16777216, 16777217, 33554432, 33554433, 67108864, 67108865, 134217728, 134217729, 268435456, 268435457, 536870912, 536870913, 1073741824, 1073741825, 2147483648, 2147483649, 4294967296]
}
