//! The instances of the code under test that are simulated (one crate per group: they compile in parallel).
use crate::setobj::SetKind;
use crate::vecobj::Kind;
use std::sync::OnceLock;

type Kinds = Vec<&'static dyn Kind>;
pub fn kinds() -> &'static [&'static dyn Kind] {
    static K: OnceLock<Kinds> = OnceLock::new();
    K.get_or_init(|| [sim_u8a::KINDS, sim_u8b::KINDS, sim_u16a::KINDS, sim_u16b::KINDS, sim_u32a::KINDS, sim_u32b::KINDS, sim_u64::KINDS, sim_u128::KINDS, sim_small::KINDS].concat())
}
/// Instances that only differ in width.
pub fn slim() -> &'static [&'static dyn Kind] {
    static K: OnceLock<Kinds> = OnceLock::new();
    #[cfg(feature = "widths")]
    return K.get_or_init(|| [sim_u8w::SLIM, sim_u16w::SLIM, sim_u32w::SLIM, sim_u64wa::SLIM, sim_u64wb::SLIM, sim_u128wa::SLIM, sim_u128wb::SLIM, sim_smallw::SLIM].concat());
    #[cfg(not(feature = "widths"))]
    K.get_or_init(Vec::new)
}
pub fn sets() -> &'static [&'static dyn SetKind] {
    sim_sets::SETS
}
