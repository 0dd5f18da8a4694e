//! The simulated environment (memory, scheduler, seams) and type-erased access to the code under test.
#![feature(alloc_error_hook)]
#![allow(clippy::type_complexity, clippy::too_many_arguments)]
pub mod alloc;
pub mod elem;
pub mod ends;
pub mod preempt;
pub mod prog;
pub mod progress;
pub mod rng;
pub mod sched;
pub mod seam;
pub mod setobj;
pub mod vecobj;

/// The instances of one storage variant that are simulated.
#[macro_export]
macro_rules! kinds {
    ($m:ident $p:ident [$($s:tt $t:ty),+ $(,)?]) => {
        pub static KINDS: &[&dyn $crate::vecobj::Kind] = &[$(
            &$crate::vecobj::$m::Kd::<$t>(
                concat!(stringify!($p), "<", stringify!($t), ">"), $s == 1,
                $crate::probe!("EnumVec" => enum_vec::$p::EnumVec<$t>, "EnumVecIter" => enum_vec::$p::EnumVecIter<'static, $t>,
                       "EnumVecIntoIter" => enum_vec::$p::EnumVecIntoIter<$t>, "Values" => enum_vec::Values<$t>),
                std::marker::PhantomData),
        )+];
    };
}
#[macro_export]
macro_rules! probe {
    ($($n:expr => $t:ty),+ $(,)?) => {
        || {
            #[allow(unused_imports)] // only used when an auto trait is missing
            use $crate::vecobj::{NotSend as _, NotSync as _, Probe};
            vec![$(
                (concat!($n, ": Send"), Probe::<$t>::SEND),
                (concat!($n, ": Sync"), Probe::<$t>::SYNC),
            )+]
        }
    };
}
#[macro_export]
macro_rules! sets {
    ($($t:ty),+ $(,)?) => {
        pub static SETS: &[&dyn $crate::setobj::SetKind] = &[$(
            &$crate::setobj::Kd::<$t>(
                concat!("EnumSet<", stringify!($t), ">"),
                $crate::probe!("EnumSet" => enum_set2::EnumSet<$t>, "set::Iter" => enum_set2::Iter<'static, $t>,
                       "set::Union" => enum_set2::Union<'static, $t>),
                std::marker::PhantomData),
        )+];
    };
}
/// Every width, and every number of values at which the width changes.
#[macro_export]
macro_rules! slim {
    ($m:ident $p:ident [$($n:tt),+ $(,)?]) => {
        #[cfg(feature = "widths")]
        pub static SLIM: &[&dyn $crate::vecobj::Kind] = &[$(
            &$crate::vecobj::$m::Sd::<$crate::elem::Q<$n>>(concat!(stringify!($p), "<Q<", stringify!($n), ">>"), std::marker::PhantomData),
        )+];
        #[cfg(not(feature = "widths"))]
        pub static SLIM: &[&dyn $crate::vecobj::Kind] = &[];
    };
}
