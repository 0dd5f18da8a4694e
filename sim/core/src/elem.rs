//! Element types fed to the code under test.  `Elem` numbers the values of a type independently of `EnumLike`
//! (keys), so the harness never relies on the conversions it is testing.
use crate::seam::{g, hook, note, Pt};
use enum_like::EnumLike;
use enum_like_derive::EnumLike;
use std::fmt;

pub trait Elem: EnumLike + fmt::Debug + Ord + std::hash::Hash + 'static {
    /// Number of values, counted by the harness.
    const CARD: u128;
    fn make(k: u64) -> Self;
    fn key(self) -> u64;
}

/// Scripted caller type with `N` values.  Its conversions are call-backs: the simulator may suspend or crash the
/// caller inside them, and they record every number they are asked to convert.
#[derive(Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct P<const N: u64>(u64);
#[allow(clippy::non_canonical_clone_impl)]
impl<const N: u64> Clone for P<N> {
    fn clone(&self) -> Self {
        hook(Pt::ElemClone, || ());
        *self
    }
}

unsafe impl<const N: u64> EnumLike for P<N> {
    const NUM_VARIANTS: usize = N as usize;
    fn to_discr(self) -> usize {
        hook(Pt::ToDiscr, || ());
        if self.0 >= N {
            return 0; // only after an invalid number was already recorded
        }
        (N - 1 - self.0) as usize
    }
    fn from_discr(x: usize) -> Self {
        hook(Pt::FromDiscr, || ());
        if x as u64 >= N {
            return P(bad_discr(x, N));
        }
        P(N - 1 - x as u64)
    }
}
#[cold]
#[inline(never)]
fn bad_discr(x: usize, n: u64) -> u64 {
    // a table lookup in safe caller code would panic; return something checkable instead
    let gl = g();
    gl.invalid_discr += 1;
    gl.invalid_info = (x as u64, n);
    note(110, 1);
    u64::MAX
}
impl<const N: u64> fmt::Debug for P<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        hook(Pt::ElemFmt, || ());
        write!(f, "P({})", self.0)
    }
}
impl<const N: u64> Elem for P<N> {
    const CARD: u128 = N as u128;
    fn make(k: u64) -> Self {
        P(k)
    }
    fn key(self) -> u64 {
        self.0
    }
}

/// Plain caller type with `N` values.
#[cfg(feature = "widths")]
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Q<const N: u64>(u64);
#[cfg(feature = "widths")]
unsafe impl<const N: u64> EnumLike for Q<N> {
    const NUM_VARIANTS: usize = N as usize;
    fn to_discr(self) -> usize {
        self.0.wrapping_sub(1).min(N - 1) as usize
    }
    fn from_discr(x: usize) -> Self {
        Q(if x as u64 >= N { bad_discr(x, N) } else { (x as u64 + 1) % N })
    }
}
#[cfg(feature = "widths")]
impl<const N: u64> Elem for Q<N> {
    const CARD: u128 = N as u128;
    fn make(k: u64) -> Self {
        Q(k)
    }
    fn key(self) -> u64 {
        self.0
    }
}

impl Elem for () {
    const CARD: u128 = 1;
    fn make(_: u64) -> Self {}
    fn key(self) -> u64 {
        0
    }
}
impl Elem for bool {
    const CARD: u128 = 2;
    fn make(k: u64) -> Self {
        k == 1
    }
    fn key(self) -> u64 {
        self as u64
    }
}
impl<T: Elem> Elem for Option<T> {
    const CARD: u128 = T::CARD + 1;
    fn make(k: u64) -> Self {
        if k == 0 { None } else { Some(T::make(k - 1)) }
    }
    fn key(self) -> u64 {
        match self {
            None => 0,
            Some(x) => x.key().wrapping_add(1),
        }
    }
}
impl<T: Elem, S: Elem> Elem for Result<T, S> {
    const CARD: u128 = T::CARD + S::CARD;
    fn make(k: u64) -> Self {
        if (k as u128) < S::CARD { Err(S::make(k)) } else { Ok(T::make(k - S::CARD as u64)) }
    }
    fn key(self) -> u64 {
        match self {
            Err(x) => x.key(),
            Ok(x) => x.key().wrapping_add(S::CARD as u64),
        }
    }
}
impl<T: Elem, const M: usize> Elem for [T; M]
where
    [T; M]: EnumLike,
{
    const CARD: u128 = {
        let mut c = 1;
        let mut i = 0;
        while i < M {
            c *= T::CARD;
            i += 1;
        }
        c
    };
    fn make(mut k: u64) -> Self {
        let c = T::CARD as u64;
        [(); M].map(|_| {
            let x = T::make(k % c);
            k /= c;
            x
        })
    }
    fn key(self) -> u64 {
        let mut k = 0u64;
        for x in self.iter().rev() {
            k = k.wrapping_mul(T::CARD as u64).wrapping_add(x.key());
        }
        k
    }
}
macro_rules! tuple_elem {
    ($($t:ident . $i:tt),+) => {
        impl<$($t: Elem),+> Elem for ($($t,)+) {
            const CARD: u128 = 1 $(* $t::CARD)+;
            #[allow(unused_assignments)]
            fn make(mut k: u64) -> Self {
                ($({ let c = $t::CARD as u64; let x = $t::make(k % c); k /= c; x },)+)
            }
            #[allow(unused_assignments)]
            fn key(self) -> u64 {
                let mut m = 1u64;
                let mut k = 0u64;
                $( k = k.wrapping_add(self.$i.key().wrapping_mul(m)); m = m.wrapping_mul($t::CARD as u64); )+
                k
            }
        }
    };
}
tuple_elem!(A.0);
tuple_elem!(A.0, B.1);
tuple_elem!(A.0, B.1, C.2);
tuple_elem!(A.0, B.1, C.2, D.3);
tuple_elem!(A.0, B.1, C.2, D.3, E.4);
tuple_elem!(A.0, B.1, C.2, D.3, E.4, F.5, G.6);
tuple_elem!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8, J.9, K.10, L.11);

/// Caller types that keep their values in the library's packed wrappers.
macro_rules! packed_elem {
    ($n:ident $p:ident) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n<T>(enum_like::$p<T>);
        unsafe impl<T: EnumLike> EnumLike for $n<T> {
            const NUM_VARIANTS: usize = T::NUM_VARIANTS;
            fn to_discr(self) -> usize {
                self.0.get().to_discr()
            }
            fn from_discr(x: usize) -> Self {
                $n(enum_like::$p::new(T::from_discr(x)))
            }
        }
        impl<T: Elem> Elem for $n<T> {
            const CARD: u128 = T::CARD;
            fn make(k: u64) -> Self {
                $n(enum_like::$p::new(T::make(k)))
            }
            fn key(self) -> u64 {
                self.0.get().key()
            }
        }
    };
}
packed_elem!(Pk8 PackedU8);
packed_elem!(Pk16 PackedU16);


macro_rules! flat_elem {
    ($t:ty, $n:expr, [$($k:expr => $p:pat => $v:expr),+ $(,)?]) => {
        impl Elem for $t {
            const CARD: u128 = $n;
            fn make(k: u64) -> Self {
                match k { $($k => $v,)+ _ => panic!("harness: bad key") }
            }
            fn key(self) -> u64 {
                match self { $($p => $k,)+ }
            }
        }
    };
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
pub enum Abc {
    A,
    B,
    C,
}
flat_elem!(Abc, 3, [0 => Abc::B => Abc::B, 1 => Abc::C => Abc::C, 2 => Abc::A => Abc::A]);

/// Explicit discriminants: no valid value has a zero byte pattern.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
#[repr(u8)]
pub enum Big {
    A = 100,
    B = 101,
    C = 230,
}
flat_elem!(Big, 3, [0 => Big::C => Big::C, 1 => Big::A => Big::A, 2 => Big::B => Big::B]);

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
#[repr(i32)]
pub enum Neg {
    X = -5,
    Y = 7,
    Z = 1000,
    W = 1001,
    V = -1,
}
flat_elem!(Neg, 5, [0 => Neg::V => Neg::V, 1 => Neg::X => Neg::X, 2 => Neg::Z => Neg::Z, 3 => Neg::W => Neg::W, 4 => Neg::Y => Neg::Y]);

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
pub struct Pair {
    pub a: Abc,
    pub b: bool,
    pub c: Option<Abc>,
}
impl Elem for Pair {
    const CARD: u128 = 24;
    fn make(k: u64) -> Self {
        Pair { c: Elem::make(k % 4), b: Elem::make(k / 4 % 2), a: Elem::make(k / 8) }
    }
    fn key(self) -> u64 {
        self.c.key() + 4 * self.b.key() + 8 * self.a.key()
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
pub struct Wrap(pub Pair, pub Big);
impl Elem for Wrap {
    const CARD: u128 = 72;
    fn make(k: u64) -> Self {
        Wrap(Elem::make(k % 24), Elem::make(k / 24))
    }
    fn key(self) -> u64 {
        self.0.key() + 24 * self.1.key()
    }
}

/// Every variant shape at once, unit variants not first.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
pub enum Rich {
    T(Abc, bool),
    U,
    N { x: Pair, y: bool },
    V,
    O(Option<Neg>),
}
impl Elem for Rich {
    const CARD: u128 = 6 + 1 + 48 + 1 + 6;
    fn make(k: u64) -> Self {
        match k {
            0 => Rich::V,
            1..=6 => Rich::O(Elem::make(k - 1)),
            7..=12 => Rich::T(Elem::make((k - 7) % 3), Elem::make((k - 7) / 3)),
            13 => Rich::U,
            _ => Rich::N { x: Elem::make((k - 14) % 24), y: Elem::make((k - 14) / 24) },
        }
    }
    fn key(self) -> u64 {
        match self {
            Rich::V => 0,
            Rich::O(o) => 1 + o.key(),
            Rich::T(a, b) => 7 + a.key() + 3 * b.key(),
            Rich::U => 13,
            Rich::N { x, y } => 14 + x.key() + 24 * y.key(),
        }
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
pub enum Gen<T, S: Copy> {
    No,
    One(T),
    Two { l: T, r: S },
    Other(S, S, bool),
}
impl<T: Elem, S: Elem> Elem for Gen<T, S> {
    const CARD: u128 = 1 + T::CARD + T::CARD * S::CARD + 2 * S::CARD * S::CARD;
    fn make(k: u64) -> Self {
        let (t, s) = (T::CARD as u64, S::CARD as u64);
        if k < 2 * s * s {
            return Gen::Other(S::make(k % s), S::make(k / s % s), bool::make(k / s / s));
        }
        let k = k - 2 * s * s;
        if k == 0 {
            return Gen::No;
        }
        let k = k - 1;
        if k < t * s {
            return Gen::Two { l: T::make(k % t), r: S::make(k / t) };
        }
        Gen::One(T::make(k - t * s))
    }
    fn key(self) -> u64 {
        let (t, s) = (T::CARD as u64, S::CARD as u64);
        match self {
            Gen::Other(a, b, c) => a.key() + s * b.key() + s * s * c.key(),
            Gen::No => 2 * s * s,
            Gen::Two { l, r } => 2 * s * s + 1 + l.key() + t * r.key(),
            Gen::One(x) => 2 * s * s + 1 + t * s + x.key(),
        }
    }
}
