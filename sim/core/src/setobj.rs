//! Type-erased access to `EnumSet`, in key space.
use crate::elem::Elem;
use crate::ends::{Coll, Rec, Script, Sink, SrcLog};
use crate::vecobj::{one_way, values_of, Cursor};
use crate::seam::{hook, quiet, sut, Out, Pt};
use enum_set2::EnumSet;
use std::any::Any;
use std::cmp::Ordering;
use std::marker::PhantomData;
use std::rc::Rc;

pub type S = Box<dyn SetObj>;
pub trait SetObj {
    fn as_any(&self) -> &dyn Any;
    fn snapshot(&self) -> Result<Vec<u64>, String>;
    fn contains_quiet(&self, k: u64) -> Result<bool, String>;
    fn insert(&mut self, k: u64) -> Out<bool>;
    fn remove(&mut self, k: u64) -> Out<bool>;
    fn contains(&self, k: u64) -> Out<bool>;
    fn clear(&mut self) -> Out<()>;
    fn extend(&mut self, s: &Script) -> (Out<()>, Rc<SrcLog>);
    fn shrink(&mut self) -> Out<()>;
    fn len(&self) -> Out<(usize, bool)>;
    /// 0 union 1 intersection 2 difference 3 symmetric difference
    fn algebra(&self, o: &dyn SetObj, which: u64) -> Out<Vec<u64>>;
    fn algebra_with(&mut self, o: &dyn SetObj, which: u64) -> Out<()>;
    /// disjoint, subset, superset
    fn tests(&self, o: &dyn SetObj) -> Out<(bool, bool, bool)>;
    fn eq(&self, o: &dyn SetObj) -> Out<(bool, bool, Ordering, Option<Ordering>)>;
    fn hash(&self) -> Out<Vec<u8>>;
    fn clone_obj(&self) -> Out<S>;
    fn clone_from(&mut self, o: &dyn SetObj) -> Out<()>;
    fn iter_all(&self, how: u64) -> Out<Vec<u64>>;
    /// `extra`: spare internal capacity added on the way; also checks what the bit set itself says.
    fn round_trip(self: Box<Self>, extra: usize, how: u64) -> Out<S>;
    /// A set made of this one's numbers (or none) and `n`: the numbers it took over.
    fn from_bad(&self, n: usize, only: bool) -> Out<Vec<usize>>;
    /// 0..3 as `algebra`, 4 this set; nothing may change either set while the cursor is alive.
    fn cursor(&self, o: &dyn SetObj, which: u64) -> Box<dyn Cursor>;
    /// The order in which that cursor should yield.
    fn order(&self, o: &dyn SetObj, which: u64) -> Result<Vec<u64>, String>;
    fn inner_len(&self) -> Out<usize>;
    fn debug(&self, s: &mut Sink, style: u64) -> Out<bool>;
    fn drop_it(self: Box<Self>) -> Out<()>;
}
pub trait SetKind: Sync {
    fn name(&self) -> &'static str;
    fn card(&self) -> u64;
    fn new(&self, how: u64) -> Out<S>;
    fn collect(&self, s: &Script) -> (Out<S>, Rc<SrcLog>);
    fn debug_text(&self, ks: &[u64], style: u64) -> String;
    fn send_sync(&self) -> Vec<(&'static str, bool)>;
    fn values(&self) -> Box<dyn Cursor>;
    /// The keys of the first values, at most `n`.
    fn value_order(&self, n: usize) -> Vec<u64>;
}
struct V<E: Elem>(EnumSet<E>);
fn bx<E: Elem>(s: EnumSet<E>) -> S {
    Box::new(V(s))
}
fn of<E: Elem>(o: &dyn SetObj) -> &EnumSet<E> {
    &o.as_any().downcast_ref::<V<E>>().expect("harness: kinds differ").0
}
fn keys<T: Elem>(v: Vec<T>) -> Vec<u64> {
    v.into_iter().map(|x| x.key()).collect()
}
impl<E: Elem> SetObj for V<E> {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn snapshot(&self) -> Result<Vec<u64>, String> {
        quiet(|| self.0.iter().map(|x| x.key()).collect())
    }
    fn contains_quiet(&self, k: u64) -> Result<bool, String> {
        let x = E::make(k);
        quiet(|| self.0.contains(x))
    }
    fn insert(&mut self, k: u64) -> Out<bool> {
        let x = E::make(k);
        sut(|| self.0.insert(x))
    }
    fn remove(&mut self, k: u64) -> Out<bool> {
        let x = E::make(k);
        sut(|| self.0.remove(x))
    }
    fn contains(&self, k: u64) -> Out<bool> {
        let x = E::make(k);
        sut(|| self.0.contains(x))
    }
    fn clear(&mut self) -> Out<()> {
        sut(|| self.0.clear())
    }
    fn extend(&mut self, s: &Script) -> (Out<()>, Rc<SrcLog>) {
        let (c, l) = Coll::<E>::new(s);
        (sut(|| self.0.extend(c)), l)
    }
    fn shrink(&mut self) -> Out<()> {
        sut(|| self.0.shrink_to_fit())
    }
    fn len(&self) -> Out<(usize, bool)> {
        sut(|| (self.0.len(), self.0.is_empty()))
    }
    fn algebra(&self, o: &dyn SetObj, which: u64) -> Out<Vec<u64>> {
        let o = of::<E>(o);
        sut(|| match which {
            0 => self.0.union(o).collect::<Vec<E>>(),
            1 => self.0.intersection(o).collect(),
            2 => self.0.difference(o).collect(),
            _ => self.0.symmetric_difference(o).collect(),
        })
        .map(keys)
    }
    fn algebra_with(&mut self, o: &dyn SetObj, which: u64) -> Out<()> {
        let o = of::<E>(o);
        sut(|| match which {
            0 => self.0.union_with(o),
            1 => self.0.intersect_with(o),
            2 => self.0.difference_with(o),
            _ => self.0.symmetric_difference_with(o),
        })
    }
    fn tests(&self, o: &dyn SetObj) -> Out<(bool, bool, bool)> {
        let o = of::<E>(o);
        sut(|| (self.0.is_disjoint(o), self.0.is_subset(o), self.0.is_superset(o)))
    }
    fn eq(&self, o: &dyn SetObj) -> Out<(bool, bool, Ordering, Option<Ordering>)> {
        let o = of::<E>(o);
        sut(|| (self.0 == *o, self.0 != *o, self.0.cmp(o), self.0.partial_cmp(o)))
    }
    fn hash(&self) -> Out<Vec<u8>> {
        let mut h = Rec::default();
        sut(|| std::hash::Hash::hash(&self.0, &mut h)).map(|_| h.0)
    }
    fn clone_obj(&self) -> Out<S> {
        sut(|| self.0.clone()).map(bx)
    }
    fn clone_from(&mut self, o: &dyn SetObj) -> Out<()> {
        let o = of::<E>(o);
        sut(|| self.0.clone_from(o))
    }
    fn iter_all(&self, how: u64) -> Out<Vec<u64>> {
        let mut v = Vec::new();
        match how % 3 {
            0 => sut(|| {
                for x in &self.0 {
                    hook(Pt::Closure, || v.push(x.key()))
                }
            }),
            1 => sut(|| self.0.iter().collect::<Vec<E>>()).map(|c| v = keys(c)),
            _ => sut(|| self.0.iter().for_each(|x| hook(Pt::Closure, || v.push(x.key())))),
        }
        .map(|_| v)
    }
    fn round_trip(self: Box<Self>, extra: usize, how: u64) -> Out<S> {
        let s = self.0;
        sut(move || -> EnumSet<E> {
            if how % 3 == 0 {
                // same members, more internal room
                let mut b = bit_set::BitSet::with_capacity(extra);
                b.union_with(s.get_ref());
                EnumSet::from_bit_set(b)
            } else if how % 3 == 1 {
                let mut b = s.into_bit_set();
                b.reserve_len(extra);
                EnumSet::from_bit_set(b)
            } else {
                EnumSet::from_bit_set(s.into_bit_set())
            }
        })
        .map(bx)
    }
    fn from_bad(&self, n: usize, only: bool) -> Out<Vec<usize>> {
        let mut b = if only { bit_set::BitSet::new() } else { self.0.get_ref().clone() };
        b.insert(n);
        sut(move || EnumSet::<E>::from_bit_set(b)).map(|s| s.get_ref().iter().collect())
    }
    fn cursor(&self, o: &dyn SetObj, which: u64) -> Box<dyn Cursor> {
        let (a, b): (&'static EnumSet<E>, &'static EnumSet<E>) = unsafe { (&*(&self.0 as *const _), &*(of::<E>(o) as *const _)) };
        match which {
            0 => one_way(a.union(b)),
            1 => one_way(a.intersection(b)),
            2 => one_way(a.difference(b)),
            3 => one_way(a.symmetric_difference(b)),
            _ => one_way(a.iter()),
        }
    }
    fn order(&self, o: &dyn SetObj, which: u64) -> Result<Vec<u64>, String> {
        fn walk<E: Elem>(mut i: impl Iterator<Item = E>) -> Vec<u64> {
            let mut v = vec![];
            while let Some(x) = i.next() {
                v.push(x.key());
                if v.len() > 1 << 20 {
                    panic!("does not end");
                }
            }
            v
        }
        let (a, b) = (&self.0, of::<E>(o));
        quiet(|| match which {
            0 => walk(a.union(b)),
            1 => walk(a.intersection(b)),
            2 => walk(a.difference(b)),
            3 => walk(a.symmetric_difference(b)),
            _ => walk(a.iter()),
        })
    }
    fn inner_len(&self) -> Out<usize> {
        sut(|| self.0.get_ref().len())
    }
    fn debug(&self, s: &mut Sink, style: u64) -> Out<bool> {
        crate::ends::debug_to(&self.0, s, style)
    }
    fn drop_it(self: Box<Self>) -> Out<()> {
        let v = self.0;
        sut(move || drop(v))
    }
}
pub struct Kd<E>(pub &'static str, pub fn() -> Vec<(&'static str, bool)>, pub PhantomData<fn() -> E>);
impl<E: Elem> SetKind for Kd<E> {
    fn name(&self) -> &'static str {
        self.0
    }
    fn card(&self) -> u64 {
        E::CARD as u64
    }
    fn new(&self, how: u64) -> Out<S> {
        if how % 2 == 0 { sut(EnumSet::<E>::new).map(bx) } else { sut(EnumSet::<E>::default).map(bx) }
    }
    fn collect(&self, s: &Script) -> (Out<S>, Rc<SrcLog>) {
        let (c, l) = Coll::<E>::new(s);
        (sut(|| <EnumSet<E> as std::iter::FromIterator<E>>::from_iter(c)).map(bx), l)
    }
    fn debug_text(&self, ks: &[u64], style: u64) -> String {
        struct D<T>(Vec<T>);
        impl<T: std::fmt::Debug> std::fmt::Debug for D<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.debug_set().entries(self.0.iter()).finish()
            }
        }
        let v = D(ks.iter().map(|&k| E::make(k)).collect::<Vec<E>>());
        crate::ends::text(&v, style)
    }
    fn send_sync(&self) -> Vec<(&'static str, bool)> {
        (self.1)()
    }
    fn values(&self) -> Box<dyn Cursor> {
        values_of::<E>()
    }
    fn value_order(&self, n: usize) -> Vec<u64> {
        (0..E::NUM_VARIANTS.min(n)).map(|d| E::from_discr(d).key()).collect()
    }
}
