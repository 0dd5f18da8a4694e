//! Type-erased access to every vector variant of the code under test, in key space.
use crate::elem::Elem;
use crate::ends::{Coll, Rec, Script, Sink, SrcLog};
use crate::seam::{hook, off, quiet, sut, Out, Pt};
use std::any::Any;
use std::marker::PhantomData;
use std::rc::Rc;

macro_rules! cur_ops {
    ($($n:ident),+ $(,)?) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        #[repr(u8)]
        pub enum CurOp { $($n),+ }
        pub const CUR_OPS: &[CurOp] = &[$(CurOp::$n),+];
    };
}
cur_ops! {
    // the cursor stays usable
    Next, NextBack, Nth, NthBack, Len, Hint, SkipNext, RevNth, TakeCollect, Position, RFind,
    Find, AnyOf, AllOf, RPosition, TakeWhile, Peek, RevTake,
    // the cursor is used up
    Count, Last, Collect, RevCollect, Fold, RFold, StepBy, SkipCollect, ForEach, Max, Min, Partition, RevStep,
    MapCollect, Enumerate,
}
pub const CUR_KEEP: u64 = CurOp::Count as u64;
impl CurOp {
    pub fn consumes(self) -> bool {
        self as u8 >= CurOp::Count as u8
    }
    pub fn backwards(self) -> bool {
        use CurOp::*;
        matches!(self, NextBack | NthBack | RevNth | RFind | RevCollect | RFold | RPosition | RevTake | RevStep)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CurRes {
    Item(Option<u64>),
    Items(Vec<u64>),
    Num(usize),
    Hint(usize, Option<usize>),
    /// The answer, and what the closure was shown on the way.
    Walk(Option<u64>, Vec<u64>),
    Unsupported,
}
pub trait Cursor {
    fn call(&mut self, op: CurOp, n: usize) -> Out<CurRes>;
    /// Number of remaining items as the cursor reports it.
    fn left(&self) -> Result<(usize, Option<usize>), String>;
    fn double_ended(&self) -> bool;
    /// Does size_hint promise the exact number?
    fn exact(&self) -> bool {
        true
    }
    fn dup(&self) -> Option<Out<Box<dyn Cursor>>> {
        None
    }
}

fn keys<T: Elem>(v: &[T]) -> Vec<u64> {
    off(|| {
        let mut o = Vec::with_capacity(v.len());
        for x in v {
            o.push(x.key());
        }
        o
    })
}
/// Forward only, inexact.
struct One<I>(Option<I>);
/// Forward only.
struct Vals<T: Elem>(Option<enum_vec::Values<T>>);
struct Both<I>(Option<I>);
pub fn one_way<T: Elem, I: Iterator<Item = T> + 'static>(i: I) -> Box<dyn Cursor> {
    Box::new(One(Some(i)))
}
pub fn values_of<T: Elem>() -> Box<dyn Cursor> {
    Box::new(Vals(Some(<T as enum_vec::EnumValues>::values())))
}

fn item<T: Elem>(x: Option<T>) -> CurRes {
    CurRes::Item(match x {
        Some(x) => Some(x.key()),
        None => None,
    })
}
/// What the predicates handed to cursors look for.
pub fn hit(k: u64, n: usize) -> bool {
    k % 5 == n as u64 % 5
}
/// Through the adaptors of the standard library, which see the cursor's `next`, `nth` and `size_hint`.
#[inline(never)]
fn fwd_adapt<T: Elem>(i: &mut dyn Iterator<Item = T>, op: CurOp, n: usize, v: &mut Vec<u64>) -> CurRes {
    match op {
        CurOp::StepBy => CurRes::Items(keys(&i.step_by(n.max(1)).collect::<Vec<T>>())),
        CurOp::MapCollect => CurRes::Items(i.map(|x| hook(Pt::Closure, || x.key())).collect()),
        CurOp::Enumerate => {
            let mut at = 0;
            i.enumerate().for_each(|(j, x)| hook(Pt::Closure, || {
                v.push(if j == at { x.key() } else { u64::MAX });
                at += 1;
            }));
            CurRes::Items(std::mem::take(v))
        }
        CurOp::SkipNext => item(i.skip(n).next()),
        CurOp::Peek => {
            // peeking takes one item out of the cursor
            let mut p = i.peekable();
            let a = p.peek().map(|x| x.key());
            let b = p.next().map(|x| x.key());
            CurRes::Item(if a == b { a } else { Some(u64::MAX) })
        }
        CurOp::TakeCollect => {
            for x in i.take(n) {
                hook(Pt::Closure, || v.push(x.key()))
            }
            CurRes::Items(std::mem::take(v))
        }
        CurOp::TakeWhile => {
            for x in i.take_while(|x| hook(Pt::Closure, || !hit(x.key(), n))) {
                off(|| v.push(x.key()))
            }
            CurRes::Items(std::mem::take(v))
        }
        CurOp::SkipCollect => CurRes::Items(keys(&i.skip(n).collect::<Vec<T>>())),
        CurOp::Collect => CurRes::Items(keys(&i.collect::<Vec<T>>())),
        _ => CurRes::Unsupported,
    }
}
#[inline(never)]
fn bwd_adapt<T: Elem>(i: &mut dyn DoubleEndedIterator<Item = T>, op: CurOp, n: usize, v: &mut Vec<u64>) -> CurRes {
    match op {
        CurOp::RevNth => return item(i.rev().nth(n)),
        CurOp::RevTake => {
            for x in i.rev().take(n) {
                hook(Pt::Closure, || v.push(x.key()))
            }
        }
        CurOp::RevStep => {
            for x in i.rev().step_by(n.max(1)) {
                hook(Pt::Closure, || v.push(x.key()))
            }
        }
        _ => {
            for x in i.rev() {
                hook(Pt::Closure, || v.push(x.key()))
            }
        }
    }
    CurRes::Items(std::mem::take(v))
}
fn fwd_call<T: Elem, I: Iterator<Item = T>>(it: &mut Option<I>, op: CurOp, n: usize) -> Out<CurRes> {
    let mut v: Vec<u64> = Vec::new();
    let v = &mut v;
    if op.consumes() {
        let mut i = match it.take() {
            Some(i) => i,
            None => return Out::Ok(CurRes::Unsupported),
        };
        return sut(move || match op {
            CurOp::Count => CurRes::Num(i.count()),
            CurOp::Last => item(i.last()),
            CurOp::Fold => {
                i.fold((), |_, x| hook(Pt::Closure, || v.push(x.key())));
                CurRes::Items(std::mem::take(v))
            }
            CurOp::ForEach => {
                i.for_each(|x| hook(Pt::Closure, || v.push(x.key())));
                CurRes::Items(std::mem::take(v))
            }
            CurOp::Max => item(i.max_by(|a, b| hook(Pt::Closure, || (a.key() % 7).cmp(&(b.key() % 7))))),
            CurOp::Min => item(i.min_by_key(|a| hook(Pt::Closure, || a.key() % 7))),
            CurOp::Partition => {
                let (a, b): (Vec<T>, Vec<T>) = i.partition(|x| hook(Pt::Closure, || hit(x.key(), n)));
                let mut k = keys(&a);
                off(|| k.extend(keys(&b)));
                CurRes::Items(k)
            }
            _ => fwd_adapt(&mut i, op, n, v),
        });
    }
    let i = match it.as_mut() {
        Some(i) => i,
        None => return Out::Ok(CurRes::Unsupported),
    };
    sut(|| match op {
        CurOp::Next => item(i.next()),
        CurOp::Nth => item(i.nth(n)),
        CurOp::Hint => {
            let (a, b) = i.size_hint();
            CurRes::Hint(a, b)
        }
        CurOp::Position => {
            let r = i.position(|x| hook(Pt::Closure, || { v.push(x.key()); hit(x.key(), n) })).map(|p| p as u64);
            CurRes::Walk(r, std::mem::take(v))
        }
        CurOp::Find => {
            let r = i.find(|x| hook(Pt::Closure, || { v.push(x.key()); hit(x.key(), n) })).map(|x| x.key());
            CurRes::Walk(r, std::mem::take(v))
        }
        CurOp::AnyOf => {
            let r = i.any(|x| hook(Pt::Closure, || { v.push(x.key()); hit(x.key(), n) }));
            CurRes::Walk(Some(r as u64), std::mem::take(v))
        }
        CurOp::AllOf => {
            let r = i.all(|x| hook(Pt::Closure, || { v.push(x.key()); !hit(x.key(), n) }));
            CurRes::Walk(Some(r as u64), std::mem::take(v))
        }
        _ => fwd_adapt(i, op, n, v),
    })
}
fn hint_of<I: Iterator>(i: &Option<I>) -> Result<(usize, Option<usize>), String> {
    quiet(|| i.as_ref().map_or((0, Some(0)), |i| i.size_hint()))
}
impl<T: Elem, I: Iterator<Item = T>> Cursor for One<I> {
    fn call(&mut self, op: CurOp, n: usize) -> Out<CurRes> {
        if op.backwards() || op == CurOp::Len {
            return Out::Ok(CurRes::Unsupported);
        }
        fwd_call(&mut self.0, op, n)
    }
    fn left(&self) -> Result<(usize, Option<usize>), String> {
        hint_of(&self.0)
    }
    fn double_ended(&self) -> bool {
        false
    }
    fn exact(&self) -> bool {
        false
    }
}
impl<T: Elem> Cursor for Vals<T> {
    fn call(&mut self, op: CurOp, n: usize) -> Out<CurRes> {
        if op.backwards() {
            return Out::Ok(CurRes::Unsupported);
        }
        if op == CurOp::Len {
            return sut(|| CurRes::Num(self.0.as_ref().map_or(0, |i| i.len())));
        }
        fwd_call(&mut self.0, op, n)
    }
    fn left(&self) -> Result<(usize, Option<usize>), String> {
        hint_of(&self.0)
    }
    fn double_ended(&self) -> bool {
        false
    }
    fn dup(&self) -> Option<Out<Box<dyn Cursor>>> {
        let i = self.0.as_ref()?;
        Some(sut(|| off(|| Box::new(Vals(Some(i.clone()))) as Box<dyn Cursor>)))
    }
}
impl<T: Elem, I: DoubleEndedIterator<Item = T> + ExactSizeIterator> Cursor for Both<I> {
    fn call(&mut self, op: CurOp, n: usize) -> Out<CurRes> {
        if !op.backwards() {
            if op == CurOp::Len {
                return sut(|| CurRes::Num(self.0.as_ref().map_or(0, |i| i.len())));
            }
            return fwd_call(&mut self.0, op, n);
        }
        let mut v: Vec<u64> = Vec::new();
        let v = &mut v;
        if op.consumes() {
            let mut i = match self.0.take() {
                Some(i) => i,
                None => return Out::Ok(CurRes::Unsupported),
            };
            return sut(move || {
                if op == CurOp::RFold {
                    i.rfold((), |_, x| hook(Pt::Closure, || v.push(x.key())));
                    return CurRes::Items(std::mem::take(v));
                }
                bwd_adapt(&mut i, op, n, v)
            });
        }
        let i = match self.0.as_mut() {
            Some(i) => i,
            None => return Out::Ok(CurRes::Unsupported),
        };
        sut(|| match op {
            CurOp::NextBack => item(i.next_back()),
            CurOp::NthBack => item(i.nth_back(n)),
            CurOp::RevNth | CurOp::RevTake => bwd_adapt(i, op, n, v),
            CurOp::RPosition => {
                let r = i.rposition(|x| hook(Pt::Closure, || { v.push(x.key()); hit(x.key(), n) })).map(|p| p as u64);
                CurRes::Walk(r, std::mem::take(v))
            }
            _ => {
                let r = i.rfind(|x| hook(Pt::Closure, || { v.push(x.key()); hit(x.key(), n) })).map(|x| x.key());
                CurRes::Walk(r, std::mem::take(v))
            }
        })
    }
    fn left(&self) -> Result<(usize, Option<usize>), String> {
        hint_of(&self.0)
    }
    fn double_ended(&self) -> bool {
        true
    }
}

fn discrs(ks: &[u64], discr: &dyn Fn(u64) -> u64) -> Vec<usize> {
    ks.iter().map(|&k| discr(k) as usize).collect()
}
fn made<T: Elem>(ks: &[u64]) -> Vec<T> {
    let mut v = Vec::with_capacity(ks.len());
    for &k in ks {
        v.push(T::make(k));
    }
    v
}
/// Not among the operations of the instances that only differ in width.
fn slim() -> ! {
    panic!("harness: not an operation of a slim instance")
}
pub type B = Box<dyn VecObj>;
pub trait VecObj {
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    // observation, faults off
    fn snapshot(&self) -> Result<Vec<u64>, String>;
    fn capacity(&self) -> Result<usize, String>;
    /// Address of the storage if it is a separate heap block.
    fn storage(&self) -> (usize, usize);
    // the API
    fn len(&self) -> Out<(usize, bool)>;
    fn get(&self, i: usize) -> Out<Option<u64>>;
    fn get_raw(&self, i: usize) -> Out<u64>;
    fn set(&mut self, i: usize, k: u64) -> Out<()>;
    fn push(&mut self, k: u64) -> Out<()>;
    fn pop(&mut self) -> Out<Option<u64>>;
    fn insert(&mut self, i: usize, k: u64) -> Out<()>;
    fn remove(&mut self, i: usize) -> Out<u64>;
    fn swap_remove(&mut self, i: usize) -> Out<u64>;
    fn swap(&mut self, i: usize, j: usize) -> Out<()>;
    fn truncate(&mut self, n: usize) -> Out<()>;
    fn clear(&mut self) -> Out<()>;
    fn resize(&mut self, n: usize, k: u64) -> Out<()>;
    fn retain(&mut self, _f: &mut dyn FnMut(u64) -> bool) -> Out<()> {
        slim()
    }
    fn for_each(&mut self, _f: &mut dyn FnMut(u64) -> u64) -> Out<()> {
        slim()
    }
    fn extend(&mut self, _s: &Script) -> (Out<()>, Rc<SrcLog>) {
        slim()
    }
    fn reserve(&mut self, n: usize) -> Out<()>;
    fn shrink(&mut self) -> Out<()>;
    fn raw_fill(&mut self, _ks: &[u64], _discr: &dyn Fn(u64) -> u64) -> Out<()> {
        slim()
    }
    /// Clear, then bring the first `n` elements back.
    fn revive(&mut self, _n: usize) -> Out<()> {
        slim()
    }
    /// Load from an iterator of the library.
    fn feed(&mut self, _o: Option<&dyn VecObj>, _how: u64, _n: usize) -> Out<()> {
        slim()
    }
    fn append(&mut self, o: &mut dyn VecObj) -> Out<()>;
    fn split_off(&mut self, _at: usize) -> Out<B> {
        slim()
    }
    fn clone_obj(&self) -> Out<B> {
        slim()
    }
    fn clone_from(&mut self, _o: &dyn VecObj) -> Out<()> {
        slim()
    }
    fn to_vec(&self) -> Out<Vec<u64>> {
        slim()
    }
    fn into_vec(self: Box<Self>) -> Out<Vec<u64>> {
        slim()
    }
    fn any(&self, k: u64) -> Out<bool>;
    fn all(&self, k: u64) -> Out<bool>;
    fn eq(&self, o: &dyn VecObj) -> Out<(bool, bool)>;
    fn hash(&self) -> Out<Vec<u8>> {
        slim()
    }
    fn debug(&self, _s: &mut Sink, _style: u64) -> Out<bool> {
        slim()
    }
    fn iter_all(&self, _how: u64) -> Out<Vec<u64>> {
        slim()
    }
    fn cursor(&self) -> Box<dyn Cursor> {
        slim()
    }
    fn into_cursor(self: Box<Self>) -> Box<dyn Cursor> {
        slim()
    }
    fn drop_it(self: Box<Self>) -> Out<()>;
}

pub trait Kind: Sync {
    fn name(&self) -> &'static str;
    fn block_bits(&self) -> u32;
    fn inline_blocks(&self) -> usize;
    fn card(&self) -> u64;
    fn bits(&self) -> u32;
    fn epb(&self) -> usize {
        (self.block_bits() / self.bits()) as usize
    }
    fn scripted(&self) -> bool;
    /// Has only the operations in `gen::SLIM`.
    fn slim(&self) -> bool {
        false
    }
    fn new(&self, how: u64) -> Out<B>;
    fn with_capacity(&self, n: usize) -> Out<B>;
    fn from_elem(&self, k: u64, n: usize, mac: bool) -> Out<B>;
    /// how: 0 from_slice, 1 From<Vec>, 2 list macro (up to 3), otherwise from_slice
    fn from_keys(&self, ks: &[u64], how: u64) -> Out<B>;
    fn collect(&self, _s: &Script) -> (Out<B>, Rc<SrcLog>) {
        slim()
    }
    fn values(&self) -> Box<dyn Cursor> {
        slim()
    }
    fn discr(&self, k: u64) -> u64;
    fn debug_text(&self, _ks: &[u64], _style: u64) -> String {
        slim()
    }
    fn send_sync(&self) -> Vec<(&'static str, bool)> {
        vec![]
    }
    /// The keys of the first values, at most `n`.
    fn value_order(&self, _n: usize) -> Vec<u64> {
        slim()
    }
}
pub fn packed_bytes(k: &dyn Kind, n: usize) -> u64 {
    let b = n.div_ceil(k.epb()) as u64;
    b * k.block_bits() as u64 / 8
}

/// `Probe::<T>::SEND`/`SYNC` without requiring either.
pub struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
pub trait NotSend {
    const SEND: bool = false;
}
#[allow(dead_code)]
pub trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSend for Probe<T> {}
impl<T> NotSync for Probe<T> {}
impl<T: Send> Probe<T> {
    pub const SEND: bool = true;
}
impl<T: Sync> Probe<T> {
    pub const SYNC: bool = true;
}

/// What all instances can do.
macro_rules! core_ops {
    () => {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn as_any_mut(&mut self) -> &mut dyn Any {
            self
        }
        fn snapshot(&self) -> Result<Vec<u64>, String> {
            quiet(|| {
                let n = self.0.len();
                if n > 1 << 24 {
                    panic!("length {} is absurd", n);
                }
                let mut o = Vec::with_capacity(n);
                for i in 0..n {
                    o.push(self.0.get(i).expect("get inside the length gave None").key());
                }
                o
            })
        }
        fn capacity(&self) -> Result<usize, String> {
            quiet(|| self.0.capacity())
        }
        fn storage(&self) -> (usize, usize) {
            let s = self.0.storage();
            let (p, o) = (s.as_ptr() as usize, s as *const _ as usize);
            let inline = s.capacity() == 0 || (p >= o && p < o + std::mem::size_of_val(s));
            (if inline { 0 } else { p }, s.len())
        }
        fn len(&self) -> Out<(usize, bool)> {
            sut(|| (self.0.len(), self.0.is_empty()))
        }
        fn get(&self, i: usize) -> Out<Option<u64>> {
            sut(|| self.0.get(i).map(|x| x.key()))
        }
        fn get_raw(&self, i: usize) -> Out<u64> {
            sut(|| unsafe { self.0.get_raw_unchecked(i) } as u64)
        }
        fn set(&mut self, i: usize, k: u64) -> Out<()> {
            let x = T::make(k);
            sut(|| self.0.set(i, x))
        }
        fn push(&mut self, k: u64) -> Out<()> {
            let x = T::make(k);
            sut(|| self.0.push(x))
        }
        fn pop(&mut self) -> Out<Option<u64>> {
            sut(|| self.0.pop().map(|x| x.key()))
        }
        fn insert(&mut self, i: usize, k: u64) -> Out<()> {
            let x = T::make(k);
            sut(|| self.0.insert(i, x))
        }
        fn remove(&mut self, i: usize) -> Out<u64> {
            sut(|| self.0.remove(i).key())
        }
        fn swap_remove(&mut self, i: usize) -> Out<u64> {
            sut(|| self.0.swap_remove(i).key())
        }
        fn swap(&mut self, i: usize, j: usize) -> Out<()> {
            sut(|| self.0.swap(i, j))
        }
        fn truncate(&mut self, n: usize) -> Out<()> {
            sut(|| self.0.truncate(n))
        }
        fn clear(&mut self) -> Out<()> {
            sut(|| self.0.clear())
        }
        fn resize(&mut self, n: usize, k: u64) -> Out<()> {
            let x = T::make(k);
            sut(|| self.0.resize(n, x))
        }
        fn append(&mut self, o: &mut dyn VecObj) -> Out<()> {
            let o: &mut Self = o.as_any_mut().downcast_mut().expect("harness: kinds differ");
            sut(|| self.0.append(&mut o.0))
        }
        fn any(&self, k: u64) -> Out<bool> {
            let x = T::make(k);
            sut(|| self.0.any(x))
        }
        fn all(&self, k: u64) -> Out<bool> {
            let x = T::make(k);
            sut(|| self.0.all(x))
        }
        fn eq(&self, o: &dyn VecObj) -> Out<(bool, bool)> {
            let o: &Self = o.as_any().downcast_ref().expect("harness: kinds differ");
            sut(|| (self.0 == o.0, self.0 != o.0))
        }
        fn drop_it(self: Box<Self>) -> Out<()> {
            let v = self.0;
            sut(move || drop(v))
        }
        fn reserve(&mut self, n: usize) -> Out<()> {
            sut(|| self.0.reserve(n))
        }
        fn shrink(&mut self) -> Out<()> {
            sut(|| self.0.shrink_to_fit())
        }
    };
}

macro_rules! storage {
    ($m:ident, $path:path, $bits:expr, $inline:expr) => {
        pub mod $m {
            use super::*;
            use $path as EnumVec;
            pub struct V<T: Elem>(pub EnumVec<T>);
            fn bx<T: Elem>(v: EnumVec<T>) -> B {
                off(|| Box::new(V(v)))
            }
            fn of<T: Elem>(o: &dyn VecObj) -> &V<T> {
                o.as_any().downcast_ref().expect("harness: kinds differ")
            }
            impl<T: Elem> VecObj for V<T> {
                core_ops!();
                fn retain(&mut self, f: &mut dyn FnMut(u64) -> bool) -> Out<()> {
                    sut(|| self.0.retain(|x| hook(Pt::Closure, || f(x.key()))))
                }
                fn for_each(&mut self, f: &mut dyn FnMut(u64) -> u64) -> Out<()> {
                    sut(|| self.0.for_each(|x| hook(Pt::Closure, || *x = T::make(f(x.key())))))
                }
                fn extend(&mut self, s: &Script) -> (Out<()>, Rc<SrcLog>) {
                    let (c, l) = Coll::<T>::new(s);
                    (sut(|| self.0.extend(c)), l)
                }
                fn raw_fill(&mut self, ks: &[u64], discr: &dyn Fn(u64) -> u64) -> Out<()> {
                    let ds = discrs(ks, discr);
                    sut(|| {
                        self.0.reserve(ds.len());
                        let l = self.0.len();
                        unsafe {
                            for (i, &d) in ds.iter().enumerate() {
                                self.0.set_raw_unchecked(l + i, d);
                            }
                            self.0.set_len(l + ds.len());
                        }
                    })
                }
                fn revive(&mut self, n: usize) -> Out<()> {
                    sut(|| {
                        self.0.clear();
                        unsafe { self.0.set_len(n) }
                    })
                }
                fn feed(&mut self, o: Option<&dyn VecObj>, how: u64, n: usize) -> Out<()> {
                    let Some(o) = o else {
                        return sut(|| self.0.extend(<T as enum_vec::EnumValues>::values().skip(n)));
                    };
                    let o = of::<T>(o);
                    sut(|| {
                        let it: &mut dyn Iterator<Item = T> = match how % 6 {
                            0 => return self.0.extend(&o.0),
                            2 => return self.0.extend(o.0.clone()),
                            1 => &mut o.0.iter().rev(),
                            3 => &mut o.0.iter().skip(n),
                            4 => &mut o.0.clone().into_iter().take(n).rev(),
                            _ => &mut o.0.iter().filter(|x| hook(Pt::Closure, || hit(x.key(), n))),
                        };
                        self.0.extend(it)
                    })
                }
                fn split_off(&mut self, at: usize) -> Out<B> {
                    sut(|| bx(self.0.split_off(at)))
                }
                fn clone_obj(&self) -> Out<B> {
                    sut(|| bx(self.0.clone()))
                }
                fn clone_from(&mut self, o: &dyn VecObj) -> Out<()> {
                    let o = of::<T>(o);
                    sut(|| self.0.clone_from(&o.0))
                }
                fn to_vec(&self) -> Out<Vec<u64>> {
                    sut(|| keys(&self.0.to_vec()))
                }
                fn into_vec(self: Box<Self>) -> Out<Vec<u64>> {
                    let v = self.0;
                    sut(move || { let v: Vec<T> = v.into(); keys(&v) })
                }
                fn hash(&self) -> Out<Vec<u8>> {
                    let mut h = Rec::default();
                    sut(|| { std::hash::Hash::hash(&self.0, &mut h); std::mem::take(&mut h.0) })
                }
                fn debug(&self, s: &mut Sink, style: u64) -> Out<bool> {
                    crate::ends::debug_to(&self.0, s, style)
                }
                fn iter_all(&self, how: u64) -> Out<Vec<u64>> {
                    let mut v = Vec::new();
                    let r = sut(|| match how % 3 {
                        0 => {
                            for x in &self.0 {
                                hook(Pt::Closure, || v.push(x.key()))
                            }
                        }
                        1 => {
                            for x in self.0.iter().rev() {
                                hook(Pt::Closure, || v.push(x.key()))
                            }
                            off(|| v.reverse())
                        }
                        _ => self.0.iter().for_each(|x| hook(Pt::Closure, || v.push(x.key()))),
                    });
                    crate::seam::with(r, v)
                }
                fn cursor(&self) -> Box<dyn Cursor> {
                    // the executor never moves, changes or drops a vector while a cursor on it is alive
                    let v: &'static EnumVec<T> = unsafe { &*(&self.0 as *const _) };
                    Box::new(Both(Some(v.iter())))
                }
                fn into_cursor(self: Box<Self>) -> Box<dyn Cursor> {
                    Box::new(Both(Some(self.0.into_iter())))
                }
            }
            #[cfg(feature = "widths")]
            pub struct S<T: Elem>(EnumVec<T>);
            #[cfg(feature = "widths")]
            impl<T: Elem> VecObj for S<T> {
                core_ops!();
            }
            pub struct Kd<T>(pub &'static str, pub bool, pub fn() -> Vec<(&'static str, bool)>, pub PhantomData<fn() -> T>);
            impl<T: Elem> Kind for Kd<T> {
                fn name(&self) -> &'static str {
                    self.0
                }
                fn block_bits(&self) -> u32 {
                    $bits
                }
                fn inline_blocks(&self) -> usize {
                    $inline
                }
                fn card(&self) -> u64 {
                    u64::try_from(T::CARD).unwrap_or(u64::MAX)
                }
                fn bits(&self) -> u32 {
                    128 - (T::CARD - 1).leading_zeros()
                }
                fn scripted(&self) -> bool {
                    self.1
                }
                fn new(&self, how: u64) -> Out<B> {
                    if how % 2 == 0 { sut(|| bx(EnumVec::<T>::new())) } else { sut(|| bx(EnumVec::<T>::default())) }
                }
                fn with_capacity(&self, n: usize) -> Out<B> {
                    sut(|| bx(EnumVec::<T>::with_capacity(n)))
                }
                fn from_elem(&self, k: u64, n: usize, mac: bool) -> Out<B> {
                    let x = T::make(k);
                    sut(|| bx(if mac { enum_vec::enum_vec![x; n] } else { EnumVec::<T>::from_elem(x, n) }))
                }
                fn from_keys(&self, ks: &[u64], how: u64) -> Out<B> {
                    let v: Vec<T> = made(ks);
                    sut(move || {
                        bx(match (how % 3, v.len()) {
                            (1, _) => v.into(),
                            (2, 0) => enum_vec::enum_vec![],
                            (2, 1) => enum_vec::enum_vec![v[0]],
                            (2, 2) => enum_vec::enum_vec![v[0], v[1]],
                            (2, 3) => enum_vec::enum_vec![v[0], v[1], v[2],],
                            _ => EnumVec::<T>::from_slice(&v),
                        })
                    })
                }
                fn collect(&self, s: &Script) -> (Out<B>, Rc<SrcLog>) {
                    let (c, l) = Coll::<T>::new(s);
                    (sut(|| bx(<EnumVec<T> as std::iter::FromIterator<T>>::from_iter(c))), l)
                }
                fn values(&self) -> Box<dyn Cursor> {
                    values_of::<T>()
                }
                fn discr(&self, k: u64) -> u64 {
                    T::make(k).to_discr() as u64
                }
                fn debug_text(&self, ks: &[u64], style: u64) -> String {
                    let v: Vec<T> = made(ks);
                    crate::ends::text(&v, style)
                }
                fn send_sync(&self) -> Vec<(&'static str, bool)> {
                    (self.2)()
                }
                fn value_order(&self, n: usize) -> Vec<u64> {
                    let mut o = Vec::new();
                    for d in 0..T::NUM_VARIANTS.min(n) {
                        o.push(T::from_discr(d).key());
                    }
                    o
                }
            }
            #[cfg(feature = "widths")]
            pub struct Sd<T>(pub &'static str, pub PhantomData<fn() -> T>);
            #[cfg(feature = "widths")]
            impl<T: Elem> Kind for Sd<T> {
                fn name(&self) -> &'static str {
                    self.0
                }
                fn block_bits(&self) -> u32 {
                    $bits
                }
                fn inline_blocks(&self) -> usize {
                    $inline
                }
                fn card(&self) -> u64 {
                    u64::try_from(T::CARD).unwrap_or(u64::MAX)
                }
                fn bits(&self) -> u32 {
                    128 - (T::CARD - 1).leading_zeros()
                }
                fn scripted(&self) -> bool {
                    false
                }
                fn slim(&self) -> bool {
                    true
                }
                fn new(&self, _: u64) -> Out<B> {
                    sut(|| sx(EnumVec::<T>::new()))
                }
                fn with_capacity(&self, n: usize) -> Out<B> {
                    sut(|| sx(EnumVec::<T>::with_capacity(n)))
                }
                fn from_elem(&self, k: u64, n: usize, _: bool) -> Out<B> {
                    let x = T::make(k);
                    sut(|| sx(EnumVec::<T>::from_elem(x, n)))
                }
                fn from_keys(&self, ks: &[u64], _: u64) -> Out<B> {
                    let v: Vec<T> = made(ks);
                    sut(move || sx(EnumVec::<T>::from_slice(&v)))
                }
                fn discr(&self, k: u64) -> u64 {
                    T::make(k).to_discr() as u64
                }
            }
            #[cfg(feature = "widths")]
            fn sx<T: Elem>(v: EnumVec<T>) -> B {
                off(|| Box::new(S(v)))
            }
        }
    };
}
storage!(u8s, enum_vec::vec_u8::EnumVec, 8, 0);
storage!(u16s, enum_vec::vec_u16::EnumVec, 16, 0);
storage!(u32s, enum_vec::vec_u32::EnumVec, 32, 0);
storage!(u64s, enum_vec::vec_u64::EnumVec, 64, 0);
storage!(u128s, enum_vec::vec_u128::EnumVec, 128, 0);
storage!(smalls, enum_vec::smallvec_u32::EnumVec, 32, 4);
