//! The far ends of the seams: scripted sources, sinks and hashers.
use crate::elem::Elem;
use crate::seam::{hook, Pt};
use std::cell::Cell;
use std::fmt;
use std::hash::Hasher;
use std::marker::PhantomData;
use std::rc::Rc;

/// What a source does; its items are keys.
#[derive(Clone, Debug, Default)]
pub struct Script {
    pub items: Vec<u64>,
    /// Yielded if the source is polled again after its first end.
    pub after: Vec<u64>,
    pub mode: u64,
    pub n: u64,
}
/// exact, none, zero_lower, low, high, huge, upper_low, rotating, constant, too_big, crossed, no_real_upper, loose_upper
pub const HINT_MODES: u64 = 13;
impl Script {
    pub fn honest(items: Vec<u64>, mode: u64) -> Script {
        Script { items, after: vec![], mode: [0, 1, 2, 3, 11, 12][(mode % 6) as usize], n: 0 }
    }
    /// Is the lower bound promised more than any machine could hold?
    pub fn too_big(&self) -> bool {
        self.mode == 5 || self.mode == 9
    }
    pub fn lies(&self) -> bool {
        (4..=10).contains(&self.mode) || !self.after.is_empty()
    }
    fn hint(&self, left: usize, calls: u64) -> (usize, Option<usize>) {
        let n = self.n as usize;
        match self.mode {
            0 => (left, Some(left)),
            1 => (0, None),
            2 => (0, Some(left)),
            3 => (left / 2, Some(left)),
            4 => (left + n, Some(left + n)),
            5 => (usize::MAX - n, None),
            6 => (0, Some(left / 2)),
            7 => if (calls + self.n) % 2 == 0 { (0, Some(0)) } else { (left + n, None) },
            8 => (n, Some(n)),
            9 => (1usize << 42, Some(1 << 42)),
            10 => (left, Some(0)),
            11 => (0, Some(usize::MAX - n)),
            _ => (left / 2, Some(left + (n + 1) * (1 << 41))),
        }
    }
}
/// What actually happened to a source.
#[derive(Default, Debug)]
pub struct SrcLog {
    /// Items handed out before the first end.
    pub yielded: Cell<usize>,
    pub ended: Cell<bool>,
    pub polled_after: Cell<u64>,
    pub after_yielded: Cell<usize>,
    pub hints: Cell<u64>,
}
pub struct Coll<T>(pub Src<T>);
pub struct Src<T> {
    s: Script,
    log: Rc<SrcLog>,
    _p: PhantomData<T>,
}
impl<T: Elem> Coll<T> {
    pub fn new(s: &Script) -> (Self, Rc<SrcLog>) {
        let log = Rc::new(SrcLog::default());
        (Coll(Src { s: s.clone(), log: log.clone(), _p: PhantomData }), log)
    }
}
impl<T: Elem> IntoIterator for Coll<T> {
    type Item = T;
    type IntoIter = Src<T>;
    fn into_iter(self) -> Src<T> {
        hook(Pt::IntoIter, || ());
        self.0
    }
}
impl<T> Drop for Src<T> {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            hook(Pt::SourceDrop, || ());
        }
    }
}
impl<T: Elem> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        hook(Pt::Next, || {
            let l = &self.log;
            if l.ended.get() {
                l.polled_after.set(l.polled_after.get() + 1);
                let i = l.after_yielded.get();
                return self.s.after.get(i).map(|&k| {
                    l.after_yielded.set(i + 1);
                    T::make(k)
                });
            }
            let i = l.yielded.get();
            match self.s.items.get(i) {
                Some(&k) => {
                    l.yielded.set(i + 1);
                    Some(T::make(k))
                }
                None => {
                    l.ended.set(true);
                    None
                }
            }
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hook(Pt::Hint, || {
            let c = self.log.hints.get();
            self.log.hints.set(c + 1);
            self.s.hint(self.s.items.len() - self.log.yielded.get(), c)
        })
    }
}

/// An output sink: accepts text, fails at the `fail_at`-th write (once, or for good).
pub struct Sink {
    pub out: String,
    pub writes: u64,
    pub fail_at: u64,
    pub for_good: bool,
    pub failed: bool,
}
impl Sink {
    pub fn new(fail_at: u64, for_good: bool) -> Sink {
        Sink { out: String::new(), writes: 0, fail_at, for_good, failed: false }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        hook(Pt::Sink, || {
            self.writes += 1;
            if self.writes == self.fail_at || (self.for_good && self.failed) {
                self.failed = true;
                return Err(fmt::Error);
            }
            self.out.push_str(s);
            Ok(())
        })
    }
}

/// Records everything it is told.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
macro_rules! rec {
    ($($m:ident $t:ty, $tag:expr);+) => { $(
        fn $m(&mut self, x: $t) {
            hook(Pt::Hash, || { self.0.push($tag); self.0.extend_from_slice(&x.to_le_bytes()) })
        } )+
    };
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
    fn write(&mut self, b: &[u8]) {
        hook(Pt::Hash, || {
            self.0.push(b'b');
            self.0.extend_from_slice(b)
        })
    }
    rec!(write_u8 u8, b'1'; write_u16 u16, b'2'; write_u32 u32, b'4'; write_u64 u64, b'8'; write_u128 u128, b'x';
         write_usize usize, b'z'; write_i8 i8, b'!'; write_i16 i16, b'@'; write_i32 i32, b'$'; write_i64 i64, b'*';
         write_i128 i128, b'X'; write_isize isize, b'Z');
}

/// The ways text is asked for.
pub const STYLES: u64 = 10;
macro_rules! styled {
    ($w:ident!($($to:expr)?), $x:expr, $style:expr) => {
        match $style % STYLES {
            0 => $w!($($to,)? "{:?}", $x),
            1 => $w!($($to,)? "{:#?}", $x),
            2 => $w!($($to,)? "{:6?}", $x),
            3 => $w!($($to,)? "{:#06?}", $x),
            4 => $w!($($to,)? "{:02x?}", $x),
            5 => $w!($($to,)? "{:#X?}", $x),
            6 => $w!($($to,)? "{:<7?}", $x),
            7 => $w!($($to,)? "{:*^+9?}", $x),
            8 => $w!($($to,)? "{:.1?}", $x),
            _ => $w!($($to,)? "{:>#3.2x?}", $x),
        }
    };
}
pub fn text(x: &dyn fmt::Debug, style: u64) -> String {
    styled!(format!(), x, style)
}
pub fn debug_to(x: &dyn fmt::Debug, s: &mut Sink, style: u64) -> crate::seam::Out<bool> {
    use fmt::Write as _;
    crate::seam::sut(|| styled!(write!(s), x, style).is_ok())
}
