//! Index types: all unsigned widths (with a scale, so that wide values are really wide while the
//! model sees small numbers), a counting/panicking newtype, a signed newtype, and a non-commutative
//! bi-ordered group.
use crate::rt::{lie, lying, op_count, tick, Rng};
use sherman::{DirectionalAdd, DirectionalSub, Index};
use std::ops::{Add, Sub};
use std::panic::{RefUnwindSafe, UnwindSafe};

pub trait Ix: Index + UnwindSafe + RefUnwindSafe + Send + Sync + 'static {
    const NAME: &'static str;
    /// commutative integer-like, written to traces as a number
    const INT: bool = true;
    /// largest total size (in model units) a tree of this index may have
    const CAP: u64;
    fn of(n: i64) -> Self;
    /// trace representation (model units)
    fn j(&self) -> String;
    /// for INT types: the number of model units
    fn n(&self) -> i64;
    fn rand_size(r: &mut Rng) -> Self;
    /// some p with 0 < p < self
    fn inside(&self, r: &mut Rng) -> Option<Self>;
    /// a value greater than `self`
    fn above(&self, r: &mut Rng) -> Self;
    fn neg(_r: &mut Rng) -> Option<Self> { None }
}

fn rs(r: &mut Rng) -> i64 {
    (match r.below(10) { 0..=2 => 1, 3..=5 => 1 + r.below(3), 6..=8 => 1 + r.below(8), _ => 1 + r.below(30) }) as i64
}

macro_rules! int_ix {
    ($t:ty, $scale:expr, $cap:expr) => {
        impl Ix for $t {
            const NAME: &'static str = stringify!($t);
            const CAP: u64 = $cap;
            fn of(n: i64) -> Self { (n as $t) * $scale }
            fn j(&self) -> String { self.n().to_string() }
            fn n(&self) -> i64 { if *self % $scale == 0 { (*self / $scale) as i64 } else { -777 } }
            fn rand_size(r: &mut Rng) -> Self { if Self::CAP <= 255 { Self::of(1 + (rs(r) - 1) % 3) } else { Self::of(rs(r)) } }
            fn inside(&self, r: &mut Rng) -> Option<Self> {
                let n = self.n();
                if n < 2 { None } else { Some(Self::of(1 + r.below(n as u64 - 1) as i64)) }
            }
            fn above(&self, r: &mut Rng) -> Self { if self.n() >= Self::CAP as i64 { <$t>::MAX } else { *self + Self::of(1 + r.below(3) as i64) } }
        }
    };
}
int_ix!(u8, 1, 250);
int_ix!(u16, 13, 5000);
int_ix!(u32, 1000, 4_000_000);
int_ix!(u64, 1 << 40, 16_000_000);
int_ix!(u128, 1 << 100, 200_000_000);
int_ix!(usize, 1, 1 << 30);

/// A signed (newtype) index: the documentation speaks of indexes less than zero, so such types exist
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sg(pub i32);
impl Add for Sg { type Output = Sg; fn add(self, o: Sg) -> Sg { Sg(self.0 + o.0) } }
impl Sub for Sg { type Output = Sg; fn sub(self, o: Sg) -> Sg { Sg(self.0 - o.0) } }
impl Index for Sg { const ZERO: Sg = Sg(0); }
impl Ix for Sg {
    const NAME: &'static str = "Sg";
    const CAP: u64 = 1 << 24;
    fn of(n: i64) -> Self { Sg(n as i32) }
    fn j(&self) -> String { self.0.to_string() }
    fn n(&self) -> i64 { self.0 as i64 }
    fn rand_size(r: &mut Rng) -> Self { Sg(rs(r) as i32) }
    fn inside(&self, r: &mut Rng) -> Option<Self> { if self.0 < 2 { None } else { Some(Sg(1 + r.below(self.0 as u64 - 1) as i32)) } }
    fn above(&self, r: &mut Rng) -> Self { Sg(self.0 + 1 + r.below(3) as i32) }
    fn neg(r: &mut Rng) -> Option<Self> { Some(Sg(-1 - r.below(3) as i32)) }
}

/// u32 newtype whose operations count (for cost) and may panic (for fault injection)
#[derive(Copy, Clone, Debug)]
pub struct Cn(pub u32);
impl PartialEq for Cn { fn eq(&self, o: &Cn) -> bool { op_count(); let l = tick("eq"); (self.0 == o.0) != l } }
impl Eq for Cn {}
impl PartialOrd for Cn { fn partial_cmp(&self, o: &Cn) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Cn {
    fn cmp(&self, o: &Cn) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        op_count();
        if tick("cmp") { return [Less, Equal, Greater][(lie() % 3) as usize] }
        self.0.cmp(&o.0)
    }
}
/// any answer at all
fn anything(x: Cn, y: Cn) -> Cn {
    let (a, b) = (x.0, y.0);
    Cn([0, 1, a, b, a.wrapping_add(b), a.wrapping_sub(b), b.wrapping_sub(a), a.wrapping_add(1), u32::MAX, (lie() % 30) as u32][(lie() % 10) as usize])
}
impl Add for Cn { type Output = Cn; fn add(self, o: Cn) -> Cn { op_count(); if tick("add") { anything(self, o) } else if lying() { Cn(self.0.wrapping_add(o.0)) } else { Cn(self.0 + o.0) } } }
impl Sub for Cn { type Output = Cn; fn sub(self, o: Cn) -> Cn { op_count(); if tick("sub") { anything(self, o) } else if lying() { Cn(self.0.wrapping_sub(o.0)) } else { Cn(self.0 - o.0) } } }
impl Index for Cn { const ZERO: Cn = Cn(0); }
impl Ix for Cn {
    const NAME: &'static str = "Cn";
    const CAP: u64 = 1 << 30;
    fn of(n: i64) -> Self { Cn(n as u32) }
    fn j(&self) -> String { self.0.to_string() }
    fn n(&self) -> i64 { self.0 as i64 }
    fn rand_size(r: &mut Rng) -> Self { Cn(rs(r) as u32) }
    fn inside(&self, r: &mut Rng) -> Option<Self> { if self.0 < 2 { None } else { Some(Cn(1 + r.below(self.0 as u64 - 1) as u32)) } }
    fn above(&self, r: &mut Rng) -> Self { Cn(self.0 + 1 + r.below(3) as u32) }
}

/// The discrete Heisenberg group with its lexicographic bi-invariant order:
/// `(a,b,c)(a',b',c') = (a+a', b+b', c+c'+a*b')`. All documented index laws hold:
/// `x +> y = xy`, `x <+ y = yx`, `x -> y = x y^-1`, `x <- y = y^-1 x`.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct He(pub i32, pub i32, pub i32);
impl He {
    fn mul(self, o: He) -> He { He(self.0 + o.0, self.1 + o.1, self.2 + o.2 + self.0 * o.1) }
    fn inv(self) -> He { He(-self.0, -self.1, self.0 * self.1 - self.2) }
}
impl DirectionalAdd for He { fn add_right(self, r: He) -> He { self.mul(r) } }
impl DirectionalSub for He {
    fn sub_left(self, l: He) -> He { l.inv().mul(self) }
    fn sub_right(self, r: He) -> He { self.mul(r.inv()) }
}
impl Index for He { const ZERO: He = He(0, 0, 0); }
impl Ix for He {
    const NAME: &'static str = "He";
    const INT: bool = false;
    const CAP: u64 = 1 << 30;
    fn of(n: i64) -> Self { He(n as i32, 0, 0) }
    fn j(&self) -> String { format!("[{},{},{}]", self.0, self.1, self.2) }
    fn n(&self) -> i64 { -1 }
    fn rand_size(r: &mut Rng) -> Self {
        match r.below(6) {
            0 => He(0, 0, 1 + r.below(4) as i32),
            1 | 2 => He(0, 1 + r.below(3) as i32, r.below(7) as i32 - 3),
            _ => He(1 + r.below(3) as i32, r.below(7) as i32 - 3, r.below(7) as i32 - 3),
        }
    }
    fn inside(&self, r: &mut Rng) -> Option<Self> {
        for _ in 0..20 {
            let p = if r.chance(50) { Self::rand_size(r) } else {
                // a size times something smaller on the other side
                let q = Self::rand_size(r); self.sub_right(q)
            };
            if p > He::ZERO && p < *self { return Some(p) }
        }
        None
    }
    fn above(&self, r: &mut Rng) -> Self { self.mul(Self::rand_size(r)) }
    fn neg(r: &mut Rng) -> Option<Self> { Some(Self::rand_size(r).inv()) }
}
