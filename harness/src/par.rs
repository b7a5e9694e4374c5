//! Uniform access to the three feature parameterisations
use crate::cur::PathCur;
use crate::ix::Ix;
use crate::sl::Sl;
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::{Borrow, Cursor, RleTree, SliceEntry, SliceRef};
use std::ops::Range;

pub type Tree<I, const J: bool, P, const M: usize> = RleTree<I, Sl<I, J>, P, M>;
pub type Entry<'t, I, const J: bool, P, const M: usize> = SliceEntry<'t, I, Sl<I, J>, P, M>;

pub trait Par<I: Ix, const J: bool, const M: usize>:
    RleTreeConfig<I, Sl<I, J>, M> + SupportsInsert<I, Sl<I, J>, M> + Sized + 'static
{
    const NAME: &'static str;
    const CLONES: bool;
    type Ref: 'static;
    type Bor: 'static;
    fn clone_tree(_t: &Tree<I, J, Self, M>) -> Option<Tree<I, J, Self, M>> { None }
    fn entry_cursor<C: Cursor>(_e: &Entry<I, J, Self, M>) -> Option<C> { None }
    fn make_ref(_e: &Entry<I, J, Self, M>) -> Self::Ref { unreachable!() }
    fn insert_ref(_t: &mut Tree<I, J, Self, M>, _h: Option<PathCur>, _i: I, _s: Sl<I, J>, _z: I) -> (Option<PathCur>, Self::Ref) { unreachable!() }
    fn r_valid(_r: &Self::Ref) -> bool { unreachable!() }
    fn r_can(_r: &Self::Ref) -> bool { unreachable!() }
    fn r_clone(_r: &Self::Ref) -> Self::Ref { unreachable!() }
    fn r_range(_r: &Self::Ref) -> Option<Range<I>> { unreachable!() }
    fn r_range_p(_r: &Self::Ref) -> Range<I> { unreachable!() }
    fn r_cursor(_r: &Self::Ref) -> Option<PathCur> { unreachable!() }
    fn r_cursor_p(_r: &Self::Ref) -> PathCur { unreachable!() }
    fn r_borrow(_r: &Self::Ref) -> Option<Self::Bor> { unreachable!() }
    fn r_borrow_p(_r: &Self::Ref) -> Self::Bor { unreachable!() }
    fn b_clone(_b: &Self::Bor) -> Self::Bor { unreachable!() }
    fn b_map(_b: Self::Bor) -> Self::Bor { unreachable!() }
    fn b_get(_b: &Self::Bor) -> &Sl<I, J> { unreachable!() }
}

impl<I: Ix, const J: bool, const M: usize> Par<I, J, M> for NoFeatures {
    const NAME: &'static str = "plain";
    const CLONES: bool = true;
    type Ref = ();
    type Bor = ();
    fn clone_tree(t: &Tree<I, J, Self, M>) -> Option<Tree<I, J, Self, M>> { Some(t.clone()) }
    fn entry_cursor<C: Cursor>(e: &Entry<I, J, Self, M>) -> Option<C> { Some(e.cursor()) }
}
impl<I: Ix, const J: bool, const M: usize> Par<I, J, M> for AllowCow {
    const NAME: &'static str = "cow";
    const CLONES: bool = true;
    type Ref = ();
    type Bor = ();
    fn clone_tree(t: &Tree<I, J, Self, M>) -> Option<Tree<I, J, Self, M>> { Some(t.clone()) }
}
impl<I: Ix, const J: bool, const M: usize> Par<I, J, M> for AllowSliceRefs {
    const NAME: &'static str = "refs";
    const CLONES: bool = false;
    type Ref = SliceRef<I, Sl<I, J>, M>;
    type Bor = Borrow<'static, Sl<I, J>>;
    fn entry_cursor<C: Cursor>(e: &Entry<I, J, Self, M>) -> Option<C> { Some(e.cursor()) }
    fn make_ref(e: &Entry<I, J, Self, M>) -> Self::Ref { e.make_ref() }
    fn insert_ref(t: &mut Tree<I, J, Self, M>, h: Option<PathCur>, i: I, s: Sl<I, J>, z: I) -> (Option<PathCur>, Self::Ref) {
        match h {
            None => (None, t.insert_ref(i, s, z)),
            Some(c) => { let (c, r) = t.insert_ref_with_cursor(c, i, s, z); (Some(c), r) }
        }
    }
    fn r_valid(r: &Self::Ref) -> bool { r.is_valid() }
    fn r_can(r: &Self::Ref) -> bool { r.can_borrow() }
    fn r_clone(r: &Self::Ref) -> Self::Ref { r.clone() }
    fn r_range(r: &Self::Ref) -> Option<Range<I>> { r.try_range() }
    fn r_range_p(r: &Self::Ref) -> Range<I> { r.range() }
    fn r_cursor(r: &Self::Ref) -> Option<PathCur> { r.try_cursor() }
    fn r_cursor_p(r: &Self::Ref) -> PathCur { r.cursor() }
    // The lifetime is extended; the driver never moves or drops a reference while a borrow taken
    // through it is held (which safe code could not do either).
    fn r_borrow(r: &Self::Ref) -> Option<Self::Bor> { unsafe { std::mem::transmute(r.try_borrow_slice()) } }
    fn r_borrow_p(r: &Self::Ref) -> Self::Bor { unsafe { std::mem::transmute(r.borrow_slice()) } }
    fn b_clone(b: &Self::Bor) -> Self::Bor { b.clone() }
    fn b_map(b: Self::Bor) -> Self::Bor { Borrow::map(b, |s| s) }
    fn b_get(b: &Self::Bor) -> &Sl<I, J> { b }
}
