//! Path-recording cursor
use crate::rt::{lie, tick};
use sherman::{Cursor, PathComponent, RleTree};
use std::collections::BTreeMap;
use std::cell::Cell;

pub const DEPTH: usize = 48;
/// Records every component it is given, without allocating
#[derive(Clone, Copy)]
pub struct PathCur { pub v: [Option<PathComponent>; DEPTH], pub n: usize, pub over: bool }
impl PathCur {
    pub fn comps(&self) -> Vec<PathComponent> { (0..self.n).rev().map(|i| self.v[i].unwrap()).collect() }
    /// root-first child numbers
    pub fn idx(&self) -> Vec<i64> { self.comps().iter().map(comp_idx).collect() }
    pub fn of(cs: &[PathComponent]) -> PathCur {
        let mut c = PathCur { v: [None; DEPTH], n: 0, over: false };
        for x in cs.iter().rev() { c.v[c.n] = Some(*x); c.n += 1 }
        c
    }
}
impl Cursor for PathCur {
    fn new_empty() -> Self { tick("new_empty"); PathCur { v: [None; DEPTH], n: 0, over: false } }
    fn prepend_to_path(&mut self, c: PathComponent) {
        if tick("prepend") && lie() % 2 == 0 { return }
        if self.n == DEPTH { self.over = true; return }
        self.v[self.n] = Some(c);
        self.n += 1;
    }
    type PathIter = PathIt;
    fn into_path(self) -> PathIt { tick("into_path"); PathIt(self) }
}
pub struct PathIt(PathCur);
impl Iterator for PathIt {
    type Item = PathComponent;
    fn next(&mut self) -> Option<PathComponent> {
        if tick("path_next") { return crate::alloc::untracked(|| { let p = pool(); let x = lie() as usize; Some(p[if x % 2 == 0 { x / 2 % 4 } else { x / 2 % p.len() }]) }) }
        if self.0.n == 0 { None } else { self.0.n -= 1; self.0.v[self.0.n] }
    }
}

thread_local! { static LAST: Cell<u8> = const { Cell::new(0) }; }
/// child number of a component, read from its `Debug` form
pub fn comp_idx(c: &PathComponent) -> i64 {
    let s = format!("{c:?}");
    let d: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap_or(-1)
}

/// Components with child numbers 0..255 harvested from a wide tree (there is no public constructor)
pub fn pool() -> Vec<PathComponent> {
    thread_local! { static P: std::cell::RefCell<Vec<PathComponent>> = const { std::cell::RefCell::new(Vec::new()) }; }
    P.with(|p| {
        if p.borrow().is_empty() {
            let mut m: BTreeMap<i64, PathComponent> = BTreeMap::new();
            let mut t: RleTree<u32, Dull, sherman::param::NoFeatures, 127> = RleTree::new_empty();
            // appending makes the right-most leaf overflow again and again; the root fills up
            for i in 0..34000u32 { t.insert(i, Dull, 1); }
            for i in (0..34000u32).step_by(64) {
                let c: PathCur = t.cursor_to(i);
                for x in c.comps() { m.entry(comp_idx(&x)).or_insert(x); }
            }
            *p.borrow_mut() = m.into_values().collect();
        }
        p.borrow().clone()
    })
}
struct Dull;
impl sherman::Slice<u32> for Dull {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: u32) -> Self { Dull }
}
