//! The slice type: carries content (kind, source, offset, length) and a token for drop accounting.
use crate::alloc::untracked;
use crate::ix::Ix;
use crate::rt::*;
use sherman::Slice;

pub const CONST: u8 = 0; // joins iff same source, wherever
pub const SPAN: u8 = 1;  // joins iff same source and contiguous
pub const CAPPED: u8 = 2;// as SPAN, but only up to CAP_LEN
pub const SOLO: u8 = 3;  // never joins
pub const CAP_LEN: i64 = 4;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct D<I> { pub k: u8, pub s: u32, pub lo: I, pub len: I }
impl<I: Ix> D<I> {
    /// `[size, kind, source, lo]`
    pub fn j(&self) -> String { format!("[{},{},{},{}]", self.len.j(), self.k, self.s, self.lo.j()) }
    pub fn split(&mut self, pos: I) -> D<I> {
        let r = D { k: self.k, s: self.s, lo: if self.k == CONST { I::ZERO } else { self.lo.add_right(pos) }, len: self.len.sub_left(pos) };
        self.len = pos;
        r
    }
    pub fn joins(&self, o: &D<I>) -> bool {
        if self.k != o.k || self.s != o.s { return false }
        match self.k {
            CONST => true,
            SPAN => self.lo.add_right(self.len) == o.lo,
            CAPPED => self.lo.add_right(self.len) == o.lo && I::INT && self.len.n() + o.len.n() <= CAP_LEN,
            _ => false,
        }
    }
    pub fn join(&self, o: &D<I>) -> D<I> { D { len: self.len.add_right(o.len), ..*self } }
}

const MAGIC: u32 = 0x51CE_A11E;
pub struct Sl<I: Ix, const J: bool> { pub d: D<I>, tok: u32, magic: u32 }
impl<I: Ix, const J: bool> Sl<I, J> {
    pub fn new(d: D<I>) -> Self { Sl { d, tok: tok_new(), magic: MAGIC } }
    pub fn ok(&self) -> bool { self.magic == MAGIC && tok_live(self.tok) }
    pub fn tok(&self) -> u32 { self.tok }
    /// content, noting a fault if the slice is dead
    pub fn look(&self) -> D<I> {
        life(if self.magic == MAGIC { 'r' } else { 'x' }, self.tok);
        if !self.ok() { fault("a dead slice was returned") }
        self.d
    }
    fn used(&self, what: &str) { life(if self.magic == MAGIC { 'u' } else { 'x' }, self.tok); if !self.ok() { untracked(|| fault(format!("{what} called on a dead slice"))) } }
}
impl<I: Ix, const J: bool> Drop for Sl<I, J> {
    fn drop(&mut self) {
        untracked(|| {
            if self.magic != MAGIC { life('x', self.tok); fault(format!("drop of a slice whose memory was overwritten ({:#x})", self.magic)); return }
            tok_drop(self.tok);
            unlink(self.tok);
        });
        probe();
        // tokens are never reused while accounted, so a second drop is recognised
        tick("drop");
    }
}
impl<I: Ix, const J: bool> Clone for Sl<I, J> {
    fn clone(&self) -> Self {
        let _ = tick("clone");
        probe();
        self.used("clone");
        CLONES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        untracked(|| Sl::new(self.d))
    }
}
impl<I: Ix, const J: bool> Slice<I> for Sl<I, J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, pos: I) -> Self {
        let wrong = tick("split");
        probe();
        self.used("split_at");
        if wrong { return untracked(|| std::mem::replace(self, Sl::new(self.d))) }
        untracked(|| {
            log_call(|| Call::Split(self.d.j(), pos.j()));
            if !(pos > I::ZERO && pos < self.d.len) {
                // the trace shows the offending offset; keep the slice type total
                return Sl::new(D { ..self.d });
            }
            let r = self.d.split(pos);
            let r = Sl::new(r);
            tick("split done");
            r
        })
    }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        let wrong = tick("join");
        probe();
        self.used("try_join");
        other.used("try_join");
        if wrong { return if lie() % 2 == 0 { Err((other, self)) } else { drop(self); Ok(other) } }
        let ok = self.d.joins(&other.d);
        untracked(|| log_call(|| Call::Join(self.d.j(), other.d.j(), ok)));
        if !ok { return Err((self, other)) }
        let mut this = self;
        this.d = this.d.join(&other.d);
        drop(other);
        tick("join done");
        Ok(this)
    }
}
impl<I: Ix, const J: bool> std::fmt::Debug for Sl<I, J> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.d.j()) }
}
impl<I: Ix, const J: bool> PartialEq for Sl<I, J> { fn eq(&self, o: &Self) -> bool { self.d == o.d } }
