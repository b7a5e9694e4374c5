//! Histories of trees of the crate's own slice type, `Constant<T>`, for several types of values, recorded for TLC
use crate::alloc::{self, tracked, untracked};
use crate::ix::Ix;
use crate::mockd::{jb, jl, MOut};
use crate::model::Model;
use crate::rt::*;
use crate::sl::{CONST, D};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::range::{EndBound, StartBound};
use sherman::{BoundedCursor, Constant, Cursor, NoCursor, RleTree, SliceEntry, SliceRef};
use std::fmt::Write;
use std::ops::Range;

/// Values: `of` gives the value number `s`, of which there are `N`
pub trait Val: Clone + PartialEq + 'static {
    const N: u64;
    const COUNTED: bool = false;
    fn of(s: u32) -> Self;
    fn s(&self) -> u32;
}
impl Val for () { const N: u64 = 1; fn of(_: u32) -> Self {} fn s(&self) -> u32 { 0 } }
impl Val for bool { const N: u64 = 2; fn of(s: u32) -> Self { s == 1 } fn s(&self) -> u32 { *self as u32 } }
impl Val for u8 { const N: u64 = 4; fn of(s: u32) -> Self { 250 + s as u8 } fn s(&self) -> u32 { (*self).wrapping_sub(250) as u32 } }
impl Val for String {
    const N: u64 = 3;
    fn of(s: u32) -> Self { format!("value number {s}") }
    fn s(&self) -> u32 { self.strip_prefix("value number ").and_then(|x| x.parse().ok()).unwrap_or(9999) }
}
/// large and more strictly aligned than what an allocator gives by itself
#[derive(Clone, PartialEq)]
#[repr(align(128))]
pub struct Big([u64; 17]);
impl Val for Big {
    const N: u64 = 3;
    fn of(s: u32) -> Self { Big([s as u64 + 1; 17]) }
    fn s(&self) -> u32 { if self.0.iter().all(|x| *x == self.0[0]) && self as *const _ as usize % 128 == 0 { self.0[0] as u32 - 1 } else { 9999 } }
}
/// every value is accounted for; equality looks at part of the value only
pub struct Tok { s: u32, tok: u32, other: u64 }
impl Clone for Tok { fn clone(&self) -> Self { untracked(|| life('u', self.tok)); if !tok_live(self.tok) { untracked(|| fault("clone of a dead value")) } Tok { s: self.s, tok: untracked(tok_new), other: self.other } } }
impl PartialEq for Tok { fn eq(&self, o: &Self) -> bool { if !tok_live(self.tok) || !tok_live(o.tok) { untracked(|| fault("comparison of a dead value")) } self.s == o.s } }
impl Drop for Tok { fn drop(&mut self) { untracked(|| tok_drop(self.tok)) } }
impl Val for Tok {
    const N: u64 = 4;
    const COUNTED: bool = true;
    fn of(s: u32) -> Self { let tok = untracked(tok_new); Tok { s, tok, other: tok as u64 } }
    fn s(&self) -> u32 { if !tok_live(self.tok) { untracked(|| fault("a dead value was returned")) } self.s }
}

type Tr<I, T, P, const M: usize> = RleTree<I, Constant<T>, P, M>;
type Cur = BoundedCursor<6>;
pub trait CPar<I: Ix, T: Val, const M: usize>: RleTreeConfig<I, Constant<T>, M> + SupportsInsert<I, Constant<T>, M> + Sized + 'static {
    const NAME: &'static str;
    const REFS: bool = false;
    type Ref: Clone + 'static;
    fn clone_tree(_: &Tr<I, T, Self, M>) -> Option<Tr<I, T, Self, M>> { None }
    fn insert_ref(_: &mut Tr<I, T, Self, M>, _c: Option<Cur>, _i: I, _s: Constant<T>, _z: I) -> (Option<Cur>, Self::Ref) { unreachable!() }
    fn make_ref(_: &SliceEntry<I, Constant<T>, Self, M>) -> Self::Ref { unreachable!() }
    fn look(_: &Self::Ref) -> (Range<I>, u32) { unreachable!() }
}
impl<I: Ix, T: Val, const M: usize> CPar<I, T, M> for NoFeatures {
    const NAME: &'static str = "plain";
    type Ref = ();
    fn clone_tree(t: &Tr<I, T, Self, M>) -> Option<Tr<I, T, Self, M>> { Some(t.clone()) }
}
impl<I: Ix, T: Val, const M: usize> CPar<I, T, M> for AllowCow {
    const NAME: &'static str = "cow";
    type Ref = ();
    fn clone_tree(t: &Tr<I, T, Self, M>) -> Option<Tr<I, T, Self, M>> { Some(t.clone()) }
}
impl<I: Ix, T: Val, const M: usize> CPar<I, T, M> for AllowSliceRefs {
    const NAME: &'static str = "refs";
    const REFS: bool = true;
    type Ref = SliceRef<I, Constant<T>, M>;
    fn insert_ref(t: &mut Tr<I, T, Self, M>, c: Option<Cur>, i: I, s: Constant<T>, z: I) -> (Option<Cur>, Self::Ref) {
        match c { None => (None, t.insert_ref(i, s, z)), Some(c) => { let (c, r) = t.insert_ref_with_cursor(c, i, s, z); (Some(c), r) } }
    }
    fn make_ref(e: &SliceEntry<I, Constant<T>, Self, M>) -> Self::Ref { e.make_ref() }
    fn look(r: &Self::Ref) -> (Range<I>, u32) { let s = r.borrow_slice().0.s(); (r.range(), s) }
}

struct S<I: Ix, T: Val, P: CPar<I, T, M>, const M: usize> { tree: Option<Box<Tr<I, T, P, M>>>, model: Model<I>, cur: Option<Cur> }

pub fn run<I: Ix, T: Val, P: CPar<I, T, M>, const M: usize>(seed: u64, ops: usize) -> MOut {
    let mut r = Rng::new(seed);
    let mut o = MOut { lines: String::new(), suspect: None, events: 0 };
    let mut ts: Vec<S<I, T, P, M>> = vec![];
    let mut refs: Vec<(usize, usize, P::Ref, u32)> = vec![];
    let mut nref = 0usize;
    let _ = take_faults();
    let (base, b0) = (live(), alloc::blocks());
    macro_rules! ev { ($($a:tt)*) => {{ o.events += 1; let _ = writeln!(o.lines, $($a)*); }} }
    macro_rules! bad { ($($a:tt)*) => { if o.suspect.is_none() { o.suspect = Some(format!($($a)*)) } } }
    ev!("{{\"op\":\"reset\",\"par\":\"{}\",\"ix\":\"{}\",\"m\":{M},\"j\":true,\"seed\":{seed}}}", P::NAME, I::NAME);
    let style = r.below(4);
    for step in 0..ops {
        if o.suspect.is_some() || NFAULTS.load(std::sync::atomic::Ordering::SeqCst) > 0 { break }
        let lv: Vec<usize> = (0..ts.len()).filter(|&i| ts[i].tree.is_some()).collect();
        if lv.is_empty() || (step > 0 && lv.len() < 3 && r.chance(3)) {
            let t = ts.len();
            if r.chance(50) {
                let d = D { k: CONST, s: r.below(T::N) as u32, lo: I::ZERO, len: I::rand_size(&mut r) };
                match tracked(|| catch(|| Box::new(RleTree::new(Constant(T::of(d.s)), d.len)))) {
                    Ok(x) => { let mut model = Model::new(); model.insert(I::ZERO, d, true); ts.push(S { tree: Some(x), model, cur: None }); ev!("{{\"op\":\"new\",\"t\":{t},\"new\":{},\"out\":\"ok\"}}", d.j()) }
                    Err(_) => { bad!("new panicked"); ev!("{{\"op\":\"new\",\"t\":{t},\"new\":{},\"out\":\"panic\"}}", d.j()) }
                }
            } else { ts.push(S { tree: Some(tracked(|| Box::new(RleTree::new_empty()))), model: Model::new(), cur: None }); ev!("{{\"op\":\"new_empty\",\"t\":{t},\"out\":\"ok\"}}") }
            continue;
        }
        let x = lv[r.below(lv.len() as u64) as usize];
        let size = ts[x].model.size();
        let n = ts[x].model.runs.len();
        let pick = |r: &mut Rng, m: &Model<I>, inside: u64| -> I {
            if n == 0 { return I::ZERO }
            let k = match style { 0 => r.below(n as u64) as usize, 1 => n - 1, 2 => (step / 6) % n, _ => r.below(n as u64) as usize / 2 };
            let s = m.runs[..k].iter().fold(I::ZERO, |a, x| a.add_right(x.d.len));
            if r.chance(inside) { m.runs[k].d.len.inside(r).map_or(s, |p| s.add_right(p)) } else { s }
        };
        match r.below(20) {
            0..=11 => {
                let i = if r.chance(15) { size } else { pick(&mut r, &ts[x].model, 60) };
                let len = I::rand_size(&mut r);
                if I::INT && size.n() + len.n() > I::CAP as i64 { continue }
                let d = D { k: CONST, s: r.below(T::N) as u32, lo: I::ZERO, len };
                if ts[x].model.double_join(i, &d, true) { bad!("runs next to each other are equal"); continue }
                let how = r.below(4);
                let c = ts[x].cur.take();
                let tree = ts[x].tree.as_mut().unwrap();
                let mut rf = None;
                let res = tracked(|| catch(|| {
                    let v = Constant(T::of(d.s));
                    if P::REFS && how < 2 { let (c, q) = P::insert_ref(tree, if how == 0 { c } else { None }, i, v, len); rf = Some(q); c }
                    else if how < 3 { Some(tree.insert_with_cursor(c.unwrap_or_else(Cur::new_empty), i, v, len)) }
                    else if r.chance(50) { tree.insert(i, v, len); None }
                    else { let _: NoCursor = tree.insert_with_cursor(NoCursor, i, v, len); None }
                }));
                let (z, k) = (tree.size(), tree.number_of_slices());
                let mut rid = -1;
                if let Ok(c) = &res {
                    let ef = ts[x].model.insert(i, d, true);
                    ts[x].cur = *c;
                    if let Some(q) = rf { rid = nref as i64; refs.push((nref, x, q, ts[x].model.runs[ef.at].id)); nref += 1 }
                    if z != ts[x].model.size() || k != ts[x].model.runs.len() { bad!("size differs") }
                } else { bad!("insert panicked"); }
                ev!("{{\"op\":\"insert\",\"t\":{x},\"i\":{},\"new\":{},\"ref\":{rid},\"out\":\"{}\",\"size\":{},\"n\":{k},\"copies\":0,\"path\":[-1]}}", i.j(), d.j(), if res.is_ok() { "ok" } else { "panic" }, z.j());
            }
            12 | 13 => if n > 0 {
                let i = pick(&mut r, &ts[x].model, 70);
                let c = ts[x].cur;
                let tree = ts[x].tree.as_ref().unwrap();
                let make = P::REFS && r.chance(40);
                let mut rf = None;
                let res = tracked(|| catch(|| { let e = match c { Some(c) if step % 2 == 0 => tree.get_with_cursor(c, i), _ => tree.get(i) }; if make { rf = Some(P::make_ref(&e)) } (e.range().start, e.range().end, e.size(), e.slice().0.s()) }));
                let (k, s) = ts[x].model.locate(i);
                let m = ts[x].model.runs[k];
                match res {
                    Ok(v) => {
                        if v != (s, s.add_right(m.d.len), m.d.len, m.d.s) { bad!("get differs") }
                        let rid = if let Some(q) = rf { refs.push((nref, x, q, m.id)); nref += 1; nref as i64 - 1 } else { -1 };
                        ev!("{{\"op\":\"get\",\"t\":{x},\"i\":{},\"out\":\"ok\",\"res\":[{},{},{},[{},0,{},{}]],\"path\":[-1],\"cto\":[-1],\"ref\":{rid}}}", i.j(), v.0.j(), v.1.j(), v.2.j(), v.2.j(), v.3, I::ZERO.j())
                    }
                    Err(_) => { bad!("get panicked"); ev!("{{\"op\":\"get\",\"t\":{x},\"i\":{},\"out\":\"panic\"}}", i.j()) }
                }
            },
            14 => {
                let (a, b) = (pick(&mut r, &ts[x].model, 50), pick(&mut r, &ts[x].model, 50));
                let (a, b) = if b < a { (b, a) } else { (a, b) };
                let full = a == b;
                let lo = if full || r.chance(20) { StartBound::Unbounded } else { StartBound::Included(a) };
                let hi = if full { EndBound::Unbounded } else { EndBound::Excluded(b) };
                let (lj, hj) = jb(&lo, &hi);
                let dir: Vec<bool> = (0..r.below(n as u64 + 3)).map(|_| r.chance(50)).collect();
                let tree = ts[x].tree.as_ref().unwrap();
                let res = catch(|| {
                    let mut it = match (lo, hi) { (StartBound::Included(a), EndBound::Excluded(b)) => tree.iter(a..b), (_, EndBound::Excluded(b)) => tree.iter(..b), _ => tree.iter(..) };
                    dir.iter().map(|&f| (if f { it.next() } else { it.next_back() }).map(|e| (e.range().start, e.range().end, e.size(), e.slice().0.s()))).collect::<Vec<_>>()
                });
                let got = match &res { Ok(v) => v.iter().map(|x| x.map_or("[]".into(), |v| format!("[{},{},{},[{},0,{},{}],[-1]]", v.0.j(), v.1.j(), v.2.j(), v.2.j(), v.3, I::ZERO.j()))).collect(), Err(_) => vec![] };
                if let Ok(v) = &res {
                    let m = &ts[x].model;
                    let st = m.starts();
                    let (f, e) = if full { (0, n) } else { (if matches!(lo, StartBound::Unbounded) { 0 } else { m.locate(a).0 }, { let (k, s) = m.locate(b); if s < b { k + 1 } else { k } }) };
                    let (mut f, mut e) = (f, e);
                    for (d, y) in dir.iter().zip(v) {
                        let k = if f >= e { None } else if *d { f += 1; Some(f - 1) } else { e -= 1; Some(e) };
                        if k.map(|k| (st[k], st[k].add_right(m.runs[k].d.len), m.runs[k].d.len, m.runs[k].d.s)) != *y { bad!("iteration differs") }
                    }
                } else if n > 0 { bad!("iteration panicked") }
                ev!("{{\"op\":\"iter\",\"t\":{x},\"lo\":{lj},\"hi\":{hj},\"out\":\"{}\",\"dir\":{},\"res\":{}}}", if res.is_ok() { "ok" } else { "panic" }, jl(&dir.iter().map(|&f| if f { "1" } else { "0" }).collect::<Vec<_>>()), jl(&got))
            }
            15 | 16 => {
                let st = ts[x].model.starts();
                let tree = ts[x].tree.as_ref().unwrap();
                let res = catch(|| tree.iter(..).take(n + 4).map(|e| (e.range().start, e.range().end, e.size(), e.slice().0.s())).collect::<Vec<_>>());
                match res {
                    Ok(v) => {
                        if v.len() != n || (0..n).any(|k| v[k] != (st[k], st[k].add_right(ts[x].model.runs[k].d.len), ts[x].model.runs[k].d.len, ts[x].model.runs[k].d.s)) || tree.size() != size || tree.number_of_slices() != n { bad!("content differs") }
                        if v.windows(2).any(|w| w[0].3 == w[1].3) { bad!("neighbours are equal") }
                        ev!("{{\"op\":\"obs\",\"t\":{x},\"out\":\"ok\",\"size\":{},\"n\":{},\"runs\":{}}}", tree.size().j(), tree.number_of_slices(),
                            jl(&v.iter().map(|v| format!("[{},{},{},[{},0,{},{}]]", v.0.j(), v.1.j(), v.2.j(), v.2.j(), v.3, I::ZERO.j())).collect::<Vec<_>>()))
                    }
                    Err(e) => { bad!("reading panicked: {e}"); ev!("{{\"op\":\"obs\",\"t\":{x},\"out\":\"panic\"}}") }
                }
            }
            17 => if !refs.is_empty() {
                let k = r.below(refs.len() as u64) as usize;
                if r.chance(20) { let (id, _, q, _) = refs.swap_remove(k); let ok = tracked(|| catch(|| drop(q))).is_ok(); ev!("{{\"op\":\"dropref\",\"r\":{id},\"out\":\"{}\"}}", if ok { "ok" } else { "panic" }); if !ok { bad!("drop panicked") } continue }
                let (id, t, q, rid) = &refs[k];
                let res = catch(|| P::look(q));
                let exp = ts[*t].model.find(*rid).map(|(k, s)| (s..s.add_right(ts[*t].model.runs[k].d.len), ts[*t].model.runs[k].d.s));
                match res {
                    Ok(v) => {
                        if Some(&v) != exp.as_ref() { bad!("reference differs") }
                        let z = v.0.end.sub_left(v.0.start).j();
                        ev!("{{\"op\":\"mref\",\"r\":{id},\"out\":\"ok\",\"val\":[{z},0,{},{}],\"range\":[{},{}],\"size\":[{z}]}}", v.1, I::ZERO.j(), v.0.start.j(), v.0.end.j())
                    }
                    Err(e) => { bad!("reference panicked: {e}"); ev!("{{\"op\":\"mref\",\"r\":{id},\"out\":\"panic\"}}") }
                }
            },
            18 => if lv.len() < 4 {
                let t2 = ts.len();
                if let Some(c) = tracked(|| P::clone_tree(ts[x].tree.as_ref().unwrap()).map(Box::new)) {
                    let (model, cur) = (ts[x].model.clone(), ts[x].cur);
                    ts.push(S { tree: Some(c), model, cur });
                    ev!("{{\"op\":\"clone\",\"t\":{x},\"t2\":{t2},\"out\":\"ok\",\"copies\":0}}")
                }
            },
            _ => {
                let held: usize = ts.iter().filter(|s| s.tree.is_some()).map(|s| s.model.runs.len()).sum();
                let f = NFAULTS.load(std::sync::atomic::Ordering::SeqCst);
                if T::COUNTED && P::NAME != "cow" { let l = live() - base; if l != held { bad!("{l} values alive, {held} held") } ev!("{{\"op\":\"acct\",\"live\":{l},\"reach\":{held},\"held\":{held},\"faults\":{f}}}") }
                else if r.chance(30) && !refs.iter().any(|q| q.1 == x) {
                    let t = ts[x].tree.take();
                    let ok = tracked(|| catch(|| drop(t))).is_ok();
                    if !ok { bad!("drop panicked") }
                    ev!("{{\"op\":\"drop\",\"t\":{x},\"out\":\"{}\"}}", if ok { "ok" } else { "panic" })
                }
            }
        }
    }
    if o.suspect.is_some() { std::mem::forget(ts); std::mem::forget(refs) } else {
        for (id, _, q, _) in refs { let ok = tracked(|| catch(|| drop(q))).is_ok(); if !ok { bad!("drop panicked") } ev!("{{\"op\":\"dropref\",\"r\":{id},\"out\":\"{}\"}}", if ok { "ok" } else { "panic" }) }
        for (k, s) in ts.iter_mut().enumerate() { if let Some(t) = s.tree.take() { let ok = tracked(|| catch(|| drop(t))).is_ok(); if !ok { bad!("drop panicked") } ev!("{{\"op\":\"drop\",\"t\":{k},\"out\":\"{}\"}}", if ok { "ok" } else { "panic" }) } }
        let (f, left, bl) = (NFAULTS.load(std::sync::atomic::Ordering::SeqCst), live() as i64 - base as i64, alloc::blocks() - b0);
        if f > 0 || left != 0 || bl != 0 { bad!("{left} values and {bl} blocks left, {f} faults") }
        ev!("{{\"op\":\"end\",\"live\":{left},\"blocks\":{bl},\"faults\":{f}}}")
    }
    let f = take_faults();
    if !f.is_empty() { bad!("faults {f:?}"); ev!("{{\"op\":\"fault\",\"faults\":{}}}", f.len()) }
    o
}
