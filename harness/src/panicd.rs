//! Histories in which one call to user code panics. Trees that were being modified at that moment
//! are used further without any expectation, except that no dead slice is seen, used or dropped.
use crate::alloc;
use crate::cur::PathCur;
use crate::ix::Ix;
use crate::mockd::{jl, MOut};
use crate::model::Model;
use crate::par::{Par, Tree};
use crate::rt::*;
fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> { alloc::tracked(|| catch(f)) }
use crate::sl::{Sl, CONST, D, SOLO, SPAN};
use sherman::RleTree;
use std::fmt::Write;

struct PT<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize> { tree: Option<Box<Tree<I, J, P, M>>>, model: Model<I>, broken: bool, dropped: bool, borrows: usize, id: i64 }
struct PR<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize> { r: Box<P::Ref>, t: usize, id: u32, borrows: usize, known: bool, no: usize, _m: std::marker::PhantomData<I> }
struct PB<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize> { b: P::Bor, r: usize, no: i64, _m: std::marker::PhantomData<I> }

struct Ses<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize> {
    lines: String, events: usize, suspect: Option<String>, r: Rng, src: u32,
    ts: Vec<PT<I, P, J, M>>, rs: Vec<Option<PR<I, P, J, M>>>, bs: Vec<Option<PB<I, P, J, M>>>, nref: usize, nbor: usize, curs: Vec<PathCur>, wild: bool,
}

impl<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize> Ses<I, P, J, M> {
    fn bad(&mut self, s: impl Into<String>) { if self.suspect.is_none() { self.suspect = Some(s.into()) } }
    fn ev(&mut self, f: impl FnOnce(&mut String)) {
        self.life();
        self.events += 1;
        self.lines.push('{'); f(&mut self.lines); self.lines.push_str("}\n");
    }
    fn life(&mut self) {
        let v = life_take();
        if v.is_empty() { return }
        self.events += 1;
        let _ = writeln!(self.lines, "{{\"op\":\"life\",\"ev\":{}}}", jl(&v.iter().map(|(k, t)| format!("[\"{k}\",{t}]")).collect::<Vec<_>>()));
    }
    fn fired(&self) -> bool { !fired().is_empty() }
    /// the injected panic happened during this call
    fn hit<T>(&self, r: &Result<T, String>, before: bool) -> bool { (r.is_err() || lying()) && !before && self.fired() }
    /// user code answers wrongly from now on, so nothing is expected of what it is used in
    fn wild(&self) -> bool { self.wild && self.fired() }
    fn live(&self) -> Vec<usize> { (0..self.ts.len()).filter(|&t| self.ts[t].tree.is_some()).collect() }
    fn panicked(&mut self, what: &str, t: i64) { self.ev(|l| { let _ = write!(l, "\"op\":\"panic\",\"in\":\"{what}\",\"t\":{t}"); }) }
    fn loose(&mut self, what: &str, t: usize) { let id = self.ts[t].id; self.ev(|l| { let _ = write!(l, "\"op\":\"loose\",\"what\":\"{what}\",\"t\":{id}"); }) }

    fn new_tree(&mut self) {
        let id = self.ts.len() as i64;
        self.src += 1;
        let d = D { k: SOLO, s: 10 + self.src, lo: I::ZERO, len: I::rand_size(&mut self.r) };
        let before = self.fired();
        let r = if self.r.chance(60) {
            let sl = Sl::new(d);
            let r = call(|| RleTree::new(sl, d.len));
            r.map(|t| (t, true))
        } else { call(RleTree::new_empty).map(|t| (t, false)) };
        match r {
            Ok((t, _)) if self.wild() || self.hit(&Ok::<(), String>(()), before) => {
                self.panicked("new", id);
                self.ts.push(PT { tree: Some(Box::new(t)), model: Model::new(), broken: true, dropped: false, borrows: 0, id });
            }
            Ok((t, one)) => {
                let mut model = Model::new();
                if one { model.insert(I::ZERO, d, J); self.ev(|l| { let _ = write!(l, "\"op\":\"new\",\"t\":{id},\"new\":{},\"out\":\"ok\"", d.j()); }) }
                else { self.ev(|l| { let _ = write!(l, "\"op\":\"new_empty\",\"t\":{id},\"out\":\"ok\""); }) }
                self.ts.push(PT { tree: Some(Box::new(t)), model, broken: false, dropped: false, borrows: 0, id });
            }
            Err(e) => if self.wild() || self.hit::<()>(&Err(e), before) { self.panicked("new", -1) } else { self.bad("new panicked"); self.ev(|l| { let _ = write!(l, "\"op\":\"new_empty\",\"t\":{id},\"out\":\"panic\""); }) },
        }
    }
    fn slice(&mut self, t: usize, i: I) -> D<I> {
        let len = I::rand_size(&mut self.r);
        let (k, _) = self.ts[t].model.locate(i);
        let left = if k > 0 { Some(self.ts[t].model.runs[k - 1].d) } else { None };
        self.src += 1;
        match self.r.below(5) {
            0 | 1 => D { k: CONST, s: self.r.below(3) as u32, lo: I::ZERO, len },
            2 => match left { Some(d) if d.k == SPAN => D { k: SPAN, s: d.s, lo: d.lo.add_right(d.len), len }, _ => D { k: SPAN, s: 10 + self.src, lo: I::ZERO, len } },
            _ => D { k: SOLO, s: 10 + self.src, lo: I::ZERO, len },
        }
    }
    fn pos(&mut self, t: usize) -> I {
        if self.ts[t].broken {
            // (whatever it says its size is)
            let size = self.ts[t].tree.as_ref().map_or(I::ZERO, |x| x.size());
            return match self.r.below(6) { 0 => I::ZERO, 1 => size, _ => size.inside(&mut self.r).unwrap_or(I::ZERO) };
        }
        let m = &self.ts[t].model;
        let n = m.runs.len() as u64;
        if n == 0 { return I::ZERO }
        let k = self.r.below(n) as usize;
        let m = &self.ts[t].model;
        let start = m.runs[..k].iter().fold(I::ZERO, |a, r| a.add_right(r.d.len));
        let len = m.runs[k].d.len;
        match self.r.below(5) { 0 => start, 1 => m.size(), _ => len.inside(&mut self.r).map_or(start, |p| start.add_right(p)) }
    }
    fn hint(&mut self) -> Option<PathCur> {
        let n = self.curs.len() as u64;
        if n > 0 && self.r.chance(40) { Some(self.curs[self.r.below(n) as usize]) } else if self.r.chance(15) { Some(PathCur::of(&[])) } else { None }
    }
    fn insert(&mut self, t: usize) {
        let i = self.pos(t);
        let d = self.slice(t, i);
        if !self.ts[t].broken && self.ts[t].model.double_join(i, &d, J) { return }
        let use_ref = P::NAME == "refs" && self.r.chance(50);
        let hint = self.hint();
        let blocked = self.ts[t].borrows > 0;
        let before = self.fired();
        let sl = Sl::new(d);
        let tree = self.ts[t].tree.as_mut().unwrap();
        let mut nr = None;
        log_start();
        let r: Result<Option<PathCur>, String> = call(|| {
            if use_ref { let (c, x) = P::insert_ref(tree, hint, i, sl, d.len); nr = Some(x); c }
            else { match hint { Some(h) => Some(tree.insert_with_cursor(h, i, sl, d.len)), None => { tree.insert(i, sl, d.len); None } } }
        });
        let calls = log_stop();
        if let Ok(Some(c)) = &r { self.curs.push(*c); if self.curs.len() > 4 { self.curs.remove(0); } }
        let id = self.ts[t].id;
        if self.hit(&r, before) {
            self.ts[t].broken = true;
            self.panicked("insert", id);
            if let Some(x) = nr { self.keep_ref(x, t, 0, false); }
            return;
        }
        if self.ts[t].broken {
            self.loose("insert", t);
            if let Some(x) = nr { self.keep_ref(x, t, 0, false); }
            return;
        }
        let mut rid = -1;
        if r.is_ok() {
            if blocked { self.bad("insert succeeded while borrowed") }
            let ef = self.ts[t].model.insert(i, d, J);
            if let Some(x) = nr { let rn = self.ts[t].model.runs[ef.at].id; rid = self.keep_ref(x, t, rn, true) }
        } else if !blocked { self.bad("insert panicked") }
        let tr = self.ts[t].tree.as_ref().unwrap();
        let (size, n) = (tr.size(), tr.number_of_slices());
        self.ev(|l| {
            let sp: Vec<String> = calls.iter().filter_map(|c| match c { Call::Split(a, p) => Some(format!("[{a},{p}]")), _ => None }).collect();
            let jn: Vec<String> = calls.iter().filter_map(|c| match c { Call::Join(a, b, o) => Some(format!("[{a},{b},{o}]")), _ => None }).collect();
            let _ = write!(l, "\"op\":\"insert\",\"t\":{id},\"i\":{},\"new\":{},\"ref\":{rid},\"out\":\"{}\",\"sp\":{},\"jn\":{},\"size\":{},\"n\":{n},\"copies\":0,\"path\":[-1]",
                i.j(), d.j(), if r.is_ok() { "ok" } else { "panic" }, jl(&sp), jl(&jn), size.j());
        });
    }
    fn keep_ref(&mut self, x: P::Ref, t: usize, id: u32, known: bool) -> i64 {
        let no = self.nref;
        if known { self.nref += 1 }
        self.rs.push(Some(PR { r: Box::new(x), t, id, borrows: 0, known, no, _m: Default::default() }));
        no as i64
    }
    /// everything a tree shows
    fn obs(&mut self, t: usize, back: bool) {
        let before = self.fired();
        let lim = self.ts[t].model.runs.len() + 12;
        let tr = self.ts[t].tree.as_ref().unwrap();
        let runs = call(|| {
            let mut v: Vec<(I, I, I, D<I>)> = vec![];
            let mut it = tr.iter(..);
            for _ in 0..lim { match if back { it.next_back() } else { it.next() } { Some(e) => v.push((e.range().start, e.range().end, e.size(), e.slice().look())), None => break } }
            if back { v.reverse() }
            v
        });
        if self.hit(&runs, before) { self.panicked("iter", -1); return }
        if self.ts[t].broken { self.loose("iter", t); return }
        let (size, n) = { let tr = self.ts[t].tree.as_ref().unwrap(); (tr.size(), tr.number_of_slices()) };
        let id = self.ts[t].id;
        match runs {
            Ok(v) => {
                let m = &self.ts[t].model;
                if v.len() != m.runs.len() || size != m.size() || n != v.len() || v.iter().zip(&m.runs).any(|(a, b)| a.3 != b.d) { self.bad("content differs") }
                self.ev(|l| { let _ = write!(l, "\"op\":\"obs\",\"t\":{id},\"out\":\"ok\",\"size\":{},\"n\":{n},\"runs\":{}", size.j(), jl(&v.iter().map(|x| format!("[{},{},{},{}]", x.0.j(), x.1.j(), x.2.j(), x.3.j())).collect::<Vec<_>>())); });
            }
            Err(_) => { self.bad("reading panicked"); self.ev(|l| { let _ = write!(l, "\"op\":\"obs\",\"t\":{id},\"out\":\"panic\""); }) }
        }
    }
    fn get(&mut self, t: usize) {
        if self.ts[t].model.runs.is_empty() { return }
        let i = if self.ts[t].broken { self.pos(t) } else { let size = self.ts[t].model.size(); loop { let i = self.pos(t); if i < size { break i } } };
        let hint = self.hint();
        let want = P::NAME == "refs" && self.r.chance(60);
        let before = self.fired();
        let mut nr = None;
        let tr = self.ts[t].tree.as_ref().unwrap();
        let cur = self.r.chance(20);
        if cur {
            let r = call(|| { tr.cursor_to::<PathCur>(i) });
            if self.hit(&r, before) { self.panicked("cursor_to", -1) } else if let Ok(c) = r { self.curs.push(c); if self.curs.len() > 4 { self.curs.remove(0); } self.life() } else if self.ts[t].broken { self.loose("cursor_to", t) } else { self.bad("cursor_to panicked") }
            return;
        }
        let r = call(|| {
            let e = match hint { Some(h) => tr.get_with_cursor(h, i), None => tr.get(i) };
            if want { nr = Some(P::make_ref(&e)) }
            (e.range().start, e.range().end, e.size(), e.slice().look())
        });
        let id = self.ts[t].id;
        let hit = self.hit(&r, before);
        if hit || self.ts[t].broken {
            // (a reference made before the panic is a good one; it is let go of)
            if let Some(x) = nr { if hit && !self.ts[t].broken { let _ = call(|| drop(x)); } else { self.keep_ref(x, t, 0, false); } }
            if hit { self.panicked("get", -1) } else { self.loose("get", t) }
            return;
        }
        let (k, s) = self.ts[t].model.locate(i);
        let run = self.ts[t].model.runs[k];
        match &r {
            Ok(x) => if x.0 != s || x.3 != run.d { self.bad("get differs") },
            Err(_) => self.bad("get panicked"),
        }
        let rid = match nr { Some(x) => self.keep_ref(x, t, run.id, true), None => -1 };
        self.ev(|l| {
            let _ = write!(l, "\"op\":\"get\",\"t\":{id},\"i\":{},\"ref\":{rid},\"path\":[-1],\"cto\":[-1]", i.j());
            match &r { Ok(x) => { let _ = write!(l, ",\"out\":\"ok\",\"res\":[{},{},{},{}]", x.0.j(), x.1.j(), x.2.j(), x.3.j()); } Err(_) => l.push_str(",\"out\":\"panic\"") }
        });
    }
    fn clone(&mut self, t: usize) {
        if !P::CLONES || self.live().len() > 4 { return }
        let before = self.fired();
        let tr = self.ts[t].tree.as_ref().unwrap();
        let r = call(|| P::clone_tree(tr));
        let id = self.ts[t].id;
        if self.hit(&r, before) { self.panicked("clone", -1); let _ = call(|| drop(r)); return }
        let id2 = self.ts.len() as i64;
        let broken = self.ts[t].broken;
        match r {
            Ok(Some(c)) => {
                let model = self.ts[t].model.clone();
                self.ts.push(PT { tree: Some(Box::new(c)), model, broken, dropped: false, borrows: 0, id: id2 });
                if broken { self.ev(|l| { let _ = write!(l, "\"op\":\"looseclone\",\"t\":{id},\"t2\":{id2}"); }) }
                else { self.ev(|l| { let _ = write!(l, "\"op\":\"clone\",\"t\":{id},\"t2\":{id2},\"out\":\"ok\",\"copies\":0"); }) }
            }
            _ => if broken { self.loose("clone", t) } else { self.bad("clone panicked"); self.ev(|l| { let _ = write!(l, "\"op\":\"clone\",\"t\":{id},\"t2\":{id2},\"out\":\"panic\",\"copies\":0"); }) },
        }
    }
    fn drop_tree(&mut self, t: usize) {
        let before = self.fired();
        let x = *self.ts[t].tree.take().unwrap();
        self.ts[t].dropped = true;
        let r = call(|| drop(x));
        let id = self.ts[t].id;
        if self.hit(&r, before) { self.ts[t].broken = true; self.panicked("drop", id); return }
        if self.ts[t].broken { self.loose("drop", t); return }
        if r.is_err() { self.bad("drop panicked") }
        self.ev(|l| { let _ = write!(l, "\"op\":\"drop\",\"t\":{id},\"out\":\"{}\"", if r.is_ok() { "ok" } else { "panic" }); });
    }
    fn refs(&self) -> Vec<usize> { (0..self.rs.len()).filter(|&k| self.rs[k].is_some()).collect() }
    fn bors(&self) -> Vec<usize> { (0..self.bs.len()).filter(|&k| self.bs[k].is_some()).collect() }
    fn ref_op(&mut self) {
        let v = self.refs();
        if v.is_empty() { return }
        let k = v[self.r.below(v.len() as u64) as usize];
        let (t, id, known, no, held) = { let x = self.rs[k].as_ref().unwrap(); (x.t, x.id, x.known, x.no, x.borrows) };
        let tid = self.ts[t].id;
        let loose = self.ts[t].broken || !known;
        let before = self.fired();
        let r: *const P::Ref = &*self.rs[k].as_ref().unwrap().r;
        let r = unsafe { &*r };
        match self.r.below(8) {
            0 => { // clone
                let x = call(|| P::r_clone(r));
                if self.hit(&x, before) { self.ts[t].broken = true; self.panicked("ref", tid); let _ = call(|| drop(x)); return }
                let ok = x.is_ok();
                let k2 = match x { Ok(x) => self.keep_ref(x, t, id, !loose), Err(_) => -1 };
                if loose { self.loose("cloneref", t); return }
                if !ok { self.bad("cloning a reference panicked") }
                self.ev(|l| { let _ = write!(l, "\"op\":\"cloneref\",\"r\":{no},\"r2\":{k2},\"out\":\"{}\"", if ok { "ok" } else { "panic" }); });
            }
            1 => if held == 0 { self.drop_ref(k) },
            2 | 3 => { // borrow
                let b = call(|| P::r_borrow(r));
                if self.hit(&b, before) { self.ts[t].broken = true; self.panicked("borrow", tid); let _ = call(|| drop(b)); return }
                let gone = self.ts[t].dropped && self.ts[t].borrows == 0;
                let got = matches!(b, Ok(Some(_)));
                let err = b.is_err();
                let mut no_b = -1;
                if let Ok(Some(b)) = b {
                    no_b = if loose { -1 } else { self.nbor += 1; self.nbor as i64 };
                    self.bs.push(Some(PB { b, r: k, no: no_b, _m: Default::default() }));
                    self.rs[k].as_mut().unwrap().borrows += 1;
                    self.ts[t].borrows += 1;
                }
                if loose { self.loose("borrow", t); return }
                if err || got == gone { self.bad("borrowing differs") }
                self.ev(|l| { let _ = write!(l, "\"op\":\"borrow\",\"r\":{no},\"b\":{no_b},\"out\":\"{}\"", if err { "panic" } else if got { "ok" } else { "none" }); });
            }
            _ => { // query
                let res = call(|| {
                    let v = P::r_valid(r);
                    let c = P::r_can(r);
                    let rg = P::r_range(r);
                    let cu = P::r_cursor(r).map(|c| c.idx());
                    let b = P::r_borrow(r);
                    let d = b.as_ref().map(|b| P::b_get(b).look());
                    drop(b);
                    (v, c, rg, cu, d)
                });
                if self.hit(&res, before) { self.ts[t].broken = true; self.panicked("query", tid); return }
                if loose { self.loose("query", t); return }
                let gone = self.ts[t].dropped && self.ts[t].borrows == 0;
                let exp = if gone { None } else { self.ts[t].model.find(id) };
                let good = match (&res, exp) {
                    (Ok((v, c, rg, cu, d)), None) => !v && !c && rg.is_none() && cu.is_none() && d.is_none(),
                    (Ok((v, c, rg, cu, d)), Some((x, s))) => *v && *c && *d == Some(self.ts[t].model.runs[x].d) && rg.as_ref().map(|r| r.start) == Some(s) && cu.is_some(),
                    _ => false,
                };
                if !good { self.bad("reference differs") }
                self.ev(|l| {
                    let pan = exp.is_none();
                    let _ = write!(l, "\"op\":\"qref\",\"r\":{no},\"pan\":[{pan},{pan},{pan}]");
                    match &res {
                        Ok((v, c, rg, cu, d)) => { let _ = write!(l, ",\"out\":\"ok\",\"valid\":{v},\"can\":{c},\"range\":{},\"path\":{},\"val\":{}",
                            rg.as_ref().map_or("[]".into(), |r| format!("[{},{}]", r.start.j(), r.end.j())),
                            cu.as_ref().map_or("[-1]".into(), |c| jl(&c.iter().map(|x| x.to_string()).collect::<Vec<_>>())), d.as_ref().map_or("[]".into(), |d| d.j())); }
                        Err(_) => l.push_str(",\"out\":\"panic\""),
                    }
                });
            }
        }
    }
    fn drop_ref(&mut self, k: usize) {
        let before = self.fired();
        let x = self.rs[k].take().unwrap();
        let (t, known, no) = (x.t, x.known, x.no);
        let r = call(|| drop(*x.r));
        let tid = self.ts[t].id;
        if self.hit(&r, before) { self.ts[t].broken = true; self.panicked("dropref", tid); return }
        if self.ts[t].broken || !known { self.loose("dropref", t); return }
        if r.is_err() { self.bad("dropping a reference panicked") }
        self.ev(|l| { let _ = write!(l, "\"op\":\"dropref\",\"r\":{no},\"out\":\"{}\"", if r.is_ok() { "ok" } else { "panic" }); });
    }
    fn bor_op(&mut self, discard: bool) {
        let v = self.bors();
        if v.is_empty() { return }
        let k = v[self.r.below(v.len() as u64) as usize];
        let (rk, no) = { let b = self.bs[k].as_ref().unwrap(); (b.r, b.no) };
        let t = self.rs[rk].as_ref().unwrap().t;
        let tid = self.ts[t].id;
        let loose = self.ts[t].broken || no < 0;
        let before = self.fired();
        if !discard && self.r.chance(50) {
            let r = call(|| P::b_get(&self.bs[k].as_ref().unwrap().b).look());
            if loose { self.loose("readbor", t); return }
            let exp = self.ts[t].model.find(self.rs[rk].as_ref().unwrap().id).map(|(x, _)| self.ts[t].model.runs[x].d);
            if r.as_ref().ok() != exp.as_ref() { self.bad("borrowed value differs") }
            self.ev(|l| { let _ = write!(l, "\"op\":\"readbor\",\"b\":{no},\"val\":{}", r.map_or("[]".into(), |d| d.j())); });
            return;
        }
        let b = self.bs[k].take().unwrap();
        let r = call(|| drop(b.b));
        self.rs[rk].as_mut().unwrap().borrows -= 1;
        self.ts[t].borrows -= 1;
        if self.hit(&r, before) { self.ts[t].broken = true; self.panicked("dropbor", tid); return }
        if loose { self.loose("dropbor", t); return }
        if r.is_err() { self.bad("dropping a borrow panicked") }
        self.ev(|l| { let _ = write!(l, "\"op\":\"dropbor\",\"b\":{no},\"out\":\"{}\"", if r.is_ok() { "ok" } else { "panic" }); });
    }
    fn step(&mut self) {
        let v = self.live();
        if v.is_empty() { if self.r.chance(50) { self.new_tree() } else { self.ref_op() } return }
        let t = v[self.r.below(v.len() as u64) as usize];
        let refs = P::NAME == "refs";
        match self.r.below(24) {
            0..=11 => self.insert(t),
            12 | 13 => self.obs(t, false),
            14 => self.obs(t, true),
            15 | 16 => self.get(t),
            17 | 18 if refs => self.ref_op(),
            19 if refs => self.bor_op(false),
            17 | 18 | 19 => self.clone(t),
            20 => self.drop_tree(t),
            21 if v.len() < 3 => self.new_tree(),
            21 | 22 if refs => self.ref_op(),
            _ => self.insert(t),
        }
    }
}

/// `at`: the step at which the panic is injected, `n`: which of the calls to user code made there
/// (u64::MAX: none; the number of calls is returned)
/// `mode` 0: a panic, 1: one wrong answer, k: every k-th answer from there on is wrong
pub fn run<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize>(seed: u64, at: usize, n: u64, mode: u32) -> (MOut, u64) {
    let mut s: Ses<I, P, J, M> = Ses { lines: String::new(), events: 0, suspect: None, r: Rng::new(seed), src: 0, ts: vec![], rs: vec![], bs: vec![], nref: 0, nbor: 0, curs: vec![], wild: mode > 1 };
    let _ = take_faults();
    alloc::DOUBLE_FREE.store(0, std::sync::atomic::Ordering::SeqCst);
    disarm();
    arm(0);
    lies(mode, seed);
    let _ = life_take();
    life_start();
    s.ev(|l| { let _ = write!(l, "\"op\":\"reset\",\"par\":\"{}\",\"ix\":\"{}\",\"m\":{M},\"j\":{J},\"seed\":{seed}", P::NAME, I::NAME); });
    s.new_tree();
    let mut ticks = 0;
    let mut faulty = false;
    for k in 0..at + 1 + s_tail(seed) * if mode > 0 { 5 } else { 1 } {
        if k == at {
            arm(n);
            s.step();
            if s.wild() { for t in 0..s.ts.len() { if !s.ts[t].broken { s.ts[t].broken = true; let id = s.ts[t].id; s.panicked("wild", id) } } }
            else { ticks = disarm() }
            // look at everything once
            if s.fired() && s.suspect.is_none() { for t in s.live() { s.obs(t, false) } }
        } else { s.step() }
        if NFAULTS.load(std::sync::atomic::Ordering::SeqCst) > 0 { faulty = true }
        if s.suspect.is_some() || faulty { break }
    }
    // tear down in random order
    while s.suspect.is_none() && !faulty {
        let (ts, bs) = (s.live(), s.bors());
        let rs: Vec<usize> = s.refs().into_iter().filter(|&k| s.rs[k].as_ref().unwrap().borrows == 0).collect();
        let tot = ts.len() + bs.len() + rs.len();
        if tot == 0 { break }
        let x = s.r.below(tot as u64) as usize;
        if x < ts.len() { if s.r.chance(50) { s.obs(ts[x], false) } s.drop_tree(ts[x]) }
        else if x < ts.len() + bs.len() { s.bor_op(true) }
        else { s.drop_ref(rs[x - ts.len() - bs.len()]) }
        if NFAULTS.load(std::sync::atomic::Ordering::SeqCst) > 0 { faulty = true }
    }
    arm(0);
    lies(0, 0);
    life_stop();
    if faulty { let f = take_faults(); s.bad(format!("fault: {}", f.join("; "))) }
    s.life();
    if alloc::flush_quarantine() > 0 { s.bad("memory was written to after it was freed") }
    let dbl = alloc::DOUBLE_FREE.load(std::sync::atomic::Ordering::SeqCst);
    if dbl > 0 { s.bad("memory freed twice") }
    let nf = if s.suspect.as_deref().is_some_and(|x| x.starts_with("fault") || x.starts_with("memory")) { 1 } else { 0 };
    s.ev(|l| { let _ = write!(l, "\"op\":\"over\",\"faults\":{nf}"); });
    if s.suspect.is_some() {
        for x in s.ts.drain(..) { std::mem::forget(x.tree) }
        for x in s.bs.drain(..) { std::mem::forget(x) }
        for x in s.rs.drain(..) { std::mem::forget(x) }
    }
    arm(0);
    (MOut { lines: std::mem::take(&mut s.lines), suspect: s.suspect.take(), events: s.events }, ticks)
}
fn s_tail(seed: u64) -> usize { [4, 10, 20][seed as usize % 3] }
