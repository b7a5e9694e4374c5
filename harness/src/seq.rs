//! Single-threaded histories over a family of trees, their references and borrows.
use crate::alloc::{self, tracked, untracked};
use crate::cur::{comp_idx, pool, PathCur};
use crate::ix::Ix;
use crate::model::Model;
use crate::par::{Par, Tree};
use crate::rt::*;
use crate::sl::{Sl, CAPPED, CONST, D, SOLO, SPAN};
use sherman::range::{EndBound, StartBound};
use sherman::{BoundedCursor, Cursor, PathComponent, RleTree};
use std::fmt::Write;

/// What a session does; percentages are weights
#[derive(Clone, Debug)]
pub struct Cfg {
    pub ops: usize,
    pub w_insert: u64, pub w_get: u64, pub w_iter: u64, pub w_clone: u64, pub w_drop: u64,
    pub w_bad: u64, pub w_ref: u64, pub w_bor: u64, pub w_cur: u64,
    pub hints: bool,
    pub paths: bool,
    pub max_trees: usize,
    /// 0 = mixed, else fixed style of positions
    pub style: u64,
    pub kinds: u64,
    /// emit at every step the full run list of every tree (not only of the one operated on)
    pub all: bool,
    pub prefill: usize,
    /// record copies made and slices shared (clone-on-write)
    pub share: bool,
    /// account for live slices after every insertion
    pub acct: bool,
    /// percentage of calls during which references are asked from inside user code, and slices own references
    pub inside: u64,
    /// query all references after every step
    pub qall: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { ops: 60, w_insert: 60, w_get: 10, w_iter: 10, w_clone: 0, w_drop: 0, w_bad: 0, w_ref: 0, w_bor: 0, w_cur: 0,
            hints: true, paths: true, max_trees: 4, style: 0, kinds: 0, all: false, prefill: 0, share: false, acct: false, inside: 0, qall: std::env::var("QALL").is_ok() }
    }
}

thread_local! { static FLUSH: std::cell::RefCell<Option<std::fs::File>> = const { std::cell::RefCell::new(None) }; }
pub fn flush_to(p: &str) { FLUSH.with(|f| *f.borrow_mut() = Some(std::fs::File::create(p).unwrap())) }

thread_local! { static ASKED: std::cell::RefCell<Vec<(usize, Option<[bool; 6]>)>> = const { std::cell::RefCell::new(Vec::new()) }; }

struct Slot<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize> {
    tree: Option<Box<Tree<I, J, P, M>>>,
    model: Model<I>,
    /// references created over the tree's life (also after its drop)
    borrows: usize,
    dropped: bool,
    /// objects holding the slices, and the paths of the runs, when last looked at
    objs: Vec<(u32, u32)>,
    paths: Vec<Vec<i64>>,
}
struct RefSlot<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize> { r: Box<P::Ref>, tree: usize, id: u32, borrows: usize, _m: std::marker::PhantomData<I> }
struct BorSlot<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize> { b: P::Bor, rf: usize, _m: std::marker::PhantomData<I> }

pub struct Out { pub lines: String, pub suspect: Option<String>, pub events: usize, pub inserts: usize, pub maxn: usize, pub maxdepth: usize, pub ways: (usize, usize), pub kinds: std::collections::BTreeMap<&'static str, usize> }

struct Ses<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize> {
    emit: bool,
    out: Out,
    r: Rng,
    cfg: Cfg,
    slots: Vec<Slot<I, P, J, M>>,
    refs: Vec<Option<RefSlot<I, P, J, M>>>,
    bors: Vec<Option<BorSlot<I, P, J, M>>>,
    cursors: Vec<Vec<PathComponent>>,
    src: u32,
    hot: i64,
    base_live: usize,
    addrs: std::collections::HashMap<usize, u32>,
    /// what the last insertion may have copied: tree, and for each leaf next to it how many slices
    /// and what has to stay
    due: Option<(usize, u64, Vec<(u64, Vec<(crate::model::Run<I>, (u32, u32), bool)>)>)>,
}

fn jl<T: AsRef<str>>(v: &[T]) -> String { let mut s = String::from("["); for (i, x) in v.iter().enumerate() { if i > 0 { s.push(',') } s.push_str(x.as_ref()) } s.push(']'); s }
fn jp(p: &[i64]) -> String { jl(&p.iter().map(|x| x.to_string()).collect::<Vec<_>>()) }

impl<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize> Ses<I, P, J, M> {
    fn ev(&mut self, f: impl FnOnce(&mut String)) {
        self.out.events += 1;
        if self.emit {
            let l = &mut self.out.lines;
            let n = l.len();
            l.push('{'); f(l); l.push_str("}\n");
            FLUSH.with(|f| if let Some(f) = f.borrow_mut().as_mut() { use std::io::Write; let _ = f.write_all(l[n..].as_bytes()); let _ = f.flush(); });
        }
    }
    fn count(&mut self, k: &'static str) { *self.out.kinds.entry(k).or_insert(0) += 1 }
    fn bad(&mut self, s: impl Into<String>) { if self.out.suspect.is_none() { self.out.suspect = Some(s.into()) } }
    fn live_slots(&self) -> Vec<usize> { (0..self.slots.len()).filter(|&i| self.slots[i].tree.is_some()).collect() }

    fn hint(&mut self, t: usize, i: I) -> PathCur {
        let n = self.cursors.len() as u64;
        match self.r.below(if self.cfg.hints { 10 } else { 1 }) {
            0 | 1 => PathCur::of(&[]),
            2 | 3 if n > 0 => { let k = self.r.below(n) as usize; PathCur::of(&self.cursors[k].clone()) }
            4 if n > 0 => PathCur::of(&self.cursors[n as usize - 1].clone()),
            5 | 6 => {
                // accurate for this index
                let tr = self.slots[t].tree.as_ref().unwrap();
                if i >= I::ZERO && i < tr.size() { match catch(|| tr.cursor_to::<PathCur>(i)) { Ok(c) => c, Err(_) => PathCur::of(&[]) } } else { PathCur::of(&[]) }
            }
            7 => {
                // accurate prefix, then garbage
                let tr = self.slots[t].tree.as_ref().unwrap();
                let mut c = if i >= I::ZERO && i < tr.size() { match catch(|| tr.cursor_to::<PathCur>(i)) { Ok(c) => c.comps(), Err(_) => vec![] } } else { vec![] };
                let p = pool();
                let extra = self.r.below(4);
                if !c.is_empty() && self.r.chance(50) { let k = self.r.below(c.len() as u64) as usize; c[k] = p[self.r.below(2 * M as u64 + 2) as usize % p.len()] }
                for _ in 0..extra { c.push(p[self.r.below(2 * M as u64 + 2) as usize % p.len()]) }
                PathCur::of(&c)
            }
            _ => {
                let p = pool();
                let len = self.r.below(6);
                let wide = self.r.chance(20);
                let c: Vec<_> = (0..len).map(|_| p[self.r.below(if wide { p.len() as u64 } else { (2 * M as u64 + 2).min(p.len() as u64) }) as usize]).collect();
                PathCur::of(&c)
            }
        }
    }

    fn pick_pos(&mut self, t: usize) -> I {
        let style = if self.cfg.style == 0 { 1 + self.r.below(8) } else { self.cfg.style };
        let m = &self.slots[t].model;
        let n = m.runs.len() as u64;
        if n == 0 { return I::ZERO }
        let size = m.size();
        let k = match style {
            1 => return size,
            2 => return I::ZERO,
            3 | 4 => self.r.below(n),
            5 => { // around a hot spot
                if self.hot < 0 || self.hot as u64 >= n || self.r.chance(10) { self.hot = self.r.below(n) as i64 }
                let d = self.r.below(3) as i64 - 1;
                (self.hot + d).clamp(0, n as i64 - 1) as u64
            }
            6 => { let f = n.min(3); if self.r.chance(50) { self.r.below(f) } else { n - 1 - self.r.below(f) } }
            8 => { // runs kept in the upper levels of the tree
                let mut best = (usize::MAX, 0);
                for _ in 0..5 {
                    let k = self.r.below(n);
                    let at = self.slots[t].model.runs[..k as usize].iter().fold(I::ZERO, |a, r| a.add_right(r.d.len));
                    let tr = self.slots[t].tree.as_ref().unwrap();
                    let d = catch(|| tr.cursor_to::<PathCur>(at)).map_or(usize::MAX - 1, |c| c.idx().len());
                    if d < best.0 { best = (d, k) }
                }
                best.1
            }
            _ => self.r.below(n),
        } as usize;
        let m = &self.slots[t].model;
        let start = m.runs[..k].iter().fold(I::ZERO, |a, r| a.add_right(r.d.len));
        let inside_pct = match style { 4 | 8 => 90, 3 => 10, _ => 40 };
        let len = m.runs[k].d.len;
        if self.r.chance(inside_pct) {
            if let Some(p) = len.inside(&mut self.r) { return start.add_right(p) }
        }
        if self.r.chance(50) { start } else { start.add_right(len) }
    }

    fn new_slice(&mut self, t: usize, i: I) -> D<I> {
        let len = I::rand_size(&mut self.r);
        let kind = match self.cfg.kinds {
            1 => CONST, 2 => SPAN, 3 => SOLO, 4 => CAPPED,
            _ => match self.r.below(10) { 0..=2 => CONST, 3..=5 => SPAN, 6 if I::INT => CAPPED, 6 => SPAN, _ => SOLO },
        };
        let m = &self.slots[t].model;
        let (k, s) = m.locate(i);
        let (l, rr) = if k < m.runs.len() && s < i {
            let mut l = m.runs[k].d;
            let r = l.split(i.sub_left(s));
            (Some(l), Some(r))
        } else {
            (if k > 0 { Some(m.runs[k - 1].d) } else { None }, m.runs.get(k).map(|r| r.d))
        };
        let fresh = |s: &mut Self| { s.src += 1; 10 + s.src };
        match kind {
            CONST => {
                let s = match self.r.below(4) {
                    0 => l.filter(|d| d.k == CONST).map(|d| d.s),
                    1 => rr.filter(|d| d.k == CONST).map(|d| d.s),
                    _ => None,
                }.unwrap_or_else(|| self.r.below(4) as u32);
                D { k: CONST, s, lo: I::ZERO, len }
            }
            SOLO => D { k: SOLO, s: fresh(self), lo: I::ZERO, len },
            k => {
                match self.r.below(5) {
                    0 | 1 => if let Some(d) = l.filter(|d| d.k == k) { return D { k, s: d.s, lo: d.lo.add_right(d.len), len } },
                    2 | 3 => if let Some(d) = rr.filter(|d| d.k == k) {
                        // new.lo + len == d.lo
                        if I::INT {
                            if d.lo.n() > 0 {
                                let n = len.n().min(d.lo.n());
                                let len = I::of(n);
                                return D { k, s: d.s, lo: I::of(d.lo.n() - n), len };
                            }
                        } else { return D { k, s: d.s, lo: d.lo.sub_right(len), len } }
                    },
                    _ => (),
                }
                let lo = if I::INT { I::of(self.r.below(20) as i64) } else { I::ZERO };
                D { k, s: fresh(self), lo, len }
            }
        }
    }

    /// full run list of a tree as read through iteration
    fn read(&mut self, t: usize) -> Result<Vec<(I, I, I, D<I>)>, String> {
        let tr = self.slots[t].tree.as_ref().unwrap();
        let lim = self.slots[t].model.runs.len() + 8;
        catch(|| tr.iter(..).take(lim).map(|e| (e.range().start, e.range().end, e.size(), e.slice().look())).collect())
    }

    fn obs(&mut self, t: usize) {
        let runs = self.read(t);
        let (size, n) = { let tr = self.slots[t].tree.as_ref().unwrap(); (tr.size(), tr.number_of_slices()) };
        let runs = match runs {
            Ok(r) => r,
            Err(e) => {
                self.bad(format!("reading tree {t} panicked: {e}"));
                self.ev(|l| { let _ = write!(l, "\"op\":\"obs\",\"t\":{t},\"out\":\"panic\""); });
                return;
            }
        };
        let mut paths: Vec<Vec<i64>> = vec![];
        if self.cfg.paths {
            let tr = self.slots[t].tree.as_ref().unwrap();
            for r in &runs {
                match catch(|| tr.cursor_to::<PathCur>(r.0)) {
                    Ok(c) => paths.push(c.idx()),
                    Err(_) => paths.push(vec![-1]),
                }
            }
        }
        if self.cfg.share { self.slots[t].paths = paths.clone() }
        let m = &self.slots[t].model;
        let mut s = I::ZERO;
        let mut okm = runs.len() == m.runs.len() && n == runs.len() && size == m.size();
        if okm {
            for (x, y) in runs.iter().zip(&m.runs) {
                let e = s.add_right(y.d.len);
                if x.3 != y.d || x.0 != s || x.1 != e || x.2 != y.d.len { okm = false; break }
                s = e;
            }
        }
        if !okm { self.bad("content differs") }
        if self.cfg.paths {
            if let Err(e) = shape_ok(&paths, M) { self.bad(format!("shape: {e}")) }
            let d = paths.iter().map(|p| p.len()).max().unwrap_or(0);
            self.out.maxdepth = self.out.maxdepth.max(d);
        }
        self.out.maxn = self.out.maxn.max(runs.len());
        self.count("obs");
        let mut valid = true;
        if self.cfg.paths {
            let tr = self.slots[t].tree.as_ref().unwrap();
            if let Err(e) = catch(|| tr.validate()) { valid = false; self.bad(format!("validate: {e}")) }
        }
        let paths_on = self.cfg.paths;
        self.ev(|l| {
            let rj: Vec<String> = runs.iter().map(|x| format!("[{},{},{},{}]", x.0.j(), x.1.j(), x.2.j(), x.3.j())).collect();
            let _ = write!(l, "\"op\":\"obs\",\"t\":{t},\"out\":\"ok\",\"size\":{},\"n\":{n},\"runs\":{}", size.j(), jl(&rj));
            if paths_on { let pj: Vec<String> = paths.iter().map(|p| jp(p)).collect(); let _ = write!(l, ",\"paths\":{},\"valid\":{valid}", jl(&pj)); }
        });
    }

    /// mirror of `Share!Alternatives`
    fn expect_share(&mut self, t: usize, i: I, copies: u64) {
        let foreign: std::collections::HashSet<(u32, u32)> = self.live_slots().into_iter().filter(|&x| x != t).flat_map(|x| self.slots[x].objs.clone()).collect();
        let s = &self.slots[t];
        let n = s.model.runs.len();
        if n == 0 || s.paths.len() != n || s.objs.len() != n { self.due = None; return }
        let (k, st) = s.model.locate(i);
        let d = s.paths.iter().map(|p| p.len()).max().unwrap();
        let mut alts = vec![];
        for j in [k.wrapping_sub(1), k, if k < n && st < i { k + 1 } else { k }] {
            if j >= n || s.paths[j].len() != d { continue }
            let may: Vec<bool> = (0..n).map(|x| s.paths[j].starts_with(&s.paths[x]) && foreign.contains(&s.objs[x])).collect();
            alts.push((may.iter().filter(|x| **x).count() as u64, (0..n).filter(|&x| !may[x]).map(|x| (s.model.runs[x], s.objs[x], foreign.contains(&s.objs[x]))).collect()));
        }
        self.due = Some((t, copies, alts));
    }
    /// the objects that hold the slices of all trees
    fn share(&mut self) {
        let mut now: Vec<(usize, Vec<(u32, u32)>)> = vec![];
        for t in self.live_slots() {
            let tr = self.slots[t].tree.as_ref().unwrap();
            let lim = self.slots[t].model.runs.len() + 8;
            let r = catch(|| tr.iter(..).take(lim).map(|e| (e.slice().tok(), e.slice() as *const _ as usize)).collect::<Vec<_>>());
            match r {
                Ok(v) => { let v = v.into_iter().map(|(a, b)| { let n = self.addrs.len() as u32; (a, *self.addrs.entry(b).or_insert(n)) }).collect(); now.push((t, v)) }
                Err(e) => self.bad(format!("reading tree {t} panicked: {e}")),
            }
        }
        let mut at = std::collections::HashMap::new();
        for (t, v) in &now {
            if v.len() != self.slots[*t].model.runs.len() { self.bad("number of slices differs") }
            let toks: std::collections::HashSet<u32> = v.iter().map(|x| x.0).collect();
            if toks.len() != v.len() { self.bad("two runs share an object") }
            for o in v { if *at.entry(o.0).or_insert(o.1) != o.1 { self.bad("one object at two addresses") } }
            let old = self.slots[*t].objs.clone();
            if self.due.as_ref().map_or(true, |d| d.0 != *t) && old.len() == v.len() && old != *v { self.bad("objects of another tree changed") }
        }
        if let Some((t, copies, alts)) = self.due.take() {
            let v = &now.iter().find(|x| x.0 == t).unwrap().1;
            let runs = &self.slots[t].model.runs;
            let good = alts.iter().any(|(n, keep)| copies <= *n && keep.iter().all(|(run, o, sh)| runs.iter().zip(v).all(|(r, w)| r != run || (w.0 == o.0 && (!sh || w.1 == o.1)))));
            if !good { self.bad("an insertion copied more than the path") }
        }
        self.count("share");
        self.ev(|l| {
            let v: Vec<String> = now.iter().map(|(t, v)| format!("[{t},{}]", jl(&v.iter().map(|(a, b)| format!("[{a},{b}]")).collect::<Vec<_>>()))).collect();
            let _ = write!(l, "\"op\":\"share\",\"trees\":{}", jl(&v));
        });
        for (t, v) in now { self.slots[t].objs = v }
    }

    fn obs_after(&mut self, t: usize) {
        if self.cfg.all { for s in self.live_slots() { self.obs(s) } } else { self.obs(t) }
    }

    fn acct(&mut self) {
        // slices reachable from live trees vs. slices alive
        let mut toks = std::collections::HashSet::new();
        let mut sum = 0usize;
        for t in self.live_slots() {
            let tr = self.slots[t].tree.as_ref().unwrap();
            match catch(|| tr.iter(..).map(|e| e.slice().tok()).collect::<Vec<_>>()) {
                Ok(v) => { sum += v.len(); toks.extend(v) }
                Err(e) => self.bad(format!("reading panicked: {e}")),
            }
        }
        let pend: usize = self.slots.iter().filter(|s| s.dropped && s.borrows > 0).map(|s| s.model.runs.len()).sum();
        let live = live() - self.base_live;
        let reach = toks.len() + pend;
        let shared = if P::NAME == "cow" { true } else { false };
        if live != reach || (!shared && sum != toks.len()) { self.bad(format!("live {live} reach {reach}")) }
        self.count("acct");
        let f = NFAULTS.load(std::sync::atomic::Ordering::SeqCst);
        if f > 0 { self.bad("fault") }
        let held = if shared { -1 } else { (sum + pend) as i64 };
        self.ev(|l| { let _ = write!(l, "\"op\":\"acct\",\"live\":{live},\"reach\":{reach},\"held\":{held},\"faults\":{f}"); });
    }

    fn do_insert(&mut self, t: usize) {
        let mut i = self.pick_pos(t);
        let mut d = self.new_slice(t, i);
        let mut tries = 0;
        // double joins at an edge are a recorded finding (see known_findings.json) and kept out of
        // random histories
        while self.slots[t].model.double_join(i, &d, J) {
            tries += 1;
            if tries > 5 { return }
            i = self.pick_pos(t);
            d = self.new_slice(t, i);
        }
        if I::INT && self.slots[t].model.size().n() + d.len.n() > I::CAP as i64 { return }
        let use_ref = P::NAME == "refs" && self.r.chance(if self.cfg.style == 8 { 80 } else { 40 });
        self.insert_at(t, i, d, use_ref);
    }

    /// the number of the reference asked for, or -1
    fn insert_at(&mut self, t: usize, i: I, d: D<I>, use_ref: bool) -> i64 {
        let with_cur = self.r.chance(60);
        let hint = if with_cur { Some(self.hint(t, i)) } else { None };
        let blocked = self.slots[t].borrows > 0;
        let sl = Sl::new(d);
        let c0 = CLONES.load(std::sync::atomic::Ordering::SeqCst);
        let ask = !blocked && self.probe_on();
        log_start();
        let tree = self.slots[t].tree.as_mut().unwrap();
        let mut newref = None;
        let o0 = ops();
        let res: Result<Option<PathCur>, String> = tracked(|| catch(|| {
            if use_ref {
                let (c, r) = P::insert_ref(tree, hint, i, sl, d.len);
                newref = Some(r);
                c
            } else {
                match hint {
                    Some(h) => Some(tree.insert_with_cursor(h, i, sl, d.len)),
                    None => { tree.insert(i, sl, d.len); None }
                }
            }
        }));
        let cost = ops() - o0;
        let calls = log_stop();
        if ask { self.probe_off(t, "insert") }
        let copies = CLONES.load(std::sync::atomic::Ordering::SeqCst) - c0;
        if self.cfg.share && res.is_ok() { self.expect_share(t, i, copies) }
        self.out.inserts += 1;
        self.count("insert");
        let mut path: Option<Vec<i64>> = None;
        let ok = match &res {
            Ok(c) => {
                if blocked { self.bad("insert succeeded while borrowed") }
                if let Some(c) = c {
                    path = Some(c.idx());
                    self.cursors.push(c.comps());
                    if self.cursors.len() > 12 { self.cursors.remove(0); }
                }
                true
            }
            Err(e) => { if !blocked { self.bad(format!("insert panicked: {e}")) } false }
        };
        let mut rid = -1;
        if ok {
            let ef = self.slots[t].model.insert(i, d, J);
            if ef.splits.len() > 0 { self.count("split"); }
            if ef.joins.iter().any(|j| j.2) { self.count("join"); }
            let exp: Vec<String> = ef.splits.iter().map(|(a, p)| format!("S{}@{}", a.j(), p.j()))
                .chain(ef.joins.iter().map(|(a, b, o)| format!("J{}{}{}", a.j(), b.j(), o))).collect();
            let got: Vec<String> = calls.iter().map(|c| match c { Call::Split(a, p) => format!("S{a}@{p}"), Call::Join(a, b, o) => format!("J{a}{b}{o}") }).collect();
            if exp != got { self.bad(format!("calls {got:?} expected {exp:?}")) }
            if let Some(r) = newref.take() {
                let id = self.slots[t].model.runs[ef.at].id;
                rid = self.add_ref(r, t, id) as i64;
            }
            if let Some(p) = &path {
                let tr = self.slots[t].tree.as_ref().unwrap();
                match catch(|| tr.cursor_to::<PathCur>(i).idx()) { Ok(q) if q == *p => (), Ok(q) => self.bad(format!("cursor of insertion {p:?} but {q:?}")), Err(_) => self.bad("cursor_to panicked") }
            }
        } else if let Some(r) = newref.take() { std::mem::forget(r) }
        let (size, n) = { let tr = self.slots[t].tree.as_ref().unwrap(); (tr.size(), tr.number_of_slices()) };
        self.ev(|l| {
            let sp: Vec<String> = calls.iter().filter_map(|c| match c { Call::Split(a, p) => Some(format!("[{a},{p}]")), _ => None }).collect();
            let jn: Vec<String> = calls.iter().filter_map(|c| match c { Call::Join(a, b, o) => Some(format!("[{a},{b},{o}]")), _ => None }).collect();
            let _ = write!(l, "\"op\":\"insert\",\"t\":{t},\"i\":{},\"new\":{},\"ref\":{rid},\"out\":\"{}\",\"sp\":{},\"jn\":{},\"size\":{},\"n\":{n},\"copies\":{copies},\"path\":{}",
                i.j(), d.j(), if ok { "ok" } else { "panic" }, jl(&sp), jl(&jn), size.j(),
                match &path { Some(p) => jp(p), None => "[-1]".into() });
            if let Some(h) = &hint { let _ = write!(l, ",\"hint\":{}", jp(&h.idx())); }
            if I::NAME == "Cn" && !ask { let _ = write!(l, ",\"cost\":{cost}"); }
        });
        if !ask && cost > insert_cost(n, M) { self.bad(format!("insertion: {cost} operations on indexes with {n} runs of width {M}")) }
        rid
    }

    fn add_ref(&mut self, r: P::Ref, tree: usize, id: u32) -> usize {
        self.refs.push(Some(RefSlot { r: Box::new(r), tree, id, borrows: 0, _m: Default::default() }));
        self.refs.len() - 1
    }

    fn pick_idx(&mut self, t: usize) -> Option<I> {
        let m = &self.slots[t].model;
        let n = m.runs.len() as u64;
        if n == 0 { return None }
        let k = self.r.below(n) as usize;
        let m = &self.slots[t].model;
        let start = m.runs[..k].iter().fold(I::ZERO, |a, r| a.add_right(r.d.len));
        let len = m.runs[k].d.len;
        if self.r.chance(60) { Some(start) } else { Some(len.inside(&mut self.r).map_or(start, |p| start.add_right(p))) }
    }

    fn do_get(&mut self, t: usize) {
        let Some(i) = self.pick_idx(t) else { return };
        let want_ref = P::NAME == "refs" && self.r.chance(30);
        self.get_at(t, i, want_ref);
    }
    fn get_at(&mut self, t: usize, i: I, want_ref: bool) -> i64 {
        let hint = if self.r.chance(60) { Some(self.hint(t, i)) } else { None };
        let mut newref = None;
        let as_clone = self.r.chance(30);
        let tr = self.slots[t].tree.as_ref().unwrap();
        let o0 = ops();
        let res = tracked(|| catch(|| {
            let e = match hint { Some(h) => tr.get_with_cursor(h, i), None => tr.get(i) };
            let e = if as_clone { e.clone() } else { e };
            if want_ref { newref = Some(P::make_ref(&e)) }
            (e.range().start, e.range().end, e.size(), e.slice().look(), P::entry_cursor::<PathCur>(&e).map(|c| untracked(|| c.idx())))
        }));
        let cost = ops() - o0;
        let cto = catch(|| tr.cursor_to::<PathCur>(i).idx()).unwrap_or(vec![-1]);
        self.count("get");
        let n = self.slots[t].model.runs.len();
        if cost > reach_cost(n, M) { self.bad(format!("lookup: {cost} operations on indexes with {n} runs of width {M}")) }
        let (k, s) = self.slots[t].model.locate(i);
        let run = self.slots[t].model.runs[k];
        match &res {
            Ok((a, b, z, d, c)) => {
                if *a != s || *b != s.add_right(run.d.len) || *d != run.d || *z != run.d.len { self.bad("get differs") }
                if let Some(c) = c { if *c != cto { self.bad("entry cursor differs") } }
            }
            Err(e) => self.bad(format!("get panicked: {e}")),
        }
        let rid = match newref { Some(r) => self.add_ref(r, t, run.id) as i64, None => -1 };
        self.ev(|l| {
            let _ = write!(l, "\"op\":\"get\",\"t\":{t},\"i\":{},\"ref\":{rid}", i.j());
            match &res {
                Ok((a, b, z, d, c)) => { let _ = write!(l, ",\"out\":\"ok\",\"res\":[{},{},{},{}],\"path\":{},\"cto\":{}", a.j(), b.j(), z.j(), d.j(), c.as_ref().map_or("[-1]".into(), |c| jp(c)), jp(&cto)); }
                Err(_) => l.push_str(",\"out\":\"panic\""),
            }
            if let Some(h) = &hint { let _ = write!(l, ",\"hint\":{}", jp(&h.idx())); }
            if I::NAME == "Cn" { let _ = write!(l, ",\"cost\":{cost}"); }
        });
        rid
    }

    fn do_iter(&mut self, t: usize) {
        // bounds: mostly valid, sometimes exactly at the limits
        let size = self.slots[t].model.size();
        let valid = !self.r.chance(15);
        let a = self.pick_idx(t).unwrap_or(I::ZERO);
        let b = if self.r.chance(20) { a } else { self.pick_idx(t).unwrap_or(I::ZERO) };
        let (mut lo, mut hi) = if a <= b { (a, b) } else { (b, a) };
        if !valid {
            match self.r.below(5) {
                4 => if let Some(g) = I::neg(&mut self.r) { if self.r.chance(50) { lo = g } else { hi = g } },
                0 => std::mem::swap(&mut lo, &mut hi),
                1 => hi = size,
                2 => { lo = size; hi = size }
                _ => hi = size.above(&mut self.r),
            }
        } else if self.r.chance(15) { hi = size }
        let sb = match self.r.below(3) { 0 => StartBound::Unbounded, _ => StartBound::Included(lo) };
        let eb = match self.r.below(5) { 0 => EndBound::Unbounded, 1 | 2 => EndBound::Included(hi), 3 if self.r.chance(10) => EndBound::Excluded(I::ZERO), _ => EndBound::Excluded(hi) };
        let n = self.slots[t].model.runs.len();
        let style = self.r.below(5);
        let full = self.r.chance(60);
        let steps = if full { (n + 4).min(70) } else { self.r.below(8) as usize };
        let switch = self.r.below(steps as u64 + 1) as usize;
        let script: Vec<bool> = (0..steps).map(|k| match style { 0 => true, 1 => false, 2 => k % 2 == 0, 3 => k < switch, _ => self.r.chance(50) }).collect();
        let hint = if self.r.chance(50) { Some(self.hint(t, if script.first() == Some(&false) { hi } else { lo })) } else { None };
        let mut res: Vec<Option<(I, I, I, D<I>, Option<Vec<i64>>)>> = vec![];
        let late = self.r.chance(30);
        let ref_at = if P::NAME == "refs" && self.cfg.w_ref > 0 && steps > 0 && self.r.chance(40) && self.refs.iter().flatten().count() < 16 { self.r.below(steps as u64) as usize } else { usize::MAX };
        let mut newref = None;
        let tr = self.slots[t].tree.as_ref().unwrap();
        let o0 = ops();
        let r = tracked(|| catch(|| {
            macro_rules! go { ($it:expr) => {{
                let mut it = $it;
                let mut kept = untracked(|| Vec::with_capacity(steps));
                for (x, &f) in script.iter().enumerate() {
                    let e = if f { it.next() } else { it.next_back() };
                    let e = if x % 3 == 2 { e.clone() } else { e };
                    let look = |e: crate::par::Entry<I, J, P, M>| (e.range().start, e.range().end, e.size(), e.slice().look(), P::entry_cursor::<PathCur>(&e).map(|c| untracked(|| c.idx())));
                    // entries are looked at when they come, or after all of them came
                    if late { kept.push(e); if x + 1 == steps { for (x, e) in kept.drain(..).enumerate() { if x == ref_at { newref = e.as_ref().map(|e| P::make_ref(e)) } untracked(|| res.push(e.map(look))) } } }
                    else { if x == ref_at { newref = e.as_ref().map(|e| P::make_ref(e)) } untracked(|| res.push(e.map(look))) }
                }
                untracked(|| drop(kept));
            }} }
            match hint {
                Some(h) => go!(tr.iter_with_cursor(h, (sb, eb))),
                None => go!(tr.iter((sb, eb))),
            }
        }));
        let cost = ops() - o0;
        self.count("iter");
        if cost > (steps as u64 + 2) * reach_cost(n, M) { self.bad(format!("iteration: {cost} operations on indexes in {steps} steps with {n} runs of width {M}")) }
        // mirror
        let (exp_ok, exp) = self.slots[t].model.iter_script(sb, eb, &script);
        if r.is_ok() != exp_ok { self.bad(format!("iter {:?}..{:?} panic mismatch {:?}", sb, eb, r)) }
        if r.is_ok() && exp_ok {
            for (k, e) in exp.iter().enumerate() {
                match (e, &res[k]) {
                    (None, None) => (),
                    (Some((s, d)), Some(y)) if y.0 == *s && y.1 == s.add_right(d.len) && y.2 == d.len && y.3 == *d => (),
                    _ => { self.bad(format!("iter step {k} differs")); break }
                }
            }
        }
        if !r.is_ok() && !res.is_empty() { self.bad("iter panicked half-way") }
        let panicked = r.is_err();
        let mut rid = -1;
        if let Some(nr) = newref {
            match exp.get(ref_at) {
                Some(Some((s, _))) => { let k = self.slots[t].model.locate(*s).0; let id = self.slots[t].model.runs[k].id; rid = self.add_ref(nr, t, id) as i64 }
                _ => std::mem::forget(nr),
            }
        }
        self.ev(|l| {
            if rid >= 0 { let _ = write!(l, "\"ref\":{rid},\"at\":{},", ref_at + 1); }
            let _ = write!(l, "\"op\":\"iter\",\"t\":{t},\"lo\":{},\"hi\":{},\"out\":\"{}\",\"dir\":{}",
                match sb { StartBound::Unbounded => "[\"U\"]".into(), StartBound::Included(x) => format!("[\"I\",{}]", x.j()) },
                match eb { EndBound::Unbounded => "[\"U\"]".into(), EndBound::Included(x) => format!("[\"I\",{}]", x.j()), EndBound::Excluded(x) => format!("[\"E\",{}]", x.j()) },
                if panicked { "panic" } else { "ok" },
                jl(&script.iter().map(|&f| if f { "1" } else { "0" }).collect::<Vec<_>>()));
            let rs: Vec<String> = res.iter().map(|e| match e { None => "[]".into(), Some(y) => format!("[{},{},{},{},{}]", y.0.j(), y.1.j(), y.2.j(), y.3.j(), y.4.as_ref().map_or("[-1]".into(), |c| jp(c))) }).collect();
            let _ = write!(l, ",\"res\":{}", jl(&rs));
            if I::NAME == "Cn" { let _ = write!(l, ",\"cost\":{cost}"); }
            if let Some(h) = &hint { let _ = write!(l, ",\"hint\":{}", jp(&h.idx())); }
        });
    }

    fn do_clone(&mut self, t: usize) {
        if self.live_slots().len() >= self.cfg.max_trees || !P::CLONES { return }
        let tr = self.slots[t].tree.as_ref().unwrap();
        let c0 = CLONES.load(std::sync::atomic::Ordering::SeqCst);
        let r = tracked(|| catch(|| P::clone_tree(tr).map(|t| untracked(|| Box::new(t)))));
        let c1 = CLONES.load(std::sync::atomic::Ordering::SeqCst);
        self.count("clone");
        match r {
            Ok(Some(t2)) => {
                let model = self.slots[t].model.clone();
                self.slots.push(Slot { tree: Some(t2), model, borrows: 0, dropped: false, objs: vec![], paths: vec![] });
                let k = self.slots.len() - 1;
                if self.cfg.share { self.slots[k].objs = self.slots[t].objs.clone() }
                if P::NAME == "cow" && c1 != c0 { self.bad("cloning copied slices") }
                self.ev(|l| { let _ = write!(l, "\"op\":\"clone\",\"t\":{t},\"t2\":{k},\"out\":\"ok\",\"copies\":{}", c1 - c0); });
                self.obs(k);
            }
            _ => { self.bad("clone failed"); self.ev(|l| { let _ = write!(l, "\"op\":\"clone\",\"t\":{t},\"t2\":-1,\"out\":\"panic\",\"copies\":0"); }); }
        }
    }

    fn do_drop(&mut self, t: usize) {
        let tr = self.slots[t].tree.take().unwrap();
        let ask = self.slots[t].borrows == 0 && self.probe_on();
        let r = catch(|| { let b = *tr; tracked(|| drop(b)) });
        if ask { self.probe_off(t, "end") }
        self.slots[t].dropped = true;
        self.count("drop");
        if let Err(e) = &r { self.bad(format!("drop panicked: {e}")) }
        self.ev(|l| { let _ = write!(l, "\"op\":\"drop\",\"t\":{t},\"out\":\"{}\"", if r.is_ok() { "ok" } else { "panic" }); });
        self.acct();
    }

    fn new_tree(&mut self) {
        let d = if self.r.chance(50) {
            self.src += 1;
            Some(D { k: SOLO, s: 10 + self.src, lo: I::ZERO, len: I::rand_size(&mut self.r) })
        } else { None };
        self.new_tree_of(d);
    }
    fn new_tree_of(&mut self, d: Option<D<I>>) {
        let k = self.slots.len();
        if let Some(d) = d {
            let sl = Sl::new(d);
            let r = tracked(|| catch(|| RleTree::new(sl, d.len)));
            match r {
                Ok(t) => {
                    let mut model = Model::new();
                    model.insert(I::ZERO, d, J);
                    self.slots.push(Slot { tree: Some(Box::new(t)), model, borrows: 0, dropped: false, objs: vec![], paths: vec![] });
                    self.ev(|l| { let _ = write!(l, "\"op\":\"new\",\"t\":{k},\"new\":{},\"out\":\"ok\"", d.j()); });
                }
                Err(_) => { self.bad("new panicked"); self.ev(|l| { let _ = write!(l, "\"op\":\"new\",\"t\":{k},\"new\":{},\"out\":\"panic\"", d.j()); }); }
            }
        } else {
            self.slots.push(Slot { tree: Some(Box::new(RleTree::new_empty())), model: Model::new(), borrows: 0, dropped: false, objs: vec![], paths: vec![] });
            self.ev(|l| { let _ = write!(l, "\"op\":\"new_empty\",\"t\":{k},\"out\":\"ok\""); });
        }
    }

    fn do_bad(&mut self, t: usize) {
        let size = self.slots[t].model.size();
        let far = size.above(&mut self.r);
        let neg = I::neg(&mut self.r);
        let which = self.r.below(16);
        if which == 15 { return self.do_width() }
        self.src += 1;
        let d = D { k: SOLO, s: 10 + self.src, lo: I::ZERO, len: I::rand_size(&mut self.r) };
        let hint = if self.r.chance(50) { Some(self.hint(t, size)) } else { None };
        let tr = self.slots[t].tree.as_mut().unwrap();
        let (kind, i, z, r): (&str, I, I, Result<(), String>) = match which {
            0 => ("get", size, I::ZERO, tracked(|| catch(|| { let _ = tr.get(size); }))),
            1 => ("get", far, I::ZERO, tracked(|| catch(|| { let _ = match hint { Some(h) => tr.get_with_cursor(h, far), None => tr.get(far) }; }))),
            2 => ("cursor_to", size, I::ZERO, tracked(|| catch(|| { let _ = tr.cursor_to::<PathCur>(size); }))),
            3 => { let s = Sl::new(d); ("insert", far, d.len, tracked(|| catch(|| match hint { Some(h) => { let _ = tr.insert_with_cursor(h, far, s, d.len); } None => tr.insert(far, s, d.len) }))) }
            4 => { let s = Sl::new(d); ("insert", I::ZERO, I::ZERO, tracked(|| catch(|| tr.insert(I::ZERO, s, I::ZERO)))) }
            5 => { let s = Sl::new(d); ("new", I::ZERO, I::ZERO, tracked(|| catch(|| { let _ = Tree::<I, J, P, M>::new(s, I::ZERO); }))) }
            6 if neg.is_some() => { let n = neg.unwrap(); ("get", n, I::ZERO, tracked(|| catch(|| { let _ = tr.get(n); }))) }
            7 if neg.is_some() => { let n = neg.unwrap(); let s = Sl::new(d); ("insert", I::ZERO, n, tracked(|| catch(|| tr.insert(I::ZERO, s, n)))) }
            8 if neg.is_some() => { let n = neg.unwrap(); let s = Sl::new(d); ("insert", n, d.len, tracked(|| catch(|| tr.insert(n, s, d.len)))) }
            9 if neg.is_some() => { let n = neg.unwrap(); ("cursor_to", n, I::ZERO, tracked(|| catch(|| { let _ = tr.cursor_to::<PathCur>(n); }))) }
            10 if neg.is_some() => { let n = neg.unwrap(); ("cursor_to", n, I::ZERO, tracked(|| catch(|| { let _ = tr.cursor_to::<BoundedCursor>(n); }))) }
            11 => ("cursor_to", far, I::ZERO, tracked(|| catch(|| { let _ = tr.cursor_to::<BoundedCursor>(far); }))),
            12 => { let n = neg.unwrap_or(far); let h = hint.unwrap_or_else(|| PathCur::of(&[])); ("get", n, I::ZERO, tracked(|| catch(|| { let _ = tr.get_with_cursor(h, n); }))) }
            13 => { let n = neg.unwrap_or(far); let h = hint.unwrap_or_else(|| PathCur::of(&[])); let s = Sl::new(d); ("insert", n, d.len, tracked(|| catch(|| { let _ = tr.insert_with_cursor(h, n, s, d.len); }))) }
            14 => { let n = neg.unwrap_or(far); let s = Sl::new(d); ("insert", n, d.len, tracked(|| catch(|| { if P::NAME == "refs" { let _ = P::insert_ref(tr, hint, n, s, d.len); } else { tr.insert(n, s, d.len) } }))) }
            _ => { let s = Sl::new(d); ("insert", size, I::ZERO, tracked(|| catch(|| { if P::NAME == "refs" { let _ = P::insert_ref(tr, None, size, s, I::ZERO); } else { tr.insert(size, s, I::ZERO) } }))) }
        };
        self.count("bad");
        if r.is_ok() { self.bad(format!("bad {kind} accepted")) }
        self.ev(|l| { let _ = write!(l, "\"op\":\"bad\",\"t\":{t},\"kind\":\"{kind}\",\"i\":{},\"z\":{},\"out\":\"{}\"", i.j(), z.j(), if r.is_ok() { "ok" } else { "panic" }); });
        self.obs(t);
        self.acct();
    }

    /// a tree whose nodes have a width they cannot have, or can just have
    fn do_width(&mut self) {
        let w = [0usize, 1, 127, 128, 129, 200, 255, 256, 1000][self.r.below(9) as usize];
        let how = self.r.below(3);
        let r = untracked(|| catch(|| crate::width::make(w, how)));
        self.count("width");
        if r.is_ok() != (1..=127).contains(&w) { self.bad(format!("width {w}: {r:?}")) }
        self.ev(|l| { let _ = write!(l, "\"op\":\"width\",\"w\":{w},\"how\":{how},\"out\":\"{}\"", match &r { Ok(true) => "ok", Ok(false) => "wrong", Err(_) => "panic" }); });
    }

    fn live_refs(&self) -> Vec<usize> { (0..self.refs.len()).filter(|&i| self.refs[i].is_some()).collect() }

    fn query_ref(&mut self, k: usize) {
        let (t, id) = { let s = self.refs[k].as_ref().unwrap(); (s.tree, s.id) };
        let r: *const P::Ref = &*self.refs[k].as_ref().unwrap().r;
        let r = unsafe { &*r };
        let o0 = ops();
        let res = tracked(|| catch(|| {
            let v = P::r_valid(r);
            let c = P::r_can(r);
            let rg = P::r_range(r);
            let cu = P::r_cursor(r).map(|c| untracked(|| c.idx()));
            let b = P::r_borrow(r);
            let d = b.as_ref().map(|b| P::b_get(b).look());
            drop(b);
            (v, c, rg, cu, d)
        }));
        let cost = ops() - o0;
        // the panicking forms must panic exactly when the fallible ones give nothing
        let pan = (tracked(|| catch(|| P::r_range_p(r))).is_err(), tracked(|| catch(|| P::r_cursor_p(r))).is_err(), tracked(|| catch(|| drop(P::r_borrow_p(r)))).is_err());
        self.count("qref");
        let n = self.slots[t].model.runs.len();
        if cost > reach_cost(n, M) { self.bad(format!("reference: {cost} operations on indexes with {n} runs of width {M}")) }
        let slot = &self.slots[t];
        let gone = slot.dropped && slot.borrows == 0;
        let exp = if gone { None } else { slot.model.find(id) };
        match &res {
            Ok((v, c, rg, cu, d)) => {
                let good = match exp {
                    None => !v && !c && rg.is_none() && cu.is_none() && d.is_none() && pan == (true, true, true),
                    Some((x, s)) => {
                        let run = slot.model.runs[x].d;
                        *v && *c && *rg == Some(s..s.add_right(run.len)) && *d == Some(run) && cu.is_some() && pan == (false, false, false)
                            && (slot.tree.is_none() || catch(|| slot.tree.as_ref().unwrap().cursor_to::<PathCur>(s).idx()).ok() == *cu)
                    }
                };
                if !good { self.bad(format!("reference {k} differs: {:?} {:?}", res.as_ref().ok().map(|r| (r.0, r.1, r.2.clone(), r.4)), exp.map(|e| e.0))) }
            }
            Err(e) => self.bad(format!("querying a reference panicked: {e}")),
        }
        self.ev(|l| {
            let _ = write!(l, "\"op\":\"qref\",\"r\":{k},\"pan\":[{},{},{}]", pan.0, pan.1, pan.2);
            match &res {
                Ok((v, c, rg, cu, d)) => { let _ = write!(l, ",\"out\":\"ok\",\"valid\":{v},\"can\":{c},\"range\":{},\"path\":{},\"val\":{}",
                    rg.as_ref().map_or("[]".into(), |r| format!("[{},{}]", r.start.j(), r.end.j())),
                    cu.as_ref().map_or("[-1]".into(), |c| jp(c)),
                    d.as_ref().map_or("[]".into(), |d| d.j())); }
                Err(_) => l.push_str(",\"out\":\"panic\""),
            }
            if I::NAME == "Cn" { let _ = write!(l, ",\"cost\":{cost}"); }
        });
    }

    /// from now on, user code asks some references
    fn probe_on(&mut self) -> bool {
        if P::NAME != "refs" || self.cfg.inside == 0 || !self.r.chance(self.cfg.inside) { return false }
        let rs: Vec<(usize, *const P::Ref)> = self.live_refs().into_iter().map(|k| (k, &*self.refs[k].as_ref().unwrap().r as *const _)).collect();
        if rs.is_empty() { return false }
        let mut n = self.r.below(64) as usize;
        ASKED.with(|a| a.borrow_mut().clear());
        probe_set(Some(Box::new(move || {
            for _ in 0..2 {
                let (k, r) = rs[n % rs.len()];
                n += 1;
                let r = unsafe { &*r };
                let a = tracked(|| catch(|| {
                    let c = P::r_clone(r);
                    let v = P::r_valid(r);
                    let b = [v, P::r_can(r), P::r_range(r).is_some(), P::r_cursor(r).is_some(), P::r_borrow(r).is_some()];
                    let v2 = P::r_valid(&c);
                    drop(c);
                    [b[0], b[1], b[2], b[3], b[4], v2]
                }));
                ASKED.with(|s| { let mut s = s.borrow_mut(); if s.len() < 12 || a.is_err() { s.push((k, a.ok())) } });
            }
        })));
        true
    }
    /// records what they answered while tree `t` was being inserted into or its content destroyed
    fn probe_off(&mut self, t: usize, during: &str) {
        probe_set(None);
        let asked = ASKED.with(|a| std::mem::take(&mut *a.borrow_mut()));
        if asked.is_empty() { return }
        self.count("inside");
        for (k, a) in &asked {
            let u = self.refs[*k].as_ref().unwrap().tree;
            let (v, can) = if u == t { (during == "insert", false) } else { let g = !self.slots[u].dropped || self.slots[u].borrows > 0; (g, g) };
            if *a != Some([v, can, can, can, can, v]) { self.bad(format!("reference asked during {during}: {a:?}")) }
        }
        self.ev(|l| {
            let q: Vec<String> = asked.iter().map(|(k, a)| match a { Some(a) => format!("[{k},true,{:?}]", a), None => format!("[{k},false,[]]") }).collect();
            let _ = write!(l, "\"op\":\"inside\",\"t\":{t},\"during\":\"{during}\",\"q\":{}", jl(&q));
        });
    }
    /// gives a slice of some tree a reference of its own, which goes when the slice goes
    fn do_link(&mut self, k: usize) {
        let lv = self.live_slots();
        if lv.is_empty() { return }
        let t = lv[self.r.below(lv.len() as u64) as usize];
        let n = self.slots[t].model.runs.len();
        if n == 0 { return }
        let x = self.r.below(n as u64) as usize;
        let tok = match catch(|| self.slots[t].tree.as_ref().unwrap().iter(..).nth(x).map(|e| e.slice().tok())) { Ok(Some(t)) => t, _ => return };
        if linked(tok) { return }
        let r: *const P::Ref = &*self.refs[k].as_ref().unwrap().r;
        let r = match tracked(|| catch(|| P::r_clone(unsafe { &*r }))) { Ok(r) => r, Err(_) => { self.bad("cloning a reference panicked"); return } };
        self.count("link");
        link(tok, Box::new(move || tracked(|| drop(r))));
    }

    fn do_ref(&mut self) {
        let live = self.live_refs();
        if live.is_empty() { return }
        let k = live[self.r.below(live.len() as u64) as usize];
        if self.cfg.inside > 0 && self.r.chance(10) { return self.do_link(k) }
        match self.r.below(10) {
            0 | 1 if live.len() < 14 => { self.clone_ref(k); }
            2 | 3 => self.drop_ref(k),
            _ => self.query_ref(k),
        }
    }
    fn clone_ref(&mut self, k: usize) -> i64 {
                let r: *const P::Ref = &*self.refs[k].as_ref().unwrap().r;
                let n = tracked(|| catch(|| P::r_clone(unsafe { &*r })));
                self.count("cloneref");
                let (t, id) = { let s = self.refs[k].as_ref().unwrap(); (s.tree, s.id) };
                match n {
                    Ok(n) => { let k2 = self.add_ref(n, t, id); self.ev(|l| { let _ = write!(l, "\"op\":\"cloneref\",\"r\":{k},\"r2\":{k2},\"out\":\"ok\""); }); k2 as i64 }
                    Err(e) => { self.bad(format!("cloning a reference panicked: {e}")); self.ev(|l| { let _ = write!(l, "\"op\":\"cloneref\",\"r\":{k},\"r2\":-1,\"out\":\"panic\""); }); -1 }
                }
    }
    fn drop_ref(&mut self, k: usize) {
                if self.refs[k].as_ref().unwrap().borrows > 0 { return }
                let s = self.refs[k].take().unwrap();
                let r = catch(|| { let b = *s.r; tracked(|| drop(b)) });
                self.count("dropref");
                if r.is_err() { self.bad("dropping a reference panicked") }
                self.ev(|l| { let _ = write!(l, "\"op\":\"dropref\",\"r\":{k},\"out\":\"{}\"", if r.is_ok() { "ok" } else { "panic" }); });
    }
    /// the number of the borrow, or -1
    fn borrow(&mut self, k: usize) -> i64 {
            let r: *const P::Ref = &*self.refs[k].as_ref().unwrap().r;
            let b = tracked(|| catch(|| P::r_borrow(unsafe { &*r })));
            self.count("borrow");
            let t = self.refs[k].as_ref().unwrap().tree;
            let gone = self.slots[t].dropped && self.slots[t].borrows == 0;
            let got = matches!(&b, Ok(Some(_)));
            if b.is_err() || got == gone { self.bad("borrowing differs") }
            let panicked = b.is_err();
            let mut bi = -1;
            if let Ok(Some(b)) = b {
                self.bors.push(Some(BorSlot { b, rf: k, _m: Default::default() }));
                bi = self.bors.len() as i64 - 1;
                self.refs[k].as_mut().unwrap().borrows += 1;
                self.slots[t].borrows += 1;
            }
            self.ev(|l| { let _ = write!(l, "\"op\":\"borrow\",\"r\":{k},\"b\":{bi},\"out\":\"{}\"", if panicked { "panic" } else if got { "ok" } else { "none" }); });
            bi
    }
    fn read_bor(&mut self, b: usize) {
                let rf = self.bors[b].as_ref().unwrap().rf;
                let t = self.refs[rf].as_ref().unwrap().tree;
                let r = catch(|| P::b_get(&self.bors[b].as_ref().unwrap().b).look());
                self.count("readbor");
                let exp = self.slots[t].model.find(self.refs[rf].as_ref().unwrap().id).map(|(x, _)| self.slots[t].model.runs[x].d);
                if r.as_ref().ok() != exp.as_ref() { self.bad("borrowed value differs") }
                self.ev(|l| { let _ = write!(l, "\"op\":\"readbor\",\"b\":{b},\"val\":{}", r.map_or("[]".into(), |d| d.j())); });
    }
    fn clone_bor(&mut self, b: usize) -> i64 {
                let rf = self.bors[b].as_ref().unwrap().rf;
                let t = self.refs[rf].as_ref().unwrap().tree;
                let x = tracked(|| catch(|| P::b_clone(&self.bors[b].as_ref().unwrap().b)));
                self.count("clonebor");
                match x {
                    Ok(nb) => {
                        self.bors.push(Some(BorSlot { b: nb, rf, _m: Default::default() }));
                        self.refs[rf].as_mut().unwrap().borrows += 1;
                        self.slots[t].borrows += 1;
                        let k = self.bors.len() - 1;
                        self.ev(|l| { let _ = write!(l, "\"op\":\"clonebor\",\"b\":{b},\"b2\":{k},\"out\":\"ok\""); });
                        k as i64
                    }
                    Err(_) => { self.bad("cloning a borrow panicked"); self.ev(|l| { let _ = write!(l, "\"op\":\"clonebor\",\"b\":{b},\"b2\":-1,\"out\":\"panic\""); }); -1 }
                }
    }

    fn do_bor(&mut self) {
        let live: Vec<usize> = (0..self.bors.len()).filter(|&i| self.bors[i].is_some()).collect();
        let what = self.r.below(6);
        if live.is_empty() || what < 2 {
            let refs = self.live_refs();
            if refs.is_empty() || live.len() > 5 { return }
            let k = refs[self.r.below(refs.len() as u64) as usize];
            self.borrow(k);
            return;
        }
        let b = live[self.r.below(live.len() as u64) as usize];
        let rf = self.bors[b].as_ref().unwrap().rf;
        match what {
            2 => self.read_bor(b),
            3 => { self.clone_bor(b); }
            4 => { // map (identity): the borrow is replaced
                let s = self.bors[b].take().unwrap();
                let x = tracked(|| catch(|| P::b_map(s.b)));
                self.count("mapbor");
                match x {
                    Ok(nb) => { self.bors[b] = Some(BorSlot { b: nb, rf, _m: Default::default() }); self.ev(|l| { let _ = write!(l, "\"op\":\"mapbor\",\"b\":{b},\"out\":\"ok\""); }); }
                    Err(_) => { self.bad("mapping a borrow panicked"); self.ev(|l| { let _ = write!(l, "\"op\":\"mapbor\",\"b\":{b},\"out\":\"panic\""); }); }
                }
            }
            _ => self.drop_bor(b),
        }
    }

    fn drop_bor(&mut self, b: usize) {
        let s = self.bors[b].take().unwrap();
        let rf = s.rf;
        let t = self.refs[rf].as_ref().unwrap().tree;
        let ask = self.slots[t].dropped && self.slots[t].borrows == 1 && self.probe_on();
        let r = tracked(|| catch(|| drop(s.b)));
        if ask { self.probe_off(t, "end") }
        self.count("dropbor");
        self.refs[rf].as_mut().unwrap().borrows -= 1;
        self.slots[t].borrows -= 1;
        if r.is_err() { self.bad("dropping a borrow panicked") }
        self.ev(|l| { let _ = write!(l, "\"op\":\"dropbor\",\"b\":{b},\"out\":\"{}\"", if r.is_ok() { "ok" } else { "panic" }); });
        self.acct();
    }

    /// bounded cursors of several capacities built from the true path
    fn do_cur(&mut self, t: usize) {
        let Some(i) = self.pick_idx(t) else { return };
        let tr = self.slots[t].tree.as_ref().unwrap();
        let r = catch(|| {
            fn b<const L: usize>(c: BoundedCursor<L>) -> (usize, Vec<i64>) { (L, c.into_path().take(300).map(|c| comp_idx(&c)).collect()) }
            // the same by hand: a cursor that someone wraps into their own is given every component
            fn h<const L: usize>(cs: &[PathComponent]) -> (usize, Vec<i64>) { let mut c = BoundedCursor::<L>::new_empty(); for x in cs.iter().rev() { c.prepend_to_path(*x) } b(c) }
            let comps = tr.cursor_to::<PathCur>(i).comps();
            let full = tr.cursor_to::<PathCur>(i).idx();
            let bs = vec![b(tr.cursor_to::<BoundedCursor<0>>(i)), b(tr.cursor_to::<BoundedCursor<1>>(i)), b(tr.cursor_to::<BoundedCursor<2>>(i)), b(tr.cursor_to::<BoundedCursor<3>>(i)),
                b(tr.cursor_to::<BoundedCursor<4>>(i)), b(tr.cursor_to::<BoundedCursor<5>>(i)), b(tr.cursor_to::<BoundedCursor<8>>(i)), b(tr.cursor_to::<BoundedCursor<255>>(i)),
                h::<0>(&comps), h::<1>(&comps), h::<3>(&comps), h::<8>(&comps)];
            (full, bs)
        });
        self.count("cur");
        match &r {
            Ok((f, bs)) => if bs.iter().any(|(l, b)| b[..] != f[..f.len().min(*l)]) { self.bad("bounded cursor differs") },
            Err(_) => self.bad("cursor_to panicked"),
        }
        self.ev(|l| {
            let _ = write!(l, "\"op\":\"cur\",\"t\":{t},\"i\":{}", i.j());
            match &r {
                Ok((f, bs)) => { let v: Vec<String> = bs.iter().map(|(n, b)| format!("[{n},{}]", jp(b))).collect(); let _ = write!(l, ",\"out\":\"ok\",\"path\":{},\"bounded\":{}", jp(f), jl(&v)); }
                Err(_) => l.push_str(",\"out\":\"panic\""),
            }
        });
    }

    fn step(&mut self) {
        let before = self.out.kinds.get("insert").copied().unwrap_or(0) + self.out.kinds.get("clone").copied().unwrap_or(0) + self.out.kinds.get("drop").copied().unwrap_or(0) + self.slots.len();
        self.step1();
        let after = self.out.kinds.get("insert").copied().unwrap_or(0) + self.out.kinds.get("clone").copied().unwrap_or(0) + self.out.kinds.get("drop").copied().unwrap_or(0) + self.slots.len();
        if self.cfg.share && before != after && self.out.suspect.is_none() { self.share() }
    }
    fn step1(&mut self) {
        let lv = self.live_slots();
        let c = self.cfg.clone();
        if lv.is_empty() {
            if c.w_ref > 0 && self.r.chance(70) && self.slots.len() > 0 {
                if self.r.chance(50) { self.do_ref() } else { self.do_bor() }
                return;
            }
            self.new_tree();
            return;
        }
        let t = lv[self.r.below(lv.len() as u64) as usize];
        let tot = c.w_insert + c.w_get + c.w_iter + c.w_clone + c.w_drop + c.w_bad + c.w_ref + c.w_bor + c.w_cur;
        let mut x = self.r.below(tot);
        macro_rules! w { ($w:expr, $e:expr) => { if x < $w { $e; return } x -= $w; } }
        w!(c.w_insert, {
            let n = self.slots[t].model.runs.len();
            self.do_insert(t);
            if n < 40 || self.cfg.share || self.r.below(1 + n as u64 / 20) == 0 { self.obs_after(t) }
            if self.cfg.acct && n < 60 { self.acct() }
        });
        w!(c.w_get, self.do_get(t));
        w!(c.w_iter, self.do_iter(t));
        w!(c.w_clone, self.do_clone(t));
        w!(c.w_drop, { self.do_drop(t); if self.cfg.all { for s in self.live_slots() { self.obs(s) } } });
        w!(c.w_bad, self.do_bad(t));
        w!(c.w_ref, self.do_ref());
        w!(c.w_bor, self.do_bor());
        let _ = x;
        self.do_cur(t);
    }

    fn finish(&mut self) {
        for t in self.live_slots() { self.obs(t); if self.out.suspect.is_some() { return } }
        for k in self.live_refs() { self.query_ref(k); if self.out.suspect.is_some() { return } }
        self.acct();
        if self.out.suspect.is_some() { return }
        // tear down in random order, respecting only what safe code must
        loop {
            let ts = self.live_slots();
            let bs: Vec<usize> = (0..self.bors.len()).filter(|&i| self.bors[i].is_some()).collect();
            let rs: Vec<usize> = self.live_refs().into_iter().filter(|&k| self.refs[k].as_ref().unwrap().borrows == 0).collect();
            let tot = ts.len() + bs.len() + rs.len();
            if tot == 0 { break }
            let x = self.r.below(tot as u64) as usize;
            if x < ts.len() { self.do_drop(ts[x]) }
            else if x < ts.len() + bs.len() { self.drop_bor(bs[x - ts.len()]) }
            else {
                let k = rs[x - ts.len() - bs.len()];
                if self.r.chance(40) { self.query_ref(k) }
                let s = self.refs[k].take().unwrap();
                let r = catch(|| { let b = *s.r; tracked(|| drop(b)) });
                if r.is_err() { self.bad("dropping a reference panicked") }
                self.ev(|l| { let _ = write!(l, "\"op\":\"dropref\",\"r\":{k},\"out\":\"{}\"", if r.is_ok() { "ok" } else { "panic" }); });
            }
            if self.out.suspect.is_some() { return }
        }
        self.acct();
    }
    /// the end of a history: what is left, or the evidence
    fn close(mut self, b0: isize) -> Out {
        let s = &mut self;
        let f = NFAULTS.load(std::sync::atomic::Ordering::SeqCst);
        let complete = s.out.suspect.is_none();
        if complete {
            let blocks = alloc::blocks() - b0;
            let lv = live() - s.base_live;
            if blocks != 0 || lv != 0 { s.bad(format!("leak: {blocks} blocks, {lv} slices")) }
            s.ev(|l| { let _ = write!(l, "\"op\":\"end\",\"live\":{lv},\"blocks\":{blocks},\"faults\":{f}"); });
        } else if f > 0 {
            s.ev(|l| { let _ = write!(l, "\"op\":\"fault\",\"faults\":{f}"); });
        }
        if s.out.suspect.is_some() {
            // whatever state the trees are in now is not to be touched again
            probe_set(None);
            unlink_none();
            for x in s.slots.drain(..) { if let Some(t) = x.tree { std::mem::forget(t) } }
            for x in s.refs.drain(..) { std::mem::forget(x) }
            for x in s.bors.drain(..) { std::mem::forget(x) }
        }
        std::mem::replace(&mut s.out, Out { lines: String::new(), suspect: None, events: 0, inserts: 0, maxn: 0, maxdepth: 0, ways: (0, 0), kinds: Default::default() })
    }
}

/// (mirrors of `spec/Shape.tla`)
fn max_depth(n: usize, m: usize) -> u64 { let (mut d, mut x) = (0, m as u64 + 1); while 2 * x - 1 <= n as u64 { d += 1; x *= m as u64 + 1 } d }
fn reach_cost(n: usize, m: usize) -> u64 { (max_depth(n, m) + 1) * (4 * m as u64 + 12) }
fn insert_cost(n: usize, m: usize) -> u64 { (max_depth(n, m) + 2) * (6 * m as u64 + 50) }

/// Checks that the paths of all runs, in order, describe one B-tree of width `m` (mirror of
/// `spec/Shape.tla`)
pub fn shape_ok(p: &[Vec<i64>], m: usize) -> Result<(), String> {
    if p.is_empty() { return Ok(()) }
    let d = p.iter().map(|x| x.len()).max().unwrap();
    let mut cnt: std::collections::HashMap<&[i64], usize> = Default::default();
    for x in p { *cnt.entry(&x[..]).or_insert(0) += 1 }
    for (k, c) in &cnt {
        if *c > 2 * m || (!k.is_empty() && *c < m) { return Err(format!("node {k:?} holds {c} of {m}..{}", 2 * m)) }
    }
    if p[0].len() != d || p[0].iter().any(|&x| x != 0) { return Err("first run is not in the left-most leaf".into()) }
    let mut leaf = &p[0];
    for w in p.windows(2) {
        let (a, b) = (&w[0], &w[1]);
        let good = if a.len() == d && b.len() == d { a == b }
            else if a.len() == d { a[..b.len()] == b[..] }
            else if b.len() == d {
                let k = a.len();
                b[..k] == a[..] && b[k] == leaf[k] + 1 && b[k + 1..].iter().all(|&x| x == 0)
            } else { false };
        if !good { return Err(format!("{a:?} then {b:?}")) }
        if b.len() == d { leaf = b }
    }
    if p[p.len() - 1].len() != d { return Err("last run is not in a leaf".into()) }
    Ok(())
}

pub fn run<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize>(seed: u64, cfg: &Cfg, emit: bool) -> Out {
    let _ = pool();
    let mut s: Ses<I, P, J, M> = Ses {
        emit, out: Out { lines: String::new(), suspect: None, events: 0, inserts: 0, maxn: 0, maxdepth: 0, ways: (0, 0), kinds: Default::default() },
        r: Rng::new(seed), cfg: cfg.clone(), slots: vec![], refs: vec![], bors: vec![], cursors: vec![], src: 0, hot: -1, base_live: live(), addrs: Default::default(), due: None,
    };
    let _ = take_faults();
    let b0 = alloc::blocks();
    s.ev(|l| { let _ = write!(l, "\"op\":\"reset\",\"par\":\"{}\",\"ix\":\"{}\",\"m\":{M},\"j\":{J},\"seed\":{seed}", P::NAME, I::NAME); });
    s.new_tree();
    for _ in 0..cfg.prefill {
        if s.out.suspect.is_some() { break }
        let lv = s.live_slots();
        if lv.is_empty() { break }
        s.do_insert(lv[0]);
    }
    if s.out.suspect.is_none() && cfg.prefill > 0 { s.obs(0) }
    s.due = None;
    if s.cfg.share && s.out.suspect.is_none() { s.share() }
    for _ in 0..cfg.ops {
        s.step();
        if s.cfg.qall && s.out.suspect.is_none() { for k in s.live_refs() { s.query_ref(k) } }
        if s.out.suspect.is_some() { break }
        if NFAULTS.load(std::sync::atomic::Ordering::SeqCst) > 0 { s.bad("fault"); break }
    }
    if s.out.suspect.is_none() { s.finish() }
    s.close(b0)
}

use serde_json::Value as V;
fn num(v: &V) -> i64 { v.as_i64().unwrap() }
fn datum<I: Ix>(v: &V) -> D<I> { D { len: I::of(num(&v[0])), k: num(&v[1]) as u8, s: num(&v[2]) as u32, lo: I::of(num(&v[3])) } }

/// A behaviour of the specification (`spec/Gen.tla`): the calls `h` are made, and what the trees,
/// references and borrows then show is compared with `x`, which TLC worked out. `deep`: besides,
/// every index is looked up and iterations are made.
pub fn replay<I: Ix, P: Par<I, J, M>, const J: bool, const M: usize>(line: &V, seed: u64, emit: bool) -> Out {
    let _ = pool();
    let cfg = Cfg { max_trees: 99, ..Default::default() };
    let mut s: Ses<I, P, J, M> = Ses {
        emit, out: Out { lines: String::new(), suspect: None, events: 0, inserts: 0, maxn: 0, maxdepth: 0, ways: (0, 0), kinds: Default::default() },
        r: Rng::new(seed), cfg, slots: vec![], refs: vec![], bors: vec![], cursors: vec![], src: 0, hot: -1, base_live: live(), addrs: Default::default(), due: None,
    };
    let _ = take_faults();
    let b0 = alloc::blocks();
    s.ev(|l| { let _ = write!(l, "\"op\":\"reset\",\"par\":\"{}\",\"ix\":\"{}\",\"m\":{M},\"j\":{J},\"seed\":{seed}", P::NAME, I::NAME); });
    type Map = std::collections::HashMap<i64, usize>;
    let (mut ts, mut rs, mut bs): (Map, Map, Map) = Default::default();
    let refs = P::NAME == "refs";
    let calls = line["h"].as_array().unwrap();
    for (n, c) in calls.iter().enumerate() {
        let a = |k: usize| num(&c[k]);
        match c[0].as_str().unwrap() {
            "new" => { s.new_tree_of(Some(datum(&c[2]))); ts.insert(a(1), s.slots.len() - 1); }
            "new_empty" => { s.new_tree_of(None); ts.insert(a(1), s.slots.len() - 1); }
            "insert" => {
                let r = s.insert_at(ts[&a(1)], I::of(a(2)), datum(&c[3]), refs && a(4) >= 0);
                if r >= 0 { rs.insert(a(4), r as usize); }
            }
            "clone" => { s.do_clone(ts[&a(1)]); ts.insert(a(2), s.slots.len() - 1); }
            "drop" => s.do_drop(ts[&a(1)]),
            "make_ref" if refs => { let r = s.get_at(ts[&a(1)], I::of(a(2)), true); if r >= 0 { rs.insert(a(3), r as usize); } }
            "clone_ref" if refs => { let r = s.clone_ref(rs[&a(1)]); if r >= 0 { rs.insert(a(2), r as usize); } }
            "drop_ref" if refs => { s.drop_ref(rs[&a(1)]); rs.remove(&a(1)); }
            "borrow" if refs => { let b = s.borrow(rs[&a(1)]); if b >= 0 { bs.insert(a(2), b as usize); } }
            "clone_bor" if refs => { let b = s.clone_bor(bs[&a(1)]); if b >= 0 { bs.insert(a(2), b as usize); } }
            "drop_bor" if refs => { s.drop_bor(bs[&a(1)]); bs.remove(&a(1)); }
            o => panic!("unknown call {o}"),
        }
        if s.out.suspect.is_some() { break }
        if NFAULTS.load(std::sync::atomic::Ordering::SeqCst) > 0 { s.bad("fault"); break }
        if n + 1 < calls.len() { continue }
        // what TLC expects
        let x = &line["x"];
        for e in x["trees"].as_array().unwrap() {
            let t = ts[&num(&e[0])];
            s.obs(t);
            let want: Vec<(I, I, I, D<I>)> = e[1].as_array().unwrap().iter().map(|v| (I::of(num(&v[0])), I::of(num(&v[1])), I::of(num(&v[2])), datum(&v[3]))).collect();
            match s.read(t) { Ok(got) if got == want => (), _ => s.bad("content differs from the specification") }
            // is the tree built as the model builds it? only counted: there are other ways to keep the widths
            if line["m"].as_u64() == Some(M as u64) {
                let ways: Vec<Vec<i64>> = line["ways"].as_array().unwrap().iter().map(|w| w.as_array().unwrap().iter().map(num).collect()).collect();
                let tr = s.slots[t].tree.as_ref().unwrap();
                let got: Vec<Vec<i64>> = want.iter().map(|w| catch(|| tr.cursor_to::<PathCur>(w.0)).map(|c| c.idx()).unwrap_or_default()).collect();
                s.out.ways.0 += 1;
                if got == ways { s.out.ways.1 += 1 }
            }
            if let Some(w) = want.last() {
                let size = w.1.n();
                for i in 0..size { s.get_at(t, I::of(i), false); if s.out.suspect.is_some() { break } }
                if s.out.suspect.is_none() { s.do_cur(t) }
            }
            for _ in 0..2 { if s.out.suspect.is_none() { s.do_iter(t) } }
            if s.out.suspect.is_some() { break }
        }
        if !refs { continue }
        for e in x["refs"].as_array().unwrap() {
            if s.out.suspect.is_some() { break }
            let k = rs[&num(&e[0])];
            s.query_ref(k);
            let r: *const P::Ref = &*s.refs[k].as_ref().unwrap().r;
            let got = tracked(|| catch(|| P::r_range(unsafe { &*r }).map(|g| (g.start, g.end))));
            let want = if e[1].as_array().unwrap().is_empty() { None } else { Some((I::of(num(&e[1][0])), I::of(num(&e[1][1])))) };
            if got.ok() != Some(want) { s.bad("a reference differs from the specification") }
        }
        for e in x["bors"].as_array().unwrap() {
            if s.out.suspect.is_some() { break }
            let b = bs[&num(&e[0])];
            s.read_bor(b);
            match catch(|| P::b_get(&s.bors[b].as_ref().unwrap().b).look()) { Ok(d) if d == datum(&e[1]) => (), _ => s.bad("a borrow differs from the specification") }
        }
    }
    if s.out.suspect.is_none() { s.finish() }
    s.close(b0)
}
