//! Executable mirror of `spec/RunSeq.tla`, used to steer the drivers and to pick suspicious traces
//! quickly. It never decides anything: every suspicious trace goes to TLC, which does.
use crate::ix::Ix;
use crate::sl::D;
use sherman::range::{EndBound, StartBound};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Run<I> { pub d: D<I>, pub id: u32 }

#[derive(Clone, Debug)]
pub struct Model<I> { pub runs: Vec<Run<I>>, pub next_id: u32 }

pub struct Effect<I> { pub splits: Vec<(D<I>, I)>, pub joins: Vec<(D<I>, D<I>, bool)>, pub at: usize, pub gone: Option<u32> }

impl<I: Ix> Model<I> {
    pub fn new() -> Self { Model { runs: Vec::new(), next_id: 1 } }
    pub fn size(&self) -> I { self.runs.iter().fold(I::ZERO, |a, r| a.add_right(r.d.len)) }
    /// index of the run containing `i` (or the length) and its start
    pub fn locate(&self, i: I) -> (usize, I) {
        let mut s = I::ZERO;
        for (k, r) in self.runs.iter().enumerate() {
            let e = s.add_right(r.d.len);
            if i < e { return (k, s) }
            s = e;
        }
        (self.runs.len(), s)
    }
    /// neighbours of a boundary insertion; `None` if `i` is inside a run
    pub fn edge(&self, i: I) -> Option<(Option<D<I>>, Option<D<I>>)> {
        let (k, s) = self.locate(i);
        if k < self.runs.len() && s < i { return None }
        Some((if k > 0 { Some(self.runs[k - 1].d) } else { None }, self.runs.get(k).map(|r| r.d)))
    }
    pub fn double_join(&self, i: I, d: &D<I>, j: bool) -> bool {
        if !j { return false }
        match self.edge(i) {
            Some((Some(l), Some(r))) => (l.joins(d) && l.join(d).joins(&r)) || (d.joins(&r) && l.joins(&d.join(&r))),
            _ => false,
        }
    }
    pub fn insert(&mut self, i: I, d: D<I>, may_join: bool) -> Effect<I> {
        let (mut k, s) = self.locate(i);
        let mut ef = Effect { splits: vec![], joins: vec![], at: 0, gone: None };
        if k < self.runs.len() && s < i {
            let pos = i.sub_left(s);
            let mut l = self.runs[k];
            ef.splits.push((l.d, pos));
            let r = l.d.split(pos);
            self.runs[k] = l;
            let id = self.fresh();
            self.runs.insert(k + 1, Run { d: r, id });
            k += 1;
        }
        let mut x = d;
        let mut id = None;
        if may_join {
            if k > 0 {
                let l = self.runs[k - 1];
                let ok = l.d.joins(&x);
                ef.joins.push((l.d, x, ok));
                if ok { x = l.d.join(&x); id = Some(l.id); self.runs.remove(k - 1); k -= 1 }
            }
            if k < self.runs.len() {
                let r = self.runs[k];
                let ok = x.joins(&r.d);
                ef.joins.push((x, r.d, ok));
                if ok { x = x.join(&r.d); if id.is_some() { ef.gone = Some(r.id) } id = id.or(Some(r.id)); self.runs.remove(k); }
            }
        }
        let id = match id { Some(i) => i, None => self.fresh() };
        self.runs.insert(k, Run { d: x, id });
        ef.at = k;
        ef
    }
    pub fn fresh(&mut self) -> u32 { let i = self.next_id; self.next_id += 1; i }
    pub fn find(&self, id: u32) -> Option<(usize, I)> {
        let mut s = I::ZERO;
        for (k, r) in self.runs.iter().enumerate() {
            if r.id == id { return Some((k, s)) }
            s = s.add_right(r.d.len);
        }
        None
    }
    /// acceptance of a range, and what a script of steps (true = front) yields: (start, data)
    pub fn iter_script(&self, lo: StartBound<I>, hi: EndBound<I>, script: &[bool]) -> (bool, Vec<Option<(I, D<I>)>>) {
        let (starts, runs, size) = (self.starts(), &self.runs, self.size());
        let start_pos = match lo { StartBound::Unbounded => I::ZERO, StartBound::Included(x) => x };
        let unb = lo == StartBound::Unbounded;
        let ok = match lo { StartBound::Unbounded => true, StartBound::Included(x) => x >= I::ZERO && x < size } && match hi {
            EndBound::Unbounded => true,
            EndBound::Included(x) => x < size && (unb || x >= start_pos),
            EndBound::Excluded(x) => x <= size && (unb || x > start_pos),
        };
        if !ok { return (false, vec![]) }
        let mut f = 0usize;
        let mut b = runs.len();
        while f < b && match lo { StartBound::Unbounded => false, StartBound::Included(x) => starts[f].add_right(runs[f].d.len) <= x } { f += 1 }
        while f < b && match hi { EndBound::Unbounded => false, EndBound::Included(x) => starts[b - 1] > x, EndBound::Excluded(x) => starts[b - 1] >= x } { b -= 1 }
        (true, script.iter().map(|&fw| if f >= b { None } else if fw { f += 1; Some((starts[f - 1], runs[f - 1].d)) } else { b -= 1; Some((starts[b], runs[b].d)) }).collect())
    }
    pub fn starts(&self) -> Vec<I> {
        let mut s = I::ZERO;
        self.runs.iter().map(|r| { let x = s; s = s.add_right(r.d.len); x }).collect()
    }
}
