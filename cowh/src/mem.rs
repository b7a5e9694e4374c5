//! What the threads do to nodes and counts: the record, and a mirror of `spec/CowMem.tla` that picks
//! the executions worth showing to TLC first.
use sherman::verif::Event;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering;

pub const T: usize = 5;
type Vc = [u32; T];
fn join(a: &mut Vc, b: &Vc) { for i in 0..T { a[i] = a[i].max(b[i]) } }

#[derive(Clone, Debug)]
pub enum Item {
    Api(String),
    /// plain accesses: kind (r, w, a = allocation, f = release of memory), node
    Acc(usize, char, usize),
    Load(usize, usize, &'static str, u64),
    Store(usize, usize, &'static str, u64),
    Rmw(usize, usize, &'static str, u64, u64),
    Fence(usize, &'static str),
}

struct Node { live: bool, wr: (usize, u32), al: (usize, u32), rd: Vc, at: Vc, view: Vc, val: Option<u64> }

#[derive(Default)]
pub struct Mem {
    pub items: Vec<Item>,
    nodes: Vec<Node>,
    /// blocks of memory that are nodes: base -> (size, node)
    at: BTreeMap<usize, (usize, usize)>,
    dead: BTreeMap<usize, (usize, usize)>,
    view: [Vc; T], acq: [Vc; T], rel: [Vc; T],
    pub err: Option<String>,
    pub rmws: usize,
    pub atomics: usize,
    recent: HashSet<(usize, char, usize)>,
    last: usize,
}

pub fn ord(o: Ordering) -> &'static str {
    match o { Ordering::Relaxed => "relaxed", Ordering::Acquire => "acquire", Ordering::Release => "release", Ordering::AcqRel => "acqrel", _ => "seqcst" }
}
fn acq(o: &str) -> bool { matches!(o, "acquire" | "acqrel" | "seqcst") }
fn rel(o: &str) -> bool { matches!(o, "release" | "acqrel" | "seqcst") }

impl Mem {
    pub fn new() -> Self {
        let mut m = Mem::default();
        for t in 0..T { m.view[t][t] = 1 }
        m
    }
    fn fail(&mut self, s: String) { if self.err.is_none() { self.err = Some(s) } }
    fn before(&self, t: usize, e: (usize, u32)) -> bool { e.0 == usize::MAX || e.0 == t || self.view[t][e.0] >= e.1 }
    fn all(&self, t: usize, v: &Vc) -> bool { (0..T).all(|u| u == t || self.view[t][u] >= v[u]) }
    fn find(&self, a: usize) -> Option<usize> {
        for m in [&self.at, &self.dead] {
            if let Some((b, (s, n))) = m.range(..=a).next_back() { if a < b + s { return Some(*n) } }
        }
        None
    }
    /// something two threads synchronise through outside of the trees (starting, joining, handing over)
    pub fn channel(&mut self) -> usize {
        let n = self.nodes.len();
        self.nodes.push(Node { live: true, wr: (usize::MAX, 0), al: (usize::MAX, 0), rd: [0; T], at: [0; T], view: [0; T], val: Some(0) });
        n
    }
    pub fn send(&mut self, t: usize, ch: usize) { self.op(t, ch, Item::Store(t, ch, "release", 1)) }
    pub fn recv(&mut self, t: usize, ch: usize) { self.op(t, ch, Item::Load(t, ch, "acquire", 1)) }
    pub fn api(&mut self, l: String) { self.items.push(Item::Api(l)) }

    pub fn event(&mut self, t: usize, e: Event) {
        if self.last != t { self.recent.clear(); self.last = t }
        match e {
            Event::Point => (),
            Event::Alloc(a, s) => {
                let n = self.nodes.len();
                self.at.insert(a, (s, n));
                self.dead.remove(&a);
                let c = self.view[t][t];
                self.nodes.push(Node { live: true, wr: (t, c), al: (t, c), rd: [0; T], at: [0; T], view: [0; T], val: None });
                self.items.push(Item::Acc(t, 'a', n));
            }
            Event::Free(a) => {
                let Some(n) = self.find(a) else { return };
                if let Some(x) = self.at.remove(&a) { self.dead.insert(a, x); }
                let x = &self.nodes[n];
                if !x.live { self.fail("freed twice".into()) }
                else if !self.before(t, x.wr) { self.fail("freed in a race with a write".into()) }
                else if !self.all(t, &x.rd) { self.fail("freed in a race with a read".into()) }
                else if !self.all(t, &x.at) { self.fail("freed in a race with an operation on its count".into()) }
                self.nodes[n].live = false;
                self.items.push(Item::Acc(t, 'f', n));
                self.recent.clear();
            }
            Event::Read(a) => {
                let Some(n) = self.find(a) else { return };
                if self.recent.contains(&(t, 'w', n)) || !self.recent.insert((t, 'r', n)) { return }
                let x = &self.nodes[n];
                if !x.live { self.fail("read of a freed node".into()) }
                else if !self.before(t, x.wr) { self.fail("read races with a write".into()) }
                self.nodes[n].rd[t] = self.view[t][t];
                self.items.push(Item::Acc(t, 'r', n));
            }
            Event::Write(a) => {
                let Some(n) = self.find(a) else { return };
                if !self.recent.insert((t, 'w', n)) { return }
                let x = &self.nodes[n];
                if !x.live { self.fail("write to a freed node".into()) }
                else if !self.before(t, x.wr) { self.fail("write races with a write".into()) }
                else if !self.all(t, &x.rd) { self.fail("write races with a read".into()) }
                let c = self.view[t][t];
                self.nodes[n].wr = (t, c);
                self.nodes[n].rd = [0; T];
                self.items.push(Item::Acc(t, 'w', n));
            }
            Event::Load(a, o, v) => if let Some(n) = self.find(a) { self.op(t, n, Item::Load(t, n, ord(o), v)) },
            Event::Store(a, o, v) => if let Some(n) = self.find(a) { self.op(t, n, Item::Store(t, n, ord(o), v)) },
            Event::Rmw(a, o, v, w) => if let Some(n) = self.find(a) { self.rmws += 1; self.op(t, n, Item::Rmw(t, n, ord(o), v, w)) },
            Event::Fence(o) => {
                let o = ord(o);
                if acq(o) { let a = self.acq[t]; join(&mut self.view[t], &a) }
                if rel(o) { self.rel[t] = self.view[t]; self.view[t][t] += 1 }
                self.items.push(Item::Fence(t, o));
                self.recent.clear();
            }
        }
    }
    fn op(&mut self, t: usize, n: usize, it: Item) {
        self.recent.clear();
        self.atomics += 1;
        let x = &self.nodes[n];
        if !x.live { self.fail("operation on the count of a freed node".into()) }
        else if !self.before(t, x.al) { self.fail("operation on a count races with its creation".into()) }
        self.nodes[n].at[t] = self.view[t][t];
        let (o, old, new) = match &it {
            Item::Load(_, _, o, v) => (*o, Some(*v), *v),
            Item::Store(_, _, o, v) => (*o, None, *v),
            Item::Rmw(_, _, o, v, w) => (*o, Some(*v), *w),
            _ => unreachable!(),
        };
        if let (Some(v), Some(w)) = (old, self.nodes[n].val) { if v != w { self.fail("a count changed behind the harness' back".into()) } }
        self.nodes[n].val = Some(new);
        let msg = self.nodes[n].view;
        if old.is_some() {
            join(&mut self.acq[t], &msg);
            if acq(o) { join(&mut self.view[t], &msg) }
        }
        match &it {
            Item::Load(..) => (),
            Item::Store(..) => { self.nodes[n].view = if rel(o) { self.view[t] } else { self.rel[t] } }
            _ => { let v = if rel(o) { self.view[t] } else { self.rel[t] }; join(&mut self.nodes[n].view, &v) }
        }
        if rel(o) && !matches!(it, Item::Load(..)) { self.view[t][t] += 1 }
        self.items.push(it);
    }

    /// The trace. A node comes into being with the count first seen there.
    pub fn lines(&self) -> (String, usize) {
        use std::fmt::Write;
        let mut first: BTreeMap<usize, u64> = BTreeMap::new();
        for i in &self.items {
            match i { Item::Load(_, n, _, v) | Item::Rmw(_, n, _, v, _) => { first.entry(*n).or_insert(*v); } Item::Store(_, n, _, _) => { first.entry(*n).or_insert(0); } _ => () }
        }
        let mut s = String::new();
        let mut k = 0;
        let mut n = 0;
        while k < self.items.len() {
            n += 1;
            match &self.items[k] {
                Item::Api(l) => { s.push_str(l); s.push('\n'); if l.contains("\"op\":\"reset\"") {
                    // channels
                    let chans: Vec<String> = self.nodes.iter().enumerate().filter(|(_, x)| x.al.0 == usize::MAX).map(|(i, _)| i.to_string()).collect();
                    let _ = writeln!(s, "{{\"op\":\"chans\",\"n\":[{}],\"threads\":{T},\"mem\":{}}}", chans.join(","), self.rmws > 0);
                    n += 1;
                } }
                Item::Acc(t, ..) => {
                    let _ = write!(s, "{{\"op\":\"acc\",\"t\":{t},\"a\":[");
                    let mut c = "";
                    while let Some(Item::Acc(u, kind, node)) = self.items.get(k) {
                        if u != t { break }
                        let _ = write!(s, "{c}[\"{kind}\",{node},{}]", first.get(node).copied().unwrap_or(1));
                        c = ",";
                        k += 1;
                    }
                    s.push_str("]}\n");
                    continue;
                }
                Item::Load(t, x, o, v) => { let _ = writeln!(s, "{{\"op\":\"load\",\"t\":{t},\"n\":{x},\"o\":\"{o}\",\"v\":{v}}}"); }
                Item::Store(t, x, o, v) => { let _ = writeln!(s, "{{\"op\":\"store\",\"t\":{t},\"n\":{x},\"o\":\"{o}\",\"v\":{v}}}"); }
                Item::Rmw(t, x, o, v, w) => { let _ = writeln!(s, "{{\"op\":\"rmw\",\"t\":{t},\"n\":{x},\"o\":\"{o}\",\"v\":{v},\"w\":{w}}}"); }
                Item::Fence(t, o) => { let _ = writeln!(s, "{{\"op\":\"fence\",\"t\":{t},\"o\":\"{o}\"}}"); }
            }
            k += 1;
        }
        (s, n)
    }
}
