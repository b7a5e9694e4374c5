//! Clone-on-write trees in the hands of several threads (C11)
#![allow(dead_code)]
#[path = "../../harness/src/alloc.rs"]
mod alloc;
#[path = "../../harness/src/ix.rs"]
mod ix;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/rt.rs"]
mod rt;
#[path = "../../harness/src/sl.rs"]
mod sl;
mod mem;
mod sched;

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;

use alloc::tracked;
use ix::Ix;
use model::Model;
use rt::*;
use sched::{point, with, Policy};
use sherman::param::AllowCow;
use sherman::RleTree;
use sl::{Sl, CONST, D, SOLO, SPAN};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type I = u32;
type Tree<const M: usize> = RleTree<I, Sl<I, true>, AllowCow, M>;
struct Own<const M: usize> { t: usize, tree: Tree<M>, model: Model<I> }

pub struct Out { lines: String, suspect: Option<String>, events: usize, steps: usize, ran: Vec<usize>, atomics: usize, kinds: BTreeMap<&'static str, usize> }

#[derive(Default)]
struct Shared { suspect: Option<String>, kinds: BTreeMap<&'static str, usize> }
static SH: Mutex<Shared> = Mutex::new(Shared { suspect: None, kinds: BTreeMap::new() });
fn bad(s: impl Into<String>) { let mut x = SH.lock().unwrap_or_else(|e| e.into_inner()); if x.suspect.is_none() { x.suspect = Some(s.into()) } }
fn count(k: &'static str) { *SH.lock().unwrap_or_else(|e| e.into_inner()).kinds.entry(k).or_insert(0) += 1 }
fn is_bad() -> bool { SH.lock().unwrap_or_else(|e| e.into_inner()).suspect.is_some() || NFAULTS.load(SeqCst) > 0 }
fn api(f: impl FnOnce(&mut String)) { let mut l = String::from("{"); f(&mut l); l.push('}'); with(|s| s.mem.api(l)) }
fn jl(v: &[String]) -> String { format!("[{}]", v.join(",")) }
static NEXT_TREE: AtomicUsize = AtomicUsize::new(0);

fn slice(r: &mut Rng, m: &Model<I>, i: I) -> D<I> {
    let len = I::of(1 + r.below(3) as i64);
    let (k, _) = m.locate(i);
    match r.below(4) {
        0 => D { k: CONST, s: r.below(3) as u32, lo: 0, len },
        1 if k > 0 && m.runs[k - 1].d.k == SPAN => { let d = m.runs[k - 1].d; D { k: SPAN, s: d.s, lo: d.lo + d.len, len } }
        1 => D { k: SPAN, s: r.below(1000) as u32, lo: 0, len },
        _ => D { k: SOLO, s: 100 + r.below(10000) as u32, lo: 0, len },
    }
}
fn pos(r: &mut Rng, m: &Model<I>) -> I {
    let n = m.runs.len() as u64;
    if n == 0 { return 0 }
    let k = r.below(n) as usize;
    let start = m.runs[..k].iter().fold(0, |a, x| a + x.d.len);
    match r.below(4) { 0 => start, 1 => m.size(), _ => m.runs[k].d.len.inside(r).map_or(start, |p| start + p) }
}
fn insert<const M: usize>(o: &mut Own<M>, r: &mut Rng) {
    for _ in 0..6 {
        let i = pos(r, &o.model);
        let d = slice(r, &o.model, i);
        if o.model.double_join(i, &d, true) { continue }
        let sl = Sl::new(d);
        log_start();
        let res = tracked(|| catch(|| o.tree.insert(i, sl, d.len)));
        let calls = log_stop();
        count("insert");
        if let Err(e) = &res { bad(format!("insert panicked: {e}")) }
        o.model.insert(i, d, true);
        let (size, n) = (o.tree.size(), o.tree.number_of_slices());
        api(|l| {
            let sp: Vec<String> = calls.iter().filter_map(|c| match c { Call::Split(a, p) => Some(format!("[{a},{p}]")), _ => None }).collect();
            let jn: Vec<String> = calls.iter().filter_map(|c| match c { Call::Join(a, b, o) => Some(format!("[{a},{b},{o}]")), _ => None }).collect();
            let _ = write!(l, "\"op\":\"insert\",\"t\":{},\"i\":{},\"new\":{},\"ref\":-1,\"out\":\"{}\",\"sp\":{},\"jn\":{},\"size\":{},\"n\":{n},\"copies\":0,\"path\":[-1]",
                o.t, i.j(), d.j(), if res.is_ok() { "ok" } else { "panic" }, jl(&sp), jl(&jn), size.j());
        });
        return;
    }
}
fn obs<const M: usize>(t: usize, tree: &Tree<M>, model: &Model<I>) {
    let lim = model.runs.len() + 8;
    let runs = catch(|| tree.iter(..).take(lim).map(|e| (e.range().start, e.range().end, e.size(), e.slice().look())).collect::<Vec<_>>());
    count("obs");
    let (size, n) = (tree.size(), tree.number_of_slices());
    match runs {
        Err(e) => { bad(format!("reading panicked: {e}")); api(|l| { let _ = write!(l, "\"op\":\"obs\",\"t\":{t},\"out\":\"panic\""); }) }
        Ok(runs) => {
            if runs.len() != model.runs.len() || size != model.size() || runs.iter().zip(&model.runs).any(|(a, b)| a.3 != b.d) { bad("content differs") }
            api(|l| { let _ = write!(l, "\"op\":\"obs\",\"t\":{t},\"out\":\"ok\",\"size\":{},\"n\":{n},\"runs\":{}", size.j(),
                jl(&runs.iter().map(|x| format!("[{},{},{},{}]", x.0.j(), x.1.j(), x.2.j(), x.3.j())).collect::<Vec<_>>())); });
        }
    }
}
fn get<const M: usize>(t: usize, tree: &Tree<M>, model: &Model<I>, r: &mut Rng) {
    let size = model.size();
    if size == 0 { return }
    let i = I::of(r.below(size.n() as u64) as i64);
    let g = catch(|| { let e = tree.get(i); (e.range().start, e.range().end, e.size(), e.slice().look()) });
    count("get");
    let (k, _) = model.locate(i);
    match g {
        Err(e) => { bad(format!("get panicked: {e}")); api(|l| { let _ = write!(l, "\"op\":\"get\",\"t\":{t},\"i\":{},\"out\":\"panic\"", i.j()); }) }
        Ok(x) => {
            if x.3 != model.runs[k].d { bad("get differs") }
            api(|l| { let _ = write!(l, "\"op\":\"get\",\"t\":{t},\"i\":{},\"out\":\"ok\",\"res\":[{},{},{},{}],\"path\":[-1],\"cto\":[-1],\"ref\":-1", i.j(), x.0.j(), x.1.j(), x.2.j(), x.3.j()); });
        }
    }
}
fn clone<const M: usize>(t: usize, tree: &Tree<M>, model: &Model<I>) -> Option<Own<M>> {
    let c0 = CLONES.load(SeqCst);
    let x = tracked(|| catch(|| tree.clone()));
    let _ = c0;
    count("clone");
    let t2 = NEXT_TREE.fetch_add(1, SeqCst);
    match x {
        Ok(n) => { api(|l| { let _ = write!(l, "\"op\":\"clone\",\"t\":{t},\"t2\":{t2},\"out\":\"ok\",\"copies\":0"); }); Some(Own { t: t2, tree: n, model: model.clone() }) }
        Err(e) => { bad(format!("clone panicked: {e}")); api(|l| { let _ = write!(l, "\"op\":\"clone\",\"t\":{t},\"t2\":{t2},\"out\":\"panic\",\"copies\":0"); }); None }
    }
}
fn discard<const M: usize>(o: Own<M>) {
    let t = o.t;
    let r = tracked(|| catch(|| drop(o.tree)));
    count("drop");
    if let Err(e) = &r { bad(format!("drop panicked: {e}")) }
    api(|l| { let _ = write!(l, "\"op\":\"drop\",\"t\":{t},\"out\":\"{}\"", if r.is_ok() { "ok" } else { "panic" }); });
}

struct Mail<const M: usize> { to: usize, ch: usize, o: Own<M> }
/// references to the tree all threads may look at
struct Ptr<T>(*const T);
impl<T> Clone for Ptr<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Ptr<T> {}
unsafe impl<T> Send for Ptr<T> {}
unsafe impl<T> Sync for Ptr<T> {}

/// One program (from `seed`) under one schedule
fn session<const M: usize>(seed: u64, policy: Policy, fine: bool, emit: bool) -> Out {
    let mut r = Rng::new(seed);
    let n = 2 + (seed % 3 == 0) as usize;
    let base_live = live();
    let b0 = alloc::blocks();
    let _ = take_faults();
    alloc::DOUBLE_FREE.store(0, SeqCst);
    *SH.lock().unwrap() = Shared::default();
    NEXT_TREE.store(0, SeqCst);
    sched::begin(policy, fine);
    api(|l| { let _ = write!(l, "\"op\":\"reset\",\"par\":\"cow\",\"ix\":\"u32\",\"m\":{M},\"j\":true,\"seed\":{seed}"); });
    // channels: start and end of each thread, and mails
    let chans: Vec<usize> = with(|s| (0..2 * n + 12).map(|_| s.mem.channel()).collect());
    let mails: Mutex<Vec<Mail<M>>> = Mutex::new(vec![]);
    let back: Mutex<Vec<Own<M>>> = Mutex::new(vec![]);
    let next_ch = AtomicUsize::new(2 * n);

    // the tree everything starts from
    let t0 = NEXT_TREE.fetch_add(1, SeqCst);
    let d0 = D { k: SOLO, s: 1, lo: 0, len: I::of(2) };
    let mut o = { let sl = Sl::new(d0); let tree = tracked(|| Tree::<M>::new(sl, d0.len)); let mut model = Model::new(); model.insert(0, d0, true); Own { t: t0, tree, model } };
    api(|l| { let _ = write!(l, "\"op\":\"new\",\"t\":{t0},\"new\":{},\"out\":\"ok\"", d0.j()); });
    let runs = [1, 3, 6, 12, 25, 4, 8][(seed / 3 % 7) as usize];
    while o.model.runs.len() < runs { insert(&mut o, &mut r) }
    obs(o.t, &o.tree, &o.model);
    let mut start: Vec<Vec<Own<M>>> = (0..n).map(|_| vec![]).collect();
    for s in start.iter_mut() { for _ in 0..1 + (r.below(4) == 0) as usize { if let Some(c) = clone(o.t, &o.tree, &o.model) { s.push(c) } } }
    // the common tree: kept by the main thread, lent to everybody, or given away
    let common = if r.chance(40) { Some(o) } else if r.chance(50) { start[0].push(o); None } else { discard(o); None };
    let lent: Ptr<Own<M>> = Ptr(match &common { Some(o) => o as *const _, None => std::ptr::null() });
    let lend = r.chance(70);
    let nops: u64 = 1 + r.below(4);
    if !is_bad() {
        std::thread::scope(|sc| {
            for (k, own) in start.drain(..).enumerate() {
                let t = k + 1;
                with(|s| s.mem.send(0, chans[k]));
                let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(t as u64));
                let (mails, back, chans, next_ch) = (&mails, &back, &chans, &next_ch);
                sc.spawn(move || {
                    let lent = lent;
                    sched::enter(t);
                    with(|s| s.mem.recv(t, chans[k]));
                    let mut own = own;
                    for _ in 0..nops {
                        point();
                        if is_bad() { break }
                        // mail first
                        let got: Vec<Mail<M>> = { let mut m = mails.lock().unwrap(); let (a, b) = m.drain(..).partition(|x| x.to == t); *m = b; a };
                        for g in got { with(|s| s.mem.recv(t, g.ch)); own.push(g.o) }
                        if own.is_empty() {
                            if lend && !lent.0.is_null() {
                                let c = unsafe { &*lent.0 };
                                match r.below(3) { 0 => obs(c.t, &c.tree, &c.model), 1 => get(c.t, &c.tree, &c.model, &mut r), _ => own.extend(clone(c.t, &c.tree, &c.model)) }
                            }
                            continue;
                        }
                        let k = r.below(own.len() as u64) as usize;
                        match r.below(20) {
                            0..=8 => insert(&mut own[k], &mut r),
                            9..=10 => obs(own[k].t, &own[k].tree, &own[k].model),
                            11 => get(own[k].t, &own[k].tree, &own[k].model, &mut r),
                            12..=13 => if own.len() < 3 { let c = clone(own[k].t, &own[k].tree, &own[k].model); own.extend(c) },
                            14..=16 => { let o = own.remove(k); discard(o) }
                            17 => if lend && !lent.0.is_null() && own.len() < 3 { let c = unsafe { &*lent.0 }; own.extend(clone(c.t, &c.tree, &c.model)) },
                            _ => {
                                let c = next_ch.fetch_add(1, SeqCst);
                                if c < chans.len() {
                                    let to = 1 + (t - 1 + 1 + r.below(n as u64 - 1) as usize) % n;
                                    let o = own.remove(k);
                                    with(|s| s.mem.send(t, chans[c]));
                                    count("give");
                                    mails.lock().unwrap().push(Mail { to, ch: chans[c], o });
                                }
                            }
                        }
                    }
                    point();
                    if r.chance(70) { while let Some(o) = own.pop() { if is_bad() { std::mem::forget(o) } else { discard(o); point() } } }
                    for o in own { if !is_bad() { obs(o.t, &o.tree, &o.model) } back.lock().unwrap().push(o) }
                    with(|s| s.mem.send(t, chans[n + k]));
                    sched::leave(t);
                });
            }
            sched::go(n);
            for k in 0..n { with(|s| s.mem.recv(0, chans[n + k])) }
        });
    }
    // the main thread again, alone
    let mut rest: Vec<Own<M>> = back.into_inner().unwrap();
    rest.extend(start.into_iter().flatten());
    for m in mails.into_inner().unwrap() { with(|s| s.mem.recv(0, m.ch)); rest.push(m.o) }
    rest.extend(common);
    for o in &rest { if !is_bad() { obs(o.t, &o.tree, &o.model) } }
    while !rest.is_empty() {
        let o = rest.remove(r.below(rest.len() as u64) as usize);
        if is_bad() { std::mem::forget(o) } else { discard(o) }
    }
    if alloc::DOUBLE_FREE.load(SeqCst) > 0 { fault("memory freed twice") }
    let f = NFAULTS.load(SeqCst);
    if f > 0 { bad(format!("fault: {:?}", take_faults())) }
    if SH.lock().unwrap().suspect.is_none() {
        let (blocks, lv) = (alloc::blocks() - b0, live() as i64 - base_live as i64);
        if blocks != 0 || lv != 0 { bad(format!("leak: {blocks} blocks, {lv} slices")) }
        api(|l| { let _ = write!(l, "\"op\":\"end\",\"live\":{lv},\"blocks\":{blocks},\"faults\":{f}"); });
    } else if f > 0 {
        api(|l| { let _ = write!(l, "\"op\":\"fault\",\"faults\":{f}"); });
    }
    let s = sched::end();
    if alloc::flush_quarantine() > 0 { bad("freed memory was written to") }
    let mut sh = std::mem::take(&mut *SH.lock().unwrap());
    if sh.suspect.is_none() && s.mem.rmws > 0 { sh.suspect = s.mem.err.clone() }
    let (lines, _) = if emit || sh.suspect.is_some() { s.mem.lines() } else { Default::default() };
    Out { lines, suspect: sh.suspect, events: s.mem.items.len(), steps: s.step, ran: s.ran, atomics: s.mem.atomics, kinds: sh.kinds }
}

/// schedules are numbered: 0 = no preemption; 1 + step * 4 + thread = one preemption; two of them
/// from 1 << 40; random ones from 1 << 60
const TWO: u64 = 1 << 40;
const RND: u64 = 1 << 60;
fn policy(code: u64) -> (Policy, bool) {
    let one = |c: u64| ((c / 4) as usize, (c % 4) as usize + 1);
    if code >= RND { let c = code - RND; (Policy::Random([5, 15, 30, 60][(c % 4) as usize], Rng::new(c)), c % 3 == 0) }
    else if code >= TWO { let c = code - TWO; (Policy::Script(vec![one(c >> 20), one(c & 0xfffff)]), false) }
    else if code > 0 { (Policy::Script(vec![one(code - 1)]), false) }
    else { (Policy::Script(vec![]), false) }
}
fn run_one(seed: u64, code: u64, emit: bool) -> Out {
    let (p, fine) = policy(code);
    match seed % 5 { 0 | 1 => session::<1>(seed, p, fine, emit), 2 | 3 => session::<2>(seed, p, fine, emit), _ => session::<3>(seed, p, fine, emit) }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 { arg(name).and_then(|x| x.parse().ok()).unwrap_or(d) }

fn main() {
    if std::env::var("VERBOSE_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})) }
    sherman::verif::observe(sched::on_event);
    alloc::QUARANTINE.store(true, SeqCst);
    let prefix = arg("--out").unwrap_or("/tmp/cowh".into());
    if arg("--k").is_some() {
        let o = run_one(num("--s", 0), num("--len", 0), true);
        std::fs::write(format!("{prefix}.sample.ndjson"), &o.lines).unwrap();
        println!("{:?} {} steps", o.suspect, o.steps);
        return;
    }
    let seed = num("--seed", 1);
    let secs = Duration::from_millis(num("--ms", 3000));
    let maxev = num("--sample-events", 3000) as usize;
    let mut sample = std::fs::File::create(format!("{prefix}.sample.ndjson")).unwrap();
    let mut suspect = std::fs::File::create(format!("{prefix}.suspect.ndjson")).unwrap();
    let (mut progs, mut scheds, mut ev, mut sev, mut nsus, mut atomics, mut maxsteps, mut whole) = (0u64, 0u64, 0usize, 0usize, 0usize, 0usize, 0usize, 0u64);
    let mut kinds = BTreeMap::<&'static str, usize>::new();
    let mut sus = BTreeMap::<String, (usize, String)>::new();
    let t0 = Instant::now();
    'o: loop {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(progs);
        let mut r = Rng::new(s ^ 77);
        let mut one = |code: u64, emit: bool| -> Option<Out> {
            if t0.elapsed() > secs { return None }
            let _ = std::fs::write(format!("{prefix}.cur"), format!("0 {code} {s}"));
            let o = run_one(s, code, emit);
            scheds += 1; ev += o.events; atomics += o.atomics; maxsteps = maxsteps.max(o.steps);
            for (a, b) in &o.kinds { *kinds.entry(a).or_insert(0) += b }
            if let Some(m) = &o.suspect {
                nsus += 1;
                let e = sus.entry(m.chars().filter(|c| !c.is_ascii_digit()).take(80).collect()).or_insert((0, format!("--k 0 --s {s} --len {code}")));
                e.0 += 1;
                if e.0 <= 2 { let _ = suspect.write_all(o.lines.as_bytes()); }
            } else if emit { sev += o.events; let _ = sample.write_all(o.lines.as_bytes()); }
            Some(o)
        };
        let Some(base) = one(0, false) else { break };
        let n = 2 + (s % 3 == 0) as u64;
        // every single preemption (of small programs), then some pairs, then random schedules
        let steps = base.steps as u64;
        if steps <= 120 {
            for st in 0..steps { for u in 0..n { if base.ran[st as usize] as u64 != u + 1 { if one(1 + st * 4 + u, false).is_none() { break 'o } } } }
            whole += 1;
        }
        for _ in 0..30 {
            let a = r.below(steps);
            let b = a + 1 + r.below(steps);
            if one(TWO + ((a * 4 + r.below(n)) << 20) + (b * 4 + r.below(n)), false).is_none() { break 'o }
        }
        for k in 0..30u64 {
            let emit = k == 0 && progs % 4 == 0;
            if one(RND + r.below(1 << 50), emit && progs / 4 < (maxev as u64 / 60)).is_none() { break 'o }
        }
        progs += 1;
    }
    let _ = std::fs::remove_file(format!("{prefix}.cur"));
    let sj = sus.iter().map(|(a, b)| format!("[{:?},{},{:?}]", a, b.0, b.1)).collect::<Vec<_>>().join(",");
    let kj = kinds.iter().map(|(a, b)| format!("\"{a}\":{b}")).collect::<Vec<_>>().join(",");
    std::fs::write(format!("{prefix}.sum"), format!("{{\"programs\":{progs},\"sessions\":{scheds},\"events\":{ev},\"atomics\":{atomics},\"maxsteps\":{maxsteps},\"whole\":{whole},\"sample_events\":{sev},\"suspects\":{nsus},\"kinds\":{{{kj}}},\"sus\":[{sj}]}}\n")).unwrap();
    if std::env::args().any(|x| x == "-v") { println!("{progs} programs {scheds} schedules {ev} events {atomics} atomics, longest {maxsteps}; {nsus} suspects {sus:#?} {kinds:?}") }
}
