#![allow(dead_code)]
mod alloc;
mod bounds;
mod constd;
mod cur;
mod ix;
mod mockd;
mod model;
mod panicd;
mod par;
mod rt;
mod seq;
mod width;
mod serded;
mod sl;

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;

use seq::{Cfg, Out};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};

pub type Runner = fn(u64, &Cfg, bool) -> Out;
pub struct Inst { par: &'static str, ix: &'static str, j: bool, m: usize, f: Runner }
macro_rules! table { ($( $p:ident $i:ty, $j:literal, $m:literal );* $(;)?) => {
    vec![$( Inst { par: stringify!($p), ix: <$i as ix::Ix>::NAME, j: $j, m: $m, f: seq::run::<$i, $p, $j, $m> as Runner } ),*]
} }
fn insts() -> Vec<Inst> {
    #[cfg(not(feature = "histories"))]
    return vec![];
    #[cfg(feature = "histories")]
    use ix::*;
    #[cfg(feature = "histories")]
    table! {
        NoFeatures u32, true, 1; NoFeatures u32, true, 2; NoFeatures u32, true, 3; NoFeatures usize, true, 5;
        NoFeatures u8, true, 1; NoFeatures u16, false, 2; NoFeatures u64, true, 4; NoFeatures u128, true, 2;
        NoFeatures Sg, true, 2; NoFeatures usize, false, 1; NoFeatures u32, true, 16; NoFeatures u32, true, 64; NoFeatures u32, false, 127; AllowCow u32, true, 127; AllowSliceRefs u32, true, 127;
        NoFeatures He, true, 1; NoFeatures He, true, 2; NoFeatures He, false, 3;
        AllowCow u32, true, 1; AllowCow u32, true, 2; AllowCow usize, true, 3; AllowCow u16, false, 1; AllowCow u64, true, 5; AllowCow He, true, 1; AllowCow u32, true, 40;
        AllowSliceRefs u32, true, 1; AllowSliceRefs u32, true, 2; AllowSliceRefs usize, true, 3; AllowSliceRefs u16, false, 1; AllowSliceRefs u64, true, 5;
        NoFeatures Cn, true, 1; NoFeatures Cn, true, 4; NoFeatures Cn, true, 32; AllowCow Cn, true, 2; AllowSliceRefs Cn, true, 2;
        AllowSliceRefs He, true, 1; AllowSliceRefs He, true, 2; AllowSliceRefs u32, true, 40; AllowSliceRefs Sg, true, 1;
    }
}

/// The histories looked at for a property; `None` if the instantiation is of no interest to it
fn profile(prof: &str, it: &Inst, k: u64) -> Option<Cfg> {
    let refs = it.par == "AllowSliceRefs";
    let cow = it.par == "AllowCow";
    let mut c = Cfg { ops: [12, 40, 90, 160, 400][k as usize % 5], ..Default::default() };
    c.kinds = [0, 0, 1, 2, 3, 4, 0][k as usize % 7];
    if k % 11 == 0 { c.style = 1 + (k / 11) % 8 }
    if it.m >= 16 { c.prefill = [0, 2 * it.m + 3, 5 * it.m, 30 * it.m][k as usize % 4].min(1200); c.ops = c.ops.min(60) }
    let mix = |c: &mut Cfg| {
        if refs { c.inside = if k % 4 == 3 { 20 } else { 0 }; c.w_ref = 20; c.w_bor = if k % 2 == 0 { 8 } else { 0 }; c.w_drop = if k % 3 == 0 { 1 } else { 0 } }
        else { c.w_clone = 4; c.w_drop = 3; c.all = k % 3 == 0 }
    };
    match prof {
        "C01" => { c.w_insert = 90; c.w_get = 4; c.w_iter = 2; c.paths = false; c.hints = k % 3 != 0; if k % 5 == 0 { mix(&mut c) } }
        "C02" => { c.w_insert = 95; c.w_get = 2; c.w_iter = 1; c.paths = false; c.hints = k % 3 != 0; if k % 2 == 0 { c.kinds = [1, 2, 4, 0][k as usize / 2 % 4] } if k % 5 == 0 { mix(&mut c) } }
        "C03" => { c.w_insert = 40; c.w_get = 60; c.w_iter = 0; c.paths = false; c.hints = k % 2 == 0; if k % 2 == 0 { mix(&mut c) } }
        "C04" => { c.w_insert = 35; c.w_get = 0; c.w_iter = 60; c.paths = false; c.hints = k % 2 == 0; if k % 2 == 0 { mix(&mut c); c.w_iter = 60 } }
        "C05" => { c.w_insert = 60; c.w_get = 30; c.w_iter = 30; c.paths = false; if k % 2 == 0 { mix(&mut c) } }
        "C06" => { c.w_insert = 60; c.w_get = 25; c.w_cur = 15; c.w_iter = 5; if k % 2 == 0 { mix(&mut c) } }
        "C07" => { c.w_insert = 95; c.w_get = 3; c.w_iter = 0; c.hints = k % 2 == 0; if k % 4 == 0 { mix(&mut c) } else { c.ops = [40, 200, 600][k as usize % 3] } if it.ix == "Cn" { c.w_get = 15; c.w_iter = 2; c.paths = k % 2 == 0; if refs { c.w_ref = 15 } } }
        "C08" => { if !refs { return None } c.w_insert = 50; c.w_ref = 35; c.w_get = 10; c.w_iter = 5; c.inside = if k % 4 == 1 { 30 } else { 0 }; if k % 6 == 2 { c.style = 8; c.kinds = 2; c.w_insert = 80; c.ops = c.ops.max(60) } }
        "C09" => { if !refs { return None } c.w_insert = 25; c.w_ref = 30; c.w_bor = 35; c.w_get = 8; c.w_iter = 3; c.w_drop = [0, 1, 3][k as usize % 3]; c.max_trees = 2; c.w_bad = 2; c.inside = if k % 3 != 2 { 50 } else { 0 } }
        "C10" => { if refs { return None } c.w_insert = 60; c.w_clone = 8; c.w_drop = 7; c.all = k % 4 != 3; c.max_trees = 3 + (k % 4) as usize; c.w_iter = 4; c.w_get = 4; if k % 4 == 3 { c.ops = 200 } }
        "C12" => { if !cow { return None } c.w_insert = 60; c.w_clone = 10; c.w_drop = 8; c.w_iter = 2; c.w_get = 2; c.share = true; c.max_trees = 2 + (k % 3) as usize; c.ops = [20, 60, 120][k as usize % 3]; c.prefill = c.prefill.min(300) }
        "C13" => { c.w_insert = 60; mix(&mut c); c.w_bad = 3; c.w_drop += 2; c.w_get = 5; c.w_iter = 5; c.paths = false; c.acct = true }
        "C15" => { c.w_insert = 40; mix(&mut c); c.w_bad = 40; c.w_iter = 10; c.paths = false; if c.ops > 100 { c.ops = 100 } }
        "C16" => { if !["He", "u8", "u16", "u64", "u128", "Sg"].contains(&it.ix) { return None } c.w_cur = 2; c.w_get = 15; c.w_iter = 15; mix(&mut c) }
        "all" => { mix(&mut c); c.w_bad = 3; c.w_cur = 4; c.acct = k % 2 == 0 }
        _ => return None,
    }
    Some(c)
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 { arg(name).and_then(|x| x.parse().ok()).unwrap_or(d) }
fn has(name: &str) -> bool { std::env::args().any(|x| x == name) }

/// Random histories until the time is up. Writes PREFIX.sample.ndjson (every so many-th history in
/// full), PREFIX.suspect.ndjson (histories the mirror model found odd), PREFIX.cur (what is being run,
/// for the watchdog) and PREFIX.sum (a summary).
fn run() {
    let prof = arg("--prof").unwrap_or("all".into());
    let seed = num("--seed", 1);
    let secs = Duration::from_millis(num("--ms", 5000));
    let maxev = num("--sample-events", 3000) as usize;
    let prefix = arg("--out").unwrap_or("/tmp/h".into());
    let nmax = num("--n", u64::MAX);
    let only = arg("--inst").map(|x| x.parse::<usize>().unwrap());
    let its = insts();
    let mut sample = std::fs::File::create(format!("{prefix}.sample.ndjson")).unwrap();
    let mut suspect = std::fs::File::create(format!("{prefix}.suspect.ndjson")).unwrap();
    let t0 = Instant::now();
    let (mut ev, mut ses, mut ins, mut sev, mut sses, mut nsus) = (0usize, 0usize, 0usize, 0usize, 0usize, 0usize);
    let mut kinds = BTreeMap::<&'static str, usize>::new();
    let mut sus = BTreeMap::<String, (usize, String)>::new();
    let (mut maxn, mut maxd) = (0, 0);
    let mut k = 0u64;
    // samples are spread over the instantiations first
    let per = (maxev / its.len().max(1)).max(60);
    let mut got = vec![0usize; its.len()];
    'o: loop {
        for (x, it) in its.iter().enumerate() {
            if only.is_some_and(|o| o != x) { continue }
            let Some(cfg) = profile(&prof, it, k) else { continue };
            if t0.elapsed() > secs || k >= nmax { break 'o }
            let s = seed.wrapping_mul(1_000_003).wrapping_add(k * 64 + x as u64);
            let _ = std::fs::write(format!("{prefix}.cur"), format!("{x} {k} {s}"));
            let emit = sev < maxev && got[x] < per && (cfg.ops <= 160 || got[x] == 0);
            let o = (it.f)(s, &cfg, emit);
            ses += 1; ev += o.events; ins += o.inserts; maxn = maxn.max(o.maxn); maxd = maxd.max(o.maxdepth);
            for (a, b) in &o.kinds { *kinds.entry(a).or_insert(0) += b }
            if let Some(m) = &o.suspect {
                nsus += 1;
                let key: String = { let mut l = ' '; m.chars().filter_map(|c| { let c = if c.is_ascii_digit() { '#' } else { c }; let r = if c == '#' && l == '#' { None } else { Some(c) }; l = c; r }).take(90).collect() };
                let e = sus.entry(key).or_insert((0, format!("--prof {prof} --inst {x} --k {k} --seed {seed}")));
                e.0 += 1;
                if e.0 <= 2 && sus.len() <= 6 {
                    let o = if emit { o } else { (it.f)(s, &cfg, true) };
                    let _ = suspect.write_all(o.lines.as_bytes());
                }
            } else if emit {
                sev += o.events; got[x] += o.events; sses += 1;
                let _ = sample.write_all(o.lines.as_bytes());
            }
        }
        k += 1;
    }
    let _ = std::fs::remove_file(format!("{prefix}.cur"));
    let j = |m: &BTreeMap<&'static str, usize>| m.iter().map(|(a, b)| format!("\"{a}\":{b}")).collect::<Vec<_>>().join(",");
    let sj = sus.iter().map(|(a, b)| format!("[{:?},{},{:?}]", a, b.0, b.1)).collect::<Vec<_>>().join(",");
    let s = format!("{{\"sessions\":{ses},\"events\":{ev},\"inserts\":{ins},\"sample_sessions\":{sses},\"sample_events\":{sev},\"maxn\":{maxn},\"maxdepth\":{maxd},\"suspects\":{nsus},\"kinds\":{{{}}},\"sus\":[{sj}]}}\n", j(&kinds));
    std::fs::write(format!("{prefix}.sum"), &s).unwrap();
    if has("-v") {
        println!("{ses} sessions {ev} events {ins} inserts maxn {maxn} depth {maxd}\n{kinds:?}");
        for (a, b) in &sus { println!("{:6} {a}   {}", b.0, b.1) }
    }
}

type Small = fn(u64, usize) -> mockd::MOut;
#[cfg(feature = "mocks")]
/// Histories of `Mock`
fn mock() {
    use ix::*;
    small(vec![mockd::run::<u32, true>, mockd::run::<He, true>, mockd::run::<u8, true>, mockd::run::<Sg, true>, mockd::run::<u16, false>, mockd::run::<usize, true>,
        mockd::run::<u128, true>, mockd::run::<He, false>], &[30, 80, 200])
}
#[cfg(feature = "serdes")]
/// Serialisation
fn serde() {
    use ix::*;
    macro_rules! s { ($($i:ty, $p:ty, $q:ty, $j:literal, $m:literal, $n:literal);* $(;)?) => { vec![$(serded::run::<$i, $p, $q, $j, $m, $n> as Small),*] } }
    small(s! { usize, NoFeatures, AllowCow, true, 1, 2; He, AllowCow, NoFeatures, true, 1, 1; u8, AllowSliceRefs, NoFeatures, true, 2, 1; Sg, NoFeatures, AllowSliceRefs, true, 3, 1;
        usize, AllowCow, AllowSliceRefs, false, 1, 3; He, AllowSliceRefs, AllowCow, true, 2, 1; Sg, AllowSliceRefs, AllowSliceRefs, true, 1, 1; u8, AllowCow, AllowCow, true, 2, 2; Sg, NoFeatures, NoFeatures, false, 5, 40 }, &[0, 8, 3, 30, 80])
}
#[cfg(feature = "constants")]
/// Trees of `Constant`
fn constant() {
    use constd::{Big, Tok};
    use ix::*;
    macro_rules! s { ($($i:ty, $t:ty, $p:ty, $m:literal);* $(;)?) => { vec![$(constd::run::<$i, $t, $p, $m> as Small),*] } }
    small(s! { u32, u8, NoFeatures, 1; usize, String, AllowCow, 1; u32, Tok, AllowSliceRefs, 1; u8, (), AllowSliceRefs, 1; He, bool, NoFeatures, 2; u64, Big, AllowCow, 2; usize, Tok, NoFeatures, 3;
        He, String, AllowSliceRefs, 1; u16, bool, AllowSliceRefs, 2; u32, (), AllowCow, 1; Sg, Tok, AllowCow, 1; u128, Big, AllowSliceRefs, 1; usize, u8, AllowCow, 5 }, &[40, 100, 250])
}
/// Runs the given kinds of histories in turn until the time is up, writing the same files as `run`
fn small(fs: Vec<Small>, lens: &[usize]) {
    let seed = num("--seed", 1);
    let secs = Duration::from_millis(num("--ms", 3000));
    let maxev = num("--sample-events", 3000) as usize;
    let prefix = arg("--out").unwrap_or("/tmp/h".into());
    if let Some(k) = arg("--k") { // one history alone
        let o = fs[k.parse::<usize>().unwrap()](num("--s", 0), num("--len", 0) as usize);
        std::fs::write(format!("{prefix}.sample.ndjson"), o.lines).unwrap();
        return;
    }
    let mut sample = std::fs::File::create(format!("{prefix}.sample.ndjson")).unwrap();
    let mut suspect = std::fs::File::create(format!("{prefix}.suspect.ndjson")).unwrap();
    let (mut ses, mut ev, mut sev, mut nsus) = (0u64, 0usize, 0usize, 0usize);
    let t0 = Instant::now();
    let _ = rt::take_faults();
    let mut sus = BTreeMap::<String, usize>::new();
    while t0.elapsed() < secs {
        let k = ses as usize % fs.len();
        let len = lens[ses as usize / fs.len() % lens.len()];
        let s = seed.wrapping_mul(1_000_003).wrapping_add(ses);
        let _ = std::fs::write(format!("{prefix}.cur"), format!("{k} {len} {s}"));
        let o = fs[k](s, len);
        ses += 1; ev += o.events;
        if let Some(m) = o.suspect { nsus += 1; *sus.entry(m).or_insert(0) += 1; if nsus < 6 { let _ = suspect.write_all(o.lines.as_bytes()); } }
        else if sev < maxev { sev += o.events; let _ = sample.write_all(o.lines.as_bytes()); }
    }
    let _ = std::fs::remove_file(format!("{prefix}.cur"));
    std::fs::write(format!("{prefix}.sum"), format!("{{\"sessions\":{ses},\"events\":{ev},\"sample_events\":{sev},\"suspects\":{nsus}}}\n")).unwrap();
    if has("-v") { println!("{ses} sessions {ev} events, {nsus} suspects {sus:?}") }
}

#[cfg(feature = "panics")]
/// Histories with one injected panic: for a program and a step of it, at every call to user code made there
/// (`lying`: in which a call to user code gives a wrong answer instead)
fn panics(lying: bool) {
    use ix::*;
    type F = fn(u64, usize, u64, u32) -> (mockd::MOut, u64);
    macro_rules! s { ($($i:ty, $p:ty, $j:literal, $m:literal);* $(;)?) => { vec![$(panicd::run::<$i, $p, $j, $m> as F),*] } }
    let fs: Vec<F> = s! { Cn, NoFeatures, true, 1; Cn, AllowCow, true, 1; Cn, AllowSliceRefs, true, 1; Cn, AllowCow, true, 2; Cn, AllowSliceRefs, true, 2; Cn, NoFeatures, true, 2;
        Cn, AllowCow, false, 1; Cn, AllowSliceRefs, true, 3; u32, AllowCow, true, 3; Cn, NoFeatures, false, 3; He, AllowSliceRefs, false, 1; He, NoFeatures, true, 1 };
    alloc::QUARANTINE.store(true, std::sync::atomic::Ordering::SeqCst);
    let seed = num("--seed", 1);
    let secs = Duration::from_millis(num("--ms", 3000));
    let maxev = num("--sample-events", 3000) as usize;
    let prefix = arg("--out").unwrap_or("/tmp/h".into());
    let _ = cur::pool();
    let mode = |s: u64| if lying { [1, 2, 1, 4, 1, 12][(s % 6) as usize] } else { 0 };
    let code = |c: u64| ((c / 4096) as usize, match c % 4096 { 0 => u64::MAX, n => n });
    if let Some(k) = arg("--k") {
        let (at, n) = code(num("--len", 0));
        let o = fs[k.parse::<usize>().unwrap()](num("--s", 0), at, n, mode(num("--s", 0)));
        std::fs::write(format!("{prefix}.sample.ndjson"), o.0.lines).unwrap();
        println!("{:?}", o.0.suspect);
        return;
    }
    let mut sample = std::fs::File::create(format!("{prefix}.sample.ndjson")).unwrap();
    let mut suspect = std::fs::File::create(format!("{prefix}.suspect.ndjson")).unwrap();
    let (mut progs, mut ses, mut ev, mut sev, mut nsus, mut points) = (0u64, 0u64, 0usize, 0usize, 0usize, 0u64);
    let t0 = Instant::now();
    let mut sus = BTreeMap::<String, (usize, String)>::new();
    'o: loop {
        let k = progs as usize % fs.len();
        let s = seed.wrapping_mul(1_000_003).wrapping_add(progs);
        let mut r = rt::Rng::new(s);
        for _ in 0..4 {
            let at = r.below([8, 20, 45][(s % 3) as usize]);
            let mut one = |n: u64, emit: bool| {
                let c = at * 4096 + n;
                let _ = std::fs::write(format!("{prefix}.cur"), format!("{k} {c} {s}"));
                let (o, t) = fs[k](s, at as usize, if n == 0 { u64::MAX } else { n }, mode(s));
                ses += 1; ev += o.events;
                if let Some(m) = o.suspect {
                    nsus += 1;
                    let e = sus.entry(m.chars().filter(|c| !c.is_ascii_digit()).take(70).collect()).or_insert((0, format!("--k {k} --len {c} --s {s}")));
                    e.0 += 1;
                    if e.0 <= 2 { let _ = suspect.write_all(o.lines.as_bytes()); }
                } else if emit && sev < maxev { sev += o.events; let _ = sample.write_all(o.lines.as_bytes()); }
                t
            };
            let ticks = one(0, false);
            let step = (ticks / 100).max(1);
            let mut n = 1 + r.below(step);
            let show = 1 + r.below(ticks.max(1));
            while n <= ticks {
                if t0.elapsed() > secs { break 'o }
                one(n, show.abs_diff(n) < step);
                points += 1;
                n += step;
            }
            if t0.elapsed() > secs { break 'o }
        }
        progs += 1;
    }
    let _ = std::fs::remove_file(format!("{prefix}.cur"));
    std::fs::write(format!("{prefix}.sum"), format!("{{\"programs\":{progs},\"sessions\":{ses},\"events\":{ev},\"points\":{points},\"sample_events\":{sev},\"suspects\":{nsus}}}\n")).unwrap();
    if has("-v") { println!("{progs} programs {ses} sessions {ev} events, {points} panics, {nsus} suspects {sus:#?}") }
}

/// One history again, written out line by line so that the trace survives a crash
fn one() {
    let prof = arg("--prof").unwrap_or("all".into());
    let (x, k, seed) = (num("--inst", 0) as usize, num("--k", 0), num("--seed", 1));
    let its = insts();
    let cfg = profile(&prof, &its[x], k).unwrap();
    if let Some(f) = arg("--flush") { seq::flush_to(&f) }
    let o = (its[x].f)(seed.wrapping_mul(1_000_003).wrapping_add(k * 64 + x as u64), &cfg, true);
    print!("{}", o.lines);
    if let Some(s) = o.suspect { eprintln!("## {s}") }
}

/// Shows a recorded finding again (see known_findings.json); prints STILL while it is there
fn probe(what: &str) {
    use crate::sl::{Sl, D, SPAN};
    use sherman::RleTree;
    match what {
        "double-join" => {
            let d = |lo: u32, len: u32| Sl::<u32, true>::new(D { k: SPAN, s: 1, lo, len });
            let mut t: RleTree<u32, Sl<u32, true>, NoFeatures, 1> = RleTree::new(d(0, 2), 2);
            t.insert(2, d(4, 2), 2);
            let r = rt::catch(|| { t.insert(2, d(2, 2), 2); t.number_of_slices() });
            match r { Ok(1) => println!("repaired"), Ok(n) => println!("STILL wrong: {n} slices"), Err(e) => println!("STILL panics: {e}") }
            std::mem::forget(t);
        }
        _ => { eprintln!("no such probe"); std::process::exit(2) }
    }
}

#[cfg(feature = "histories")]
/// Behaviours that TLC wrote (spec/Gen.tla), followed by the code. `--in FILE`, `--part w/n`: the lines
/// of this worker; `--pars a,b`: parameterisations
fn replay() {
    use ix::*;
    use std::io::BufRead;
    type F = fn(&serde_json::Value, u64, bool) -> Out;
    macro_rules! s { ($($p:ident $i:ty, $m:literal);* $(;)?) => { vec![$((stringify!($p), seq::replay::<$i, $p, true, $m> as F)),*] } }
    let fs: Vec<(&str, F)> = s! { NoFeatures u32, 1; NoFeatures u32, 2; AllowCow u32, 1; AllowCow u32, 2; AllowSliceRefs u32, 1; AllowSliceRefs u32, 2; AllowSliceRefs u32, 3; AllowSliceRefs Sg, 1; AllowCow Sg, 3 };
    let prefix = arg("--out").unwrap();
    let pars = arg("--pars").unwrap();
    let seed = num("--seed", 1);
    let maxev = num("--sample-events", 300) as usize;
    let part = arg("--part").unwrap_or("0/1".into());
    let (w, n) = part.split_once('/').map(|(a, b)| (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap())).unwrap();
    let only = arg("--line").map(|x| x.parse::<usize>().unwrap());
    let only_k = arg("--k").map(|x| x.parse::<usize>().unwrap());
    let mut sample = std::fs::File::create(format!("{prefix}.sample.ndjson")).unwrap();
    let mut suspect = std::fs::File::create(format!("{prefix}.suspect.ndjson")).unwrap();
    let (mut lines, mut ses, mut ev, mut sev, mut nsus, mut ways) = (0u64, 0u64, 0usize, 0usize, 0usize, (0usize, 0usize));
    let mut sus = BTreeMap::<String, usize>::new();
    for (x, l) in std::io::BufReader::new(std::fs::File::open(arg("--in").unwrap()).unwrap()).lines().enumerate() {
        if x % n != w || only.is_some_and(|o| o != x) { continue }
        let l = l.unwrap();
        // TLC writes the record as a string
        let v: serde_json::Value = match serde_json::from_str::<String>(&l).and_then(|r| serde_json::from_str(&r)) { Ok(v) => v, Err(e) => { eprintln!("line {x}: {e}"); std::process::exit(2) } };
        lines += 1;
        for (k, (p, f)) in fs.iter().enumerate() {
            if !pars.split(',').any(|q| q == *p) || only_k.is_some_and(|o| o != k) { continue }
            let s = seed.wrapping_mul(1_000_003).wrapping_add((x * 16 + k) as u64);
            let _ = std::fs::write(format!("{prefix}.cur"), format!("{k} {x} {s}"));
            let emit = only.is_some() || (sev < maxev && (x / n) % 97 == 0);
            let o = f(&v, s, emit);
            ses += 1; ev += o.events;
            ways = (ways.0 + o.ways.0, ways.1 + o.ways.1);
            if let Some(m) = &o.suspect {
                nsus += 1;
                let e = sus.entry(m.clone()).or_insert(0);
                *e += 1;
                if *e <= 2 && sus.len() <= 6 { let o = if emit { o } else { f(&v, s, true) }; let _ = suspect.write_all(o.lines.as_bytes()); }
            } else if emit { sev += o.events; let _ = sample.write_all(o.lines.as_bytes()); }
        }
    }
    let _ = std::fs::remove_file(format!("{prefix}.cur"));
    std::fs::write(format!("{prefix}.sum"), format!("{{\"lines\":{lines},\"sessions\":{ses},\"events\":{ev},\"sample_events\":{sev},\"suspects\":{nsus},\"ways\":[{},{}]}}\n", ways.0, ways.1)).unwrap();
    if has("-v") { println!("{lines} lines {ses} sessions {ev} events, {ways:?} shapes, {nsus} suspects {sus:?}") }
}

fn main() {
    if std::env::var("VERBOSE_PANICS").is_err() { std::panic::set_hook(Box::new(rt::at)); }
    // deep recursion in the code under test is bounded by the depth of trees; leave room anyway
    let cmd = std::env::args().nth(1).unwrap_or_default();
    match cmd.as_str() {
        "run" => run(),
        "one" => one(),
        #[cfg(feature = "mocks")]
        "mock" => mock(),
        #[cfg(feature = "histories")]
        "replay" => replay(),
        #[cfg(feature = "serdes")]
        "serde" => serde(),
        #[cfg(feature = "constants")]
        "constant" => constant(),
        #[cfg(feature = "panics")]
        "panics" => panics(false),
        #[cfg(feature = "panics")]
        "lies" => panics(true),
        "bounds" => bounds::run(&arg("--out").unwrap()),
        "probe" => probe(&std::env::args().nth(2).unwrap_or_default()),
        "list" => for (i, it) in insts().iter().enumerate() { println!("{i} {} {} J={} M={}", it.par, it.ix, it.j, it.m) },
        _ => { eprintln!("usage: harness run|one|list"); std::process::exit(2) }
    }
}
