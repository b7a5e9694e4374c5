//! Histories of the reference model shipped for fuzzing (`sherman::mock::Mock`), recorded in the same
//! form as those of the tree.
use crate::ix::Ix;
use crate::model::Model;
use crate::rt::*;
use crate::sl::{Sl, CAPPED, CONST, D, SOLO, SPAN};
use sherman::mock::{Mock, Ref};
use sherman::range::{EndBound, StartBound};
use std::fmt::Write;

pub struct MOut { pub lines: String, pub suspect: Option<String>, pub events: usize }
struct M<I: Ix, const J: bool> { t: usize, mock: Mock<I, Sl<I, J>>, model: Model<I>, refs: Vec<(usize, Ref, u32)>, alive: bool }

pub fn jl<T: AsRef<str>>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| x.as_ref()).collect::<Vec<_>>().join(",")) }
pub fn jb<I: Ix>(lo: &StartBound<I>, hi: &EndBound<I>) -> (String, String) {
    (match lo { StartBound::Unbounded => "[\"U\"]".into(), StartBound::Included(x) => format!("[\"I\",{}]", x.j()) },
     match hi { EndBound::Unbounded => "[\"U\"]".into(), EndBound::Included(x) => format!("[\"I\",{}]", x.j()), EndBound::Excluded(x) => format!("[\"E\",{}]", x.j()) })
}

pub fn run<I: Ix, const J: bool>(seed: u64, ops: usize) -> MOut {
    let mut r = Rng::new(seed);
    let mut o = MOut { lines: String::new(), suspect: None, events: 0 };
    let mut ms: Vec<M<I, J>> = vec![];
    let mut src = 0u32;
    let mut nref = 0usize;
    macro_rules! ev { ($($a:tt)*) => {{ o.events += 1; let _ = writeln!(o.lines, $($a)*); }} }
    macro_rules! bad { ($($a:tt)*) => { if o.suspect.is_none() { o.suspect = Some(format!($($a)*)) } } }
    ev!("{{\"op\":\"reset\",\"par\":\"mock\",\"ix\":\"{}\",\"m\":1,\"j\":{J},\"seed\":{seed}}}", I::NAME);
    for step in 0..ops {
        if o.suspect.is_some() || NFAULTS.load(std::sync::atomic::Ordering::SeqCst) > 0 { break }
        let live: Vec<usize> = (0..ms.len()).filter(|&i| ms[i].alive).collect();
        if live.is_empty() || (step > 0 && live.len() < 3 && r.chance(4)) {
            let t = ms.len();
            if r.chance(50) {
                src += 1;
                let d = D { k: SOLO, s: 10 + src, lo: I::ZERO, len: I::rand_size(&mut r) };
                match catch(|| Mock::new(Sl::<I, J>::new(d), d.len)) {
                    Ok(m) => { let mut model = Model::new(); model.insert(I::ZERO, d, J); ms.push(M { t, mock: m, model, refs: vec![], alive: true }); ev!("{{\"op\":\"new\",\"t\":{t},\"new\":{},\"out\":\"ok\"}}", d.j()) }
                    Err(_) => { bad!("new panicked"); ev!("{{\"op\":\"new\",\"t\":{t},\"new\":{},\"out\":\"panic\"}}", d.j()) }
                }
            } else { ms.push(M { t, mock: Mock::new_empty(), model: Model::new(), refs: vec![], alive: true }); ev!("{{\"op\":\"new_empty\",\"t\":{t},\"out\":\"ok\"}}") }
            continue;
        }
        let x = live[r.below(live.len() as u64) as usize];
        let t = ms[x].t;
        let size = ms[x].model.size();
        let n = ms[x].model.runs.len();
        let pick = |r: &mut Rng, m: &Model<I>| -> I {
            if n == 0 { return I::ZERO }
            let k = r.below(n as u64) as usize;
            let s = m.runs[..k].iter().fold(I::ZERO, |a, x| a.add_right(x.d.len));
            if r.chance(50) { s } else { m.runs[k].d.len.inside(r).map_or(s, |p| s.add_right(p)) }
        };
        match r.below(20) {
            0..=8 => {
                let i = if r.chance(15) { size } else { pick(&mut r, &ms[x].model) };
                if I::INT && size.n() + 30 > I::CAP as i64 { continue }
                let len = I::rand_size(&mut r);
                let (k, s) = ms[x].model.locate(i);
                let runs = &ms[x].model.runs;
                let (l, rr) = if k < runs.len() && s < i { let mut l = runs[k].d; let q = l.split(i.sub_left(s)); (Some(l), Some(q)) }
                    else { (if k > 0 { Some(runs[k - 1].d) } else { None }, runs.get(k).map(|r| r.d)) };
                src += 1;
                let mut d = D { k: SOLO, s: 10 + src, lo: I::ZERO, len };
                match r.below(12) {
                    0 | 1 => d = D { k: CONST, s: r.below(3) as u32, lo: I::ZERO, len },
                    2 | 3 => if let Some(l) = l.filter(|d| d.k == SPAN || (d.k == CAPPED && I::INT)) { d = D { k: l.k, s: l.s, lo: l.lo.add_right(l.len), len } } else { d.k = if r.chance(70) || !I::INT { SPAN } else { CAPPED } },
                    4 | 8 | 9 => if let (Some(l), Some(q)) = (l, rr) {
                        // fills the gap between its neighbours: joins with both
                        if l.k == SPAN && q.k == SPAN && l.s == q.s && l.lo.add_right(l.len) < q.lo { let lo = l.lo.add_right(l.len); d = D { k: SPAN, s: l.s, lo, len: q.lo.sub_left(lo) } }
                        else if l.k == CONST && q.k == CONST && l.s == q.s { d = D { k: CONST, s: l.s, lo: I::ZERO, len } }
                    },
                    5 => if let Some(q) = rr.filter(|q| q.k == SPAN) { if !I::INT || q.lo.n() > len.n() { d = D { k: SPAN, s: q.s, lo: q.lo.sub_right(len), len } } },
                    // leaves a gap behind its left neighbour, to be filled later
                    10 => if let Some(l) = l.filter(|d| d.k == SPAN) { let lo = l.lo.add_right(l.len).add_right(I::rand_size(&mut r)); d = D { k: SPAN, s: l.s, lo, len } },
                    // a part far into its source, so that gaps may arise before it
                    6 => { d.k = SPAN; d.lo = I::rand_size(&mut r).add_right(I::rand_size(&mut r)) }
                    _ => {}
                }
                let want = r.chance(35);
                log_start();
                let m = &mut ms[x].mock;
                let res = catch(|| m.insert(i, Sl::new(d), d.len, want));
                let calls = log_stop();
                let ef = ms[x].model.insert(i, d, J);
                // references to a run that joined with both neighbours follow it
                if let Some(g) = ef.gone { let to = ms[x].model.runs[ef.at].id; for e in ms[x].refs.iter_mut().filter(|e| e.2 == g) { e.2 = to } }
                let mut rid = -1i64;
                let ok = res.is_ok();
                if let Ok(Some(rf)) = res { rid = nref as i64; nref += 1; let id = ms[x].model.runs[ef.at].id; ms[x].refs.push((rid as usize, rf, id)); }
                if !ok || (rid >= 0) != want { bad!("insert: panicked or wrong reference") }
                let (sz, nn) = if ok { (ms[x].mock.size(), ms[x].model.runs.len()) } else { (I::ZERO, 0) };
                if ok && sz != ms[x].model.size() { bad!("size differs") }
                let sp: Vec<String> = calls.iter().filter_map(|c| match c { Call::Split(a, p) => Some(format!("[{a},{p}]")), _ => None }).collect();
                let jn: Vec<String> = calls.iter().filter_map(|c| match c { Call::Join(a, b, o) => Some(format!("[{a},{b},{o}]")), _ => None }).collect();
                if !J && jn.len() > 0 { bad!("try_join called") }
                ev!("{{\"op\":\"insert\",\"t\":{t},\"i\":{},\"new\":{},\"ref\":{rid},\"want\":{want},\"out\":\"{}\",\"sp\":{},\"jn\":{},\"size\":{},\"n\":{nn},\"path\":[-1]}}",
                    i.j(), d.j(), if ok { "ok" } else { "panic" }, jl(&sp), jl(&jn), sz.j());
                if !ok { break }
                // everything there is to see
                let m = &ms[x].mock;
                let all = catch(|| m.iter(..).take(ms[x].model.runs.len() + 5).map(|(g, z, s)| (g.start, g.end, z, s.look())).collect::<Vec<_>>());
                match all {
                    Ok(v) => {
                        let st = ms[x].model.starts();
                        if v.len() != st.len() || v.iter().zip(&ms[x].model.runs).zip(&st).any(|((a, b), s)| a.0 != *s || a.1 != s.add_right(b.d.len) || a.2 != b.d.len || a.3 != b.d) { bad!("content differs") }
                        ev!("{{\"op\":\"obs\",\"t\":{t},\"out\":\"ok\",\"size\":{},\"n\":{},\"runs\":{}}}", sz.j(), v.len(), jl(&v.iter().map(|x| format!("[{},{},{},{}]", x.0.j(), x.1.j(), x.2.j(), x.3.j())).collect::<Vec<_>>()))
                    }
                    Err(_) => { bad!("reading panicked"); ev!("{{\"op\":\"obs\",\"t\":{t},\"out\":\"panic\"}}") }
                }
            }
            9 | 10 => if n > 0 {
                let i = pick(&mut r, &ms[x].model);
                let m = &ms[x].mock;
                let res = catch(|| { let (g, s) = m.get(i); (g.start, g.end, s.look()) });
                let (k, s) = ms[x].model.locate(i);
                let run = ms[x].model.runs[k].d;
                match res {
                    Ok(v) => { if v != (s, s.add_right(run.len), run) { bad!("get differs") }
                        // the model reports no size; the one of its range is what there is
                        ev!("{{\"op\":\"get\",\"t\":{t},\"i\":{},\"ref\":-1,\"out\":\"ok\",\"res\":[{},{},{},{}],\"path\":[-1],\"cto\":[-1]}}", i.j(), v.0.j(), v.1.j(), v.1.sub_left(v.0).j(), v.2.j()) }
                    Err(_) => { bad!("get panicked"); ev!("{{\"op\":\"get\",\"t\":{t},\"i\":{},\"ref\":-1,\"out\":\"panic\"}}", i.j()) }
                }
            },
            11..=13 => {
                let a = pick(&mut r, &ms[x].model);
                let b = pick(&mut r, &ms[x].model);
                let (mut lo, mut hi) = if a <= b { (a, b) } else { (b, a) };
                match r.below(8) { 0 => std::mem::swap(&mut lo, &mut hi), 1 => hi = size, 2 => { lo = size; hi = size } 3 => hi = size.above(&mut r),
                    4 => if let Some(g) = I::neg(&mut r) { if r.chance(50) { lo = g } else { hi = g } }, _ => {} }
                let sb = if r.chance(35) { StartBound::Unbounded } else { StartBound::Included(lo) };
                let eb = match r.below(5) { 0 => EndBound::Unbounded, 1 | 2 => EndBound::Included(hi), 3 if r.chance(10) => EndBound::Excluded(I::ZERO), _ => EndBound::Excluded(hi) };
                let steps = if r.chance(50) { (n + 3).min(40) } else { r.below(6) as usize };
                let style = r.below(4);
                let script: Vec<bool> = (0..steps).map(|k| match style { 0 => true, 1 => false, 2 => k % 2 == 0, _ => r.chance(50) }).collect();
                let m = &ms[x].mock;
                let mut got: Vec<String> = vec![];
                let res = catch(|| { let mut it = m.iter((sb, eb)); for &f in &script { let e = if f { it.next() } else { it.next_back() };
                    got.push(match e { None => "[]".into(), Some((g, z, s)) => format!("[{},{},{},{},[-1]]", g.start.j(), g.end.j(), z.j(), s.look().j()) }) } });
                let (e_ok, e_got) = ms[x].model.iter_script(sb, eb, &script);
                let exp: Vec<String> = e_got.iter().map(|e| match e { None => "[]".into(), Some((s, d)) => format!("[{},{},{},{},[-1]]", s.j(), s.add_right(d.len).j(), d.len.j(), d.j()) }).collect();
                if res.is_ok() != e_ok || (e_ok && exp != got) || (!e_ok && !got.is_empty()) { bad!("iteration differs") }
                let (lj, hj) = jb(&sb, &eb);
                ev!("{{\"op\":\"iter\",\"t\":{t},\"lo\":{lj},\"hi\":{hj},\"out\":\"{}\",\"dir\":{},\"res\":{}}}", if res.is_ok() { "ok" } else { "panic" },
                    jl(&script.iter().map(|&f| if f { "1" } else { "0" }).collect::<Vec<_>>()), jl(&got))
            }
            14 => if n > 0 {
                let i = pick(&mut r, &ms[x].model);
                let m = &mut ms[x].mock;
                let res = catch(|| m.make_ref(i));
                let (k, _) = ms[x].model.locate(i);
                let id = ms[x].model.runs[k].id;
                match res {
                    Ok(rf) => { ms[x].refs.push((nref, rf, id)); ev!("{{\"op\":\"mkref\",\"t\":{t},\"i\":{},\"r\":{nref},\"out\":\"ok\"}}", i.j()); nref += 1 }
                    Err(_) => { bad!("make_ref panicked"); ev!("{{\"op\":\"mkref\",\"t\":{t},\"i\":{},\"r\":-1,\"out\":\"panic\"}}", i.j()) }
                }
            },
            15..=17 => if !ms[x].refs.is_empty() {
                let (id, rf, rid) = ms[x].refs[r.below(ms[x].refs.len() as u64) as usize];
                let m = &ms[x].mock;
                let res = catch(|| (m.ref_slice(&rf).map(|s| s.look()), m.ref_range(&rf), m.ref_size(&rf)));
                let exp = ms[x].model.find(rid).map(|(k, s)| (ms[x].model.runs[k].d, s));
                match res {
                    Ok((v, g, z)) => {
                        if v != exp.map(|e| e.0) || g != exp.map(|e| e.1..e.1.add_right(e.0.len)) || z != exp.map(|e| e.0.len) { bad!("reference differs") }
                        ev!("{{\"op\":\"mref\",\"r\":{id},\"out\":\"ok\",\"val\":{},\"range\":{},\"size\":{}}}", v.map_or("[]".into(), |d| d.j()),
                            g.map_or("[]".into(), |g| format!("[{},{}]", g.start.j(), g.end.j())), z.map_or("[]".into(), |z| format!("[{}]", z.j())))
                    }
                    Err(_) => { bad!("reference query panicked"); ev!("{{\"op\":\"mref\",\"r\":{id},\"out\":\"panic\"}}") }
                }
            },
            18 => {
                let neg = I::neg(&mut r);
                let far = if r.chance(50) { size } else { size.above(&mut r) };
                src += 1;
                let d = D { k: SOLO, s: 10 + src, lo: I::ZERO, len: I::rand_size(&mut r) };
                let far2 = size.above(&mut r);
                let m = &mut ms[x].mock;
                let (kind, i, z, res) = match r.below(8) {
                    0 | 1 => ("get", far, I::ZERO, catch(|| { let _ = m.get(far); })),
                    2 => ("get", far, I::ZERO, catch(|| { let _ = m.make_ref(far); })),
                    3 => ("insert", far2, d.len, catch(|| { m.insert(far2, Sl::new(d), d.len, false); })),
                    4 => ("insert", size, I::ZERO, catch(|| { m.insert(size, Sl::new(d), I::ZERO, false); })),
                    5 => ("new", I::ZERO, neg.unwrap_or(I::ZERO), catch(|| { let _ = Mock::<I, Sl<I, J>>::new(Sl::new(d), neg.unwrap_or(I::ZERO)); })),
                    6 if neg.is_some() => ("insert", neg.unwrap(), d.len, catch(|| { m.insert(neg.unwrap(), Sl::new(d), d.len, false); })),
                    _ if neg.is_some() => if r.chance(50) { ("insert", size, neg.unwrap(), catch(|| { m.insert(size, Sl::new(d), neg.unwrap(), false); })) } else { ("get", neg.unwrap(), I::ZERO, catch(|| { m.get(neg.unwrap()); })) },
                    _ => ("get", far, I::ZERO, catch(|| { let _ = m.get(far); })),
                };
                if res.is_ok() { bad!("bad {kind} accepted") }
                ev!("{{\"op\":\"bad\",\"t\":{t},\"kind\":\"{kind}\",\"i\":{},\"z\":{},\"out\":\"{}\"}}", i.j(), z.j(), if res.is_ok() { "ok" } else { "panic" })
            }
            _ => if ms[x].refs.is_empty() && live.len() < 4 {
                let m = &ms[x].mock;
                let res = catch(|| m.clone());
                let t2 = ms.len();
                match res {
                    Ok(m) => { let model = ms[x].model.clone(); ms.push(M { t: t2, mock: m, model, refs: vec![], alive: true }); ev!("{{\"op\":\"clone\",\"t\":{t},\"t2\":{t2},\"out\":\"ok\",\"copies\":0}}") }
                    Err(_) => { bad!("clone panicked"); ev!("{{\"op\":\"clone\",\"t\":{t},\"t2\":{t2},\"out\":\"panic\"}}") }
                }
            }
        }
    }
    let f = take_faults();
    if !f.is_empty() { bad!("faults {f:?}"); ev!("{{\"op\":\"fault\",\"faults\":{}}}", f.len()) }
    o
}
