//! Serialising trees and reading lists of runs back, recorded for TLC
use crate::alloc::{self, tracked, untracked};
use crate::ix::{He, Ix, Sg};
use crate::mockd::{jl, MOut};
use crate::model::Model;
use crate::par::{Par, Tree};
use crate::rt::*;
use crate::sl::{Sl, CAPPED, CONST, D, SOLO, SPAN};
use serde::de::{Deserialize, DeserializeOwned, Deserializer};
use serde::ser::{Impossible, Serialize, SerializeSeq, Serializer};
use sherman::RleTree;
use std::fmt::Write;

impl Serialize for Sg { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
impl<'d> Deserialize<'d> for Sg { fn deserialize<T: Deserializer<'d>>(d: T) -> Result<Self, T::Error> { Ok(Sg(i32::deserialize(d)?)) } }
impl Serialize for He { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { (self.0, self.1, self.2).serialize(s) } }
impl<'d> Deserialize<'d> for He { fn deserialize<T: Deserializer<'d>>(d: T) -> Result<Self, T::Error> { let (a, b, c) = Deserialize::deserialize(d)?; Ok(He(a, b, c)) } }
impl<I: Ix + Serialize, const J: bool> Serialize for Sl<I, J> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let d = self.look(); (d.len, d.k, d.s, d.lo).serialize(s) }
}
impl<'de, I: Ix + Deserialize<'de>, const J: bool> Deserialize<'de> for Sl<I, J> {
    fn deserialize<T: Deserializer<'de>>(d: T) -> Result<Self, T::Error> {
        let (len, k, s, lo) = Deserialize::deserialize(d)?;
        Ok(untracked(|| Sl::new(D { k, s, lo, len })))
    }
}

/// A serializer that only looks at the outermost sequence: the length announced and the number of
/// elements delivered
struct Probe;
struct Count(Option<usize>, usize);
#[derive(Debug)]
struct No;
impl std::fmt::Display for No { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("no") } }
impl std::error::Error for No {}
impl serde::ser::Error for No { fn custom<T: std::fmt::Display>(_: T) -> Self { No } }
macro_rules! no { ($($f:ident($($t:ty),*));* $(;)?) => { $( fn $f(self $(, _: $t)*) -> Result<Self::Ok, No> { Err(No) } )* } }
impl Serializer for Probe {
    type Ok = (Option<usize>, usize);
    type Error = No;
    type SerializeSeq = Count;
    type SerializeTuple = Impossible<Self::Ok, No>;
    type SerializeTupleStruct = Impossible<Self::Ok, No>;
    type SerializeTupleVariant = Impossible<Self::Ok, No>;
    type SerializeMap = Impossible<Self::Ok, No>;
    type SerializeStruct = Impossible<Self::Ok, No>;
    type SerializeStructVariant = Impossible<Self::Ok, No>;
    no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32);
        serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, No> { Err(No) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Self::Ok, No> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, No> { Err(No) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Count, No> { Ok(Count(n, 0)) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, No> { Err(No) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, No> { Err(No) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, No> { Err(No) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, No> { Err(No) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, No> { Err(No) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, No> { Err(No) }
}
impl SerializeSeq for Count {
    type Ok = (Option<usize>, usize);
    type Error = No;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), No> { self.1 += 1; Ok(()) }
    fn end(self) -> Result<Self::Ok, No> { Ok((self.0, self.1)) }
}

trait Any { fn obs(&self, t: usize, o: &mut String, bad: &mut Option<String>, runs: &[(String, String, String, String)]); fn ser(&self) -> (Result<String, String>, Result<(Option<usize>, usize), ()>, Result<String, String>); }
impl<I: Ix + Serialize, const J: bool, P: Par<I, J, M>, const M: usize> Any for Tree<I, J, P, M> {
    fn obs(&self, t: usize, o: &mut String, bad: &mut Option<String>, exp: &[(String, String, String, String)]) {
        let r = catch(|| self.iter(..).take(exp.len() + 5).map(|e| (e.range().start.j(), e.range().end.j(), e.size().j(), e.slice().look().j())).collect::<Vec<_>>());
        match r {
            Ok(v) => {
                if v != exp || self.number_of_slices() != exp.len() { *bad = Some("content differs".into()) }
                let _ = writeln!(o, "{{\"op\":\"obs\",\"t\":{t},\"out\":\"ok\",\"size\":{},\"n\":{},\"runs\":{}}}", self.size().j(), self.number_of_slices(), jl(&v.iter().map(|x| format!("[{},{},{},{}]", x.0, x.1, x.2, x.3)).collect::<Vec<_>>()));
            }
            Err(e) => { *bad = Some(format!("reading panicked {e}")); let _ = writeln!(o, "{{\"op\":\"obs\",\"t\":{t},\"out\":\"panic\"}}"); }
        }
    }
    fn ser(&self) -> (Result<String, String>, Result<(Option<usize>, usize), ()>, Result<String, String>) {
        (catch(|| serde_json::to_string(self).map_err(|e| e.to_string())).unwrap_or_else(Err), catch(|| self.serialize(Probe).map_err(|_| ())).unwrap_or(Err(())),
         catch(|| serde_json::to_value(self).map(|v| v.to_string()).map_err(|e| e.to_string())).unwrap_or_else(Err))
    }
}

fn expect<I: Ix>(m: &Model<I>) -> Vec<(String, String, String, String)> {
    m.starts().iter().zip(&m.runs).map(|(s, r)| (s.j(), s.add_right(r.d.len).j(), r.d.len.j(), r.d.j())).collect()
}

/// Trees of type P are built by insertions and serialised, and lists are read as trees of type Q
pub fn run<I: Ix + Serialize + DeserializeOwned, P: Par<I, J, M>, Q: Par<I, J, N>, const J: bool, const M: usize, const N: usize>(seed: u64, ops: usize) -> MOut {
    let mut r = Rng::new(seed);
    let mut o = MOut { lines: String::new(), suspect: None, events: 0 };
    let _ = take_faults();
    let base = live();
    let b0 = alloc::blocks();
    let _ = writeln!(o.lines, "{{\"op\":\"reset\",\"par\":\"{}\",\"ix\":\"{}\",\"m\":{M},\"j\":{J},\"seed\":{seed}}}", P::NAME, I::NAME);
    let mut src = 0u32;
    let mut slice = |r: &mut Rng, prev: Option<D<I>>| -> D<I> {
        src += 1;
        let len = I::rand_size(r);
        match r.below(6) {
            0 | 1 => D { k: CONST, s: r.below(3) as u32, lo: I::ZERO, len },
            2 | 3 => match prev { Some(p) if p.k == SPAN || (p.k == CAPPED && I::INT) => D { k: p.k, s: p.s, lo: p.lo.add_right(p.len), len },
                _ => D { k: if I::INT && r.chance(40) { CAPPED } else { SPAN }, s: 10 + src, lo: I::ZERO, len } },
            4 => D { k: SPAN, s: 10 + src, lo: if I::INT { I::of(r.below(9) as i64) } else { I::ZERO }, len },
            _ => D { k: SOLO, s: 10 + src, lo: I::ZERO, len },
        }
    };
    // a tree by insertions
    let mut t0: Box<Tree<I, J, P, M>> = Box::new(RleTree::new_empty());
    let mut m0: Model<I> = Model::new();
    let _ = writeln!(o.lines, "{{\"op\":\"new_empty\",\"t\":0,\"out\":\"ok\"}}");
    for _ in 0..ops {
        let n = m0.runs.len() as u64;
        let (mut i, mut prev) = (m0.size(), m0.runs.last().map(|x| x.d));
        if n > 0 && r.chance(60) {
            let k = r.below(n) as usize;
            let s = m0.starts()[k];
            i = if r.chance(50) { s } else { m0.runs[k].d.len.inside(&mut r).map_or(s, |p| s.add_right(p)) };
            prev = if i == s { if k > 0 { Some(m0.runs[k - 1].d) } else { None } } else { None };
        }
        let d = slice(&mut r, prev);
        if m0.double_join(i, &d, J) || (I::INT && m0.size().n() + d.len.n() > I::CAP as i64) { continue }
        log_start();
        let res = tracked(|| catch(|| t0.insert(i, untracked(|| Sl::new(d)), d.len)));
        let calls = log_stop();
        let sp: Vec<String> = calls.iter().filter_map(|c| match c { Call::Split(a, p) => Some(format!("[{a},{p}]")), _ => None }).collect();
        let jn: Vec<String> = calls.iter().filter_map(|c| match c { Call::Join(a, b, o) => Some(format!("[{a},{b},{o}]")), _ => None }).collect();
        let _ = writeln!(o.lines, "{{\"op\":\"insert\",\"t\":0,\"i\":{},\"new\":{},\"ref\":-1,\"out\":\"{}\",\"sp\":{},\"jn\":{},\"size\":{},\"n\":{},\"path\":[-1]}}",
            i.j(), d.j(), if res.is_ok() { "ok" } else { "panic" }, jl(&sp), jl(&jn), t0.size().j(), t0.number_of_slices());
        if res.is_err() { o.suspect = Some("insert panicked".into()); std::mem::forget(t0); return o }
        m0.insert(i, d, J);
    }
    (*t0).obs(0, &mut o.lines, &mut o.suspect, &expect(&m0));
    let (js, probe, val) = t0.ser();
    let want = jl(&m0.runs.iter().map(|x| format!("[{},{}]", x.d.len.j(), x.d.j())).collect::<Vec<_>>());
    let hint = match &probe { Ok((None, _)) => -1, Ok((Some(n), _)) => *n as i64, Err(_) => -2 };
    let cnt = probe.as_ref().map_or(-1, |p| p.1 as i64);
    if js.as_deref() != Ok(&want[..]) || val.as_deref() != Ok(&want[..]) || (hint != -1 && hint != m0.runs.len() as i64) || cnt != m0.runs.len() as i64 { o.suspect = Some("serialised form differs".into()) }
    let _ = writeln!(o.lines, "{{\"op\":\"ser\",\"t\":0,\"out\":\"{}\",\"list\":{},\"list2\":{},\"hint\":{hint},\"cnt\":{cnt}}}", if js.is_ok() && val.is_ok() { "ok" } else { "err" },
        js.as_deref().unwrap_or("[]"), val.as_deref().unwrap_or("[]"));
    // lists: the one just written, then any others, some of them not acceptable
    let mut ts: Vec<Box<Tree<I, J, Q, N>>> = vec![];
    for c in 0..5 {
        let t = 1 + ts.len();
        let (mut text, mut list): (String, Vec<(I, D<I>)>) = (String::new(), vec![]);
        let mut what = "list";
        if c == 0 { if let Ok(s) = &js { text = s.clone() } list = m0.runs.iter().map(|x| (x.d.len, x.d)).collect() }
        else {
            let most = if r.chance(30) { 40 } else { 8 };
            let n = r.below(most) as usize;
            let mut tot = I::ZERO;
            for _ in 0..n {
                let d = slice(&mut r, list.last().map(|x| x.1));
                if I::INT && tot.n() + d.len.n() > I::CAP as i64 { break }
                tot = tot.add_right(d.len);
                list.push((d.len, d));
            }
            if r.chance(35) {
                match r.below(3) {
                    0 if !list.is_empty() => { let k = r.below(list.len() as u64) as usize; list[k].0 = if r.chance(50) { I::ZERO } else { I::neg(&mut r).unwrap_or(I::ZERO) } }
                    1 => { list.clear(); what = "other"; }
                    _ => if !list.is_empty() { what = "cut" },
                }
            }
            text = jl(&list.iter().map(|x| format!("[{},{}]", x.0.j(), x.1.j())).collect::<Vec<_>>());
            if what == "other" { text = ["{}", "3", "null", "[[1]]", "[3]", "[[1,[1,3,5]]]", "[{}]", "[[]]", "\"x\"", "{\"a\":[[1,[1,3,5,0]]]}"][r.below(10) as usize].to_string() }
            if what == "cut" { let k = r.below(text.len() as u64 - 1) as usize; text.truncate(k) }
        }
        let lv = live();
        let via = r.below(3);
        let res: Result<Result<Box<Tree<I, J, Q, N>>, ()>, String> = catch(|| match via {
            0 => serde_json::from_str(&text).map(Box::new).map_err(|_| ()),
            1 => serde_json::from_reader(text.as_bytes()).map(Box::new).map_err(|_| ()),
            _ => match serde_json::from_str::<serde_json::Value>(&text) { Ok(v) => serde_json::from_value(v).map(Box::new).map_err(|_| ()), Err(_) => Err(()) },
        });
        let good = what == "list" && list.iter().all(|x| x.0 > I::ZERO);
        let out = match &res { Ok(Ok(_)) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" };
        if (out == "ok") != good || out == "panic" { o.suspect = Some(format!("reading {text} gave {out}")) }
        let lj = if what == "list" { jl(&list.iter().map(|x| format!("[{},{}]", x.0.j(), x.1.j())).collect::<Vec<_>>()) } else { "[]".into() };
        let _ = writeln!(o.lines, "{{\"op\":\"de\",\"t\":{t},\"what\":\"{what}\",\"list\":{lj},\"out\":\"{out}\",\"left\":{}}}", live() as i64 - lv as i64);
        match res {
            Ok(Ok(tree)) => {
                let mut m = Model::new();
                if good { for (_, d) in &list { m.insert(m.size(), *d, J); } }
                let mut b = None;
                (*tree).obs(t, &mut o.lines, &mut b, &expect(&m));
                if o.suspect.is_none() { o.suspect = b }
                ts.push(tree);
            }
            _ => if live() != lv { o.suspect = Some("slices left over".into()) },
        }
        if o.suspect.is_some() { break }
    }
    let _ = b0;
    if o.suspect.is_some() { std::mem::forget(t0); std::mem::forget(ts) } else {
        for (k, t) in ts.into_iter().enumerate() { let x = catch(|| drop(t)); if x.is_err() { o.suspect = Some("drop panicked".into()) } let _ = writeln!(o.lines, "{{\"op\":\"drop\",\"t\":{},\"out\":\"{}\"}}", k + 1, if x.is_ok() { "ok" } else { "panic" }); }
        let x = catch(|| tracked(|| drop(t0)));
        let _ = writeln!(o.lines, "{{\"op\":\"drop\",\"t\":0,\"out\":\"{}\"}}", if x.is_ok() { "ok" } else { "panic" });
        let f = NFAULTS.load(std::sync::atomic::Ordering::SeqCst);
        let left = live() as i64 - base as i64;
        if x.is_err() || f > 0 || left != 0 { o.suspect = Some(format!("{left} slices left, {f} faults")) }
        let _ = writeln!(o.lines, "{{\"op\":\"end\",\"live\":{left},\"blocks\":0,\"faults\":{f}}}");
    }
    o.events = o.lines.lines().count();
    o
}
