//! The table of everything `sherman::range` says about all range forms over a few ordered values.
use crate::mockd::jl;
use crate::rt::catch;
use sherman::range::{EndBound, RangeBounds, StartBound};
use std::io::Write;
use std::ops::*;

/// One range, written down independently of the crate
#[derive(Clone, Copy, PartialEq)]
pub struct F { form: &'static str, lo: (char, usize), hi: (char, usize) }
const N: usize = 4;

fn forms() -> Vec<F> {
    let mut v = vec![F { form: "full", lo: ('U', 0), hi: ('U', 0) }];
    for a in 0..N {
        v.push(F { form: "from", lo: ('I', a), hi: ('U', 0) });
        v.push(F { form: "to", lo: ('U', 0), hi: ('E', a) });
        v.push(F { form: "toi", lo: ('U', 0), hi: ('I', a) });
        for b in 0..N {
            v.push(F { form: "range", lo: ('I', a), hi: ('E', b) });
            v.push(F { form: "rangei", lo: ('I', a), hi: ('I', b) });
        }
    }
    for lo in std::iter::once(('U', 0)).chain((0..N).map(|a| ('I', a))) {
        for hi in std::iter::once(('U', 0)).chain((0..N).flat_map(|a| [('I', a), ('E', a)])) {
            v.push(F { form: "pair", lo, hi });
            v.push(F { form: "custom", lo, hi });
        }
    }
    v
}

/// A range type of the user, which only says what its bounds are
struct Custom<T>(StartBound<T>, EndBound<T>);
impl<T> RangeBounds<T> for Custom<T> {
    fn start_bound(&self) -> StartBound<&T> { match &self.0 { StartBound::Included(x) => StartBound::Included(x), StartBound::Unbounded => StartBound::Unbounded } }
    fn end_bound(&self) -> EndBound<&T> { match &self.1 { EndBound::Included(x) => EndBound::Included(x), EndBound::Excluded(x) => EndBound::Excluded(x), EndBound::Unbounded => EndBound::Unbounded } }
}

/// Calls `$g` with the range `$f` over owned values
macro_rules! with { ($f:expr, $v:expr, |$r:ident| $e:expr) => {{
    let (f, v) = ($f, $v);
    let sb = || if f.lo.0 == 'U' { StartBound::Unbounded } else { StartBound::Included(v[f.lo.1].clone()) };
    let eb = || match f.hi.0 { 'U' => EndBound::Unbounded, 'I' => EndBound::Included(v[f.hi.1].clone()), _ => EndBound::Excluded(v[f.hi.1].clone()) };
    match f.form {
        "full" => { let $r = ..; $e }
        "from" => { let $r = v[f.lo.1].clone()..; $e }
        "to" => { let $r = ..v[f.hi.1].clone(); $e }
        "toi" => { let $r = ..=v[f.hi.1].clone(); $e }
        "range" => { let $r = v[f.lo.1].clone()..v[f.hi.1].clone(); $e }
        "rangei" => { let $r = v[f.lo.1].clone()..=v[f.hi.1].clone(); $e }
        "pair" => { let $r = (sb(), eb()); $e }
        _ => { let $r = Custom(sb(), eb()); $e }
    }
}} }
/// ... over references to values (the trait is implemented for those as well)
macro_rules! with_ref { ($f:expr, $v:expr, |$r:ident| $e:expr) => {{
    let (f, v) = ($f, $v);
    let sb = || if f.lo.0 == 'U' { StartBound::Unbounded } else { StartBound::Included(&v[f.lo.1]) };
    let eb = || match f.hi.0 { 'U' => EndBound::Unbounded, 'I' => EndBound::Included(&v[f.hi.1]), _ => EndBound::Excluded(&v[f.hi.1]) };
    match f.form {
        "from" => { let $r = &v[f.lo.1]..; Some($e) }
        "to" => { let $r = ..&v[f.hi.1]; Some($e) }
        "toi" => { let $r = ..=&v[f.hi.1]; Some($e) }
        "range" => { let $r = &v[f.lo.1]..&v[f.hi.1]; Some($e) }
        "rangei" => { let $r = &v[f.lo.1]..=&v[f.hi.1]; Some($e) }
        "pair" => { let $r = (sb(), eb()); Some($e) }
        _ => None,
    }
}} }

fn row<T: Ord + Clone, R: RangeBounds<T>>(ty: &str, via: &str, f: &F, r: &R, v: &[T], all: &[F]) -> String {
    let rank = |x: &T| v.iter().position(|y| y == x).map_or(-1, |x| x as i64);
    let res = catch(|| {
        let lo = match r.start_bound() { StartBound::Unbounded => "[\"U\"]".to_string(), StartBound::Included(x) => format!("[\"I\",{}]", rank(x)) };
        let hi = match r.end_bound() { EndBound::Unbounded => "[\"U\"]".to_string(), EndBound::Included(x) => format!("[\"I\",{}]", rank(x)), EndBound::Excluded(x) => format!("[\"E\",{}]", rank(x)) };
        let lc = match r.start_bound().cloned() { StartBound::Unbounded => "[\"U\"]".to_string(), StartBound::Included(x) => format!("[\"I\",{}]", rank(&x)) };
        let hc = match r.end_bound().cloned() { EndBound::Unbounded => "[\"U\"]".to_string(), EndBound::Included(x) => format!("[\"I\",{}]", rank(&x)), EndBound::Excluded(x) => format!("[\"E\",{}]", rank(&x)) };
        let has: Vec<String> = v.iter().map(|x| r.contains(x).to_string()).collect();
        let mut ov = vec![];
        for g in all {
            let mut b = vec![];
            with!(g, v, |s| { b.push(r.overlaps_naive(&s)); b.push(r.overlaps_naive(&&s)); b.push(r.overlaps_naive(s)) });
            if let Some(x) = with_ref!(g, v, |s| r.overlaps_naive(s)) { b.push(x) }
            let x = b[0];
            let same = b.iter().all(|y| *y == x);
            let bl = |b: (char, usize)| if b.0 == 'U' { "[\"U\"]".to_string() } else { format!("[\"{}\",{}]", b.0, b.1) };
            ov.push(format!("[{},{},\"{}\"]", bl(g.lo), bl(g.hi), if same { x.to_string() } else { "differs".into() }));
        }
        format!("\"lo\":{lo},\"hi\":{hi},\"loc\":{lc},\"hic\":{hc},\"has\":{},\"after\":{},\"empty\":{},\"over\":{}", jl(&has), r.starts_after_end(), r.is_empty_naive(), jl(&ov))
    });
    let bl = |b: (char, usize)| if b.0 == 'U' { "[\"U\"]".to_string() } else { format!("[\"{}\",{}]", b.0, b.1) };
    format!("{{\"op\":\"range\",\"ty\":\"{ty}\",\"via\":\"{via}\",\"form\":\"{}\",\"wlo\":{},\"whi\":{},\"out\":\"{}\"{}}}\n", f.form, bl(f.lo), bl(f.hi), if res.is_ok() { "ok" } else { "panic" },
        res.map_or(String::new(), |x| format!(",{x}")))
}

fn table<T: Ord + Clone>(ty: &str, v: &[T], o: &mut impl Write) {
    let all = forms();
    for f in &all {
        let mut w = |s: String| { let _ = o.write_all(s.as_bytes()); };
        with!(f, v, |r| { w(row(ty, "val", f, &r, v, &all)); w(row(ty, "ref", f, &&r, v, &all)); w(row(ty, "refref", f, &&&r, v, &all)) });
        with_ref!(f, v, |r| w(row::<T, _>(ty, "elemref", f, &r, v, &all)));
    }
}

pub fn run(out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    // adjacent values, far values, extremes, and a type that is not a number
    table::<u8>("u8", &[0, 1, 2, 255], &mut o);
    table::<i64>("i64", &[i64::MIN, -1, 0, i64::MAX], &mut o);
    table::<String>("String", &["".into(), "a".into(), "aa".into(), "b".into()], &mut o);
    table::<crate::ix::He>("He", &[crate::ix::He(0, 0, 0), crate::ix::He(0, 0, 1), crate::ix::He(0, 1, -5), crate::ix::He(1, -3, 0)], &mut o);
}
