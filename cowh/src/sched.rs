//! One thread runs at a time; who does changes only at the points where the crate operates on a
//! count (and, if so asked, before plain accesses), and between operations.
use crate::mem::{Mem, T};
use harness_alloc::untracked;
use sherman::verif::Event;
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::thread::Thread;

use crate::alloc as harness_alloc;
use crate::rt::Rng;

pub enum Policy {
    /// at these steps, go to that thread; go on otherwise
    Script(Vec<(usize, usize)>),
    /// switch with this probability (percent)
    Random(u64, Rng),
}
pub struct Sched {
    pub mem: Mem,
    pub policy: Policy,
    /// also before plain accesses
    pub fine: bool,
    pub step: usize,
    pub alive: [bool; T],
    /// thread that ran at each step, for the enumeration of preemptions
    pub ran: Vec<usize>,
    threads: [Option<Thread>; T],
}
static S: Mutex<Option<Sched>> = Mutex::new(None);
static TURN: AtomicUsize = AtomicUsize::new(0);
thread_local! { pub static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

pub fn with<R>(f: impl FnOnce(&mut Sched) -> R) -> R { untracked(|| f(S.lock().unwrap_or_else(|e| e.into_inner()).as_mut().expect("no session"))) }
pub fn begin(policy: Policy, fine: bool) {
    untracked(|| *S.lock().unwrap() = Some(Sched { mem: Mem::new(), policy, fine, step: 0, alive: [false; T], ran: vec![], threads: Default::default() }));
    TID.with(|t| t.set(0));
}
pub fn end() -> Sched { TID.with(|t| t.set(usize::MAX)); untracked(|| S.lock().unwrap().take().unwrap()) }

fn wait(me: usize) { let mut k = 0; while TURN.load(SeqCst) != me { k += 1; if k < 400 { std::hint::spin_loop() } else { std::thread::park_timeout(std::time::Duration::from_millis(1)) } } }
fn give(u: usize, h: Option<Thread>) { TURN.store(u, SeqCst); if let Some(h) = h { h.unpark() } }

/// Registers thread `t` (called by it); it goes on when it is its turn
pub fn enter(t: usize) {
    TID.with(|x| x.set(t));
    with(|s| { s.threads[t] = Some(std::thread::current()); s.alive[t] = true });
    wait(t);
}
/// The main thread lets the others run until all are done
pub fn go(n: usize) {
    loop { if with(|s| (1..=n).all(|t| s.alive[t])) { break } std::thread::yield_now() }
    let (u, h) = with(|s| { s.threads[0] = Some(std::thread::current()); let u = s.pick(0, n); (u, s.threads[u].clone()) });
    give(u, h);
    wait(0);
}
/// Thread `t` is done
pub fn leave(t: usize) {
    let (u, h) = with(|s| {
        s.alive[t] = false;
        let u = (1..T).find(|&u| s.alive[u]).map(|_| s.pick(t, T - 1)).unwrap_or(0);
        (u, s.threads[u].clone())
    });
    TID.with(|x| x.set(usize::MAX));
    give(u, h);
}
impl Sched {
    fn pick(&mut self, me: usize, _n: usize) -> usize {
        let c: Vec<usize> = (1..T).filter(|&u| self.alive[u]).collect();
        let step = self.step;
        self.step += 1;
        self.ran.push(me);
        let can = self.alive[me] && me != 0;
        match &mut self.policy {
            Policy::Script(v) => match v.iter().find(|x| x.0 == step) {
                Some((_, u)) if self.alive[*u] => *u,
                _ => if can { me } else { c[0] },
            },
            Policy::Random(p, r) => if can && !r.chance(*p) { me } else { c[r.below(c.len() as u64) as usize] },
        }
    }
}
/// Somebody else may go first
pub fn point() {
    let me = TID.with(|t| t.get());
    if me == 0 || me == usize::MAX { return }
    let u = with(|s| { let u = s.pick(me, T - 1); if u == me { None } else { Some((u, s.threads[u].clone())) } });
    if let Some((u, h)) = u { give(u, h); wait(me) }
}
pub fn on_event(e: Event) {
    let Ok(me) = TID.try_with(|t| t.get()) else { return };
    if me == usize::MAX { return }
    match e {
        Event::Point => { point(); return }
        Event::Read(_) | Event::Write(_) | Event::Free(_) => if with(|s| s.fine) { point() },
        _ => (),
    }
    with(|s| s.mem.event(me, e));
}
