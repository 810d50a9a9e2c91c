//! A controlled scheduler for two threads that run the formatter: every heap allocation of the code under test is a
//! scheduling point. The allocator counts down; at the chosen allocation the thread stops and the other one runs.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub struct Alloc;

#[derive(Clone, Copy)]
struct Stop {
    left: u64,
    at: *const Turn,
}

thread_local! {
    static STOP: Cell<Stop> = const { Cell::new(Stop { left: 0, at: std::ptr::null() }) };
}

#[inline]
fn tick() {
    let _ = STOP.try_with(|s| {
        let mut x = s.get();
        if x.left > 0 {
            x.left -= 1;
            s.set(x);
            if x.left == 0 && !x.at.is_null() {
                s.set(Stop { left: 0, at: std::ptr::null() });
                unsafe { &*x.at }.yield_to_other();
            }
        }
    });
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        System.realloc(p, l, n)
    }
}

/// One of the two threads, for the allocator.
struct Turn {
    me: usize,
    shared: *const Shared,
}

pub struct Shared {
    s: Mutex<State>,
    c: Condvar,
}

struct State {
    turn: usize,
    finished: [bool; 2],
    switches: u64,
    blocked: u64,
}

impl Turn {
    fn yield_to_other(&self) {
        let sh = unsafe { &*self.shared };
        let mut s = sh.s.lock().unwrap();
        let other = 1 - self.me;
        if s.finished[other] {
            return;
        }
        s.turn = other;
        s.switches += 1;
        sh.c.notify_all();
        // the other thread may need a lock that this one holds: then this one goes on
        while s.turn != self.me && !s.finished[other] {
            let (t, r) = sh.c.wait_timeout(s, Duration::from_millis(100)).unwrap();
            s = t;
            if r.timed_out() && s.turn != self.me && !s.finished[other] {
                s.blocked += 1;
                s.turn = self.me;
            }
        }
    }
}

pub struct Ran<R> {
    pub results: [R; 2],
    pub switches: u64,
    /// a thread was stopped in possession of something the other one needs
    pub blocked: u64,
}

/// Run `a` on this thread and `b` on another one: `a` stops at its `ka`-th allocation, then `b` runs until its `kb`-th
/// one (0: to its end), then `a` goes on to its end, then `b`.
pub fn interleave<R: Send>(a: impl FnOnce() -> R + Send, ka: u64, b: impl FnOnce() -> R + Send, kb: u64, pool: &Pool) -> Ran<R> {
    let sh = Arc::new(Shared { s: Mutex::new(State { turn: 0, finished: [false; 2], switches: 0, blocked: 0 }), c: Condvar::new() });
    let mut rb: Option<R> = None;
    let slot = &mut rb as *mut Option<R> as usize;
    let shb = sh.clone();
    let job: Box<dyn FnOnce() + Send> = Box::new(move || {
        {
            let mut s = shb.s.lock().unwrap();
            while s.turn != 1 && !s.finished[0] {
                s = shb.c.wait(s).unwrap();
            }
        }
        let r = stopping(1, kb, &shb, b);
        unsafe { *(slot as *mut Option<R>) = Some(r) };
        finish(&shb, 1);
    });
    // the job ends before this function does
    let job: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(job) };
    pool.give(job);
    let ra = stopping(0, ka, &sh, a);
    finish(&sh, 0);
    let mut s = sh.s.lock().unwrap();
    while !s.finished[1] {
        s = sh.c.wait(s).unwrap();
    }
    let (switches, blocked) = (s.switches, s.blocked);
    drop(s);
    pool.wait();
    Ran { results: [ra, rb.unwrap()], switches, blocked }
}

fn finish(sh: &Shared, me: usize) {
    let mut s = sh.s.lock().unwrap();
    s.finished[me] = true;
    s.turn = 1 - me;
    sh.c.notify_all();
}

fn stopping<R>(me: usize, k: u64, sh: &Shared, f: impl FnOnce() -> R) -> R {
    let t = Turn { me, shared: sh };
    STOP.with(|s| s.set(Stop { left: k, at: &t }));
    let r = f();
    STOP.with(|s| s.set(Stop { left: 0, at: std::ptr::null() }));
    r
}

/// The number of allocations of a call.
pub fn allocations<R>(f: impl FnOnce() -> R) -> u64 {
    STOP.with(|s| s.set(Stop { left: u64::MAX, at: std::ptr::null() }));
    let r = f();
    let n = STOP.with(|s| s.replace(Stop { left: 0, at: std::ptr::null() })).left;
    drop(r);
    u64::MAX - n
}

type Job = Box<dyn FnOnce() + Send>;

/// A partner thread.
pub struct Pool {
    q: Arc<(Mutex<(Option<Job>, bool, bool)>, Condvar)>,
}

impl Pool {
    pub fn new() -> Pool {
        let q: Arc<(Mutex<(Option<Job>, bool, bool)>, Condvar)> = Arc::new((Mutex::new((None, false, false)), Condvar::new()));
        let q2 = q.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || loop {
                let job = {
                    let mut s = q2.0.lock().unwrap();
                    loop {
                        if s.2 {
                            return;
                        }
                        if let Some(j) = s.0.take() {
                            s.1 = true;
                            break j;
                        }
                        s = q2.1.wait(s).unwrap();
                    }
                };
                job();
                q2.0.lock().unwrap().1 = false;
                q2.1.notify_all();
            })
            .expect("thread");
        Pool { q }
    }
    fn give(&self, j: Job) {
        self.q.0.lock().unwrap().0 = Some(j);
        self.q.1.notify_all();
    }
    fn wait(&self) {
        let mut s = self.q.0.lock().unwrap();
        while s.1 || s.0.is_some() {
            s = self.q.1.wait(s).unwrap();
        }
    }
}

impl Drop for Pool {
    fn drop(&mut self) {
        self.q.0.lock().unwrap().2 = true;
        self.q.1.notify_all();
    }
}
