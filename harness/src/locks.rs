//! What a blocking lock acquisition means while a check is running.
use parking_lot::hook::{self, Kind, LockHook};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

/// Panic payload: the call could only proceed after a lock held by its own thread is released.
pub struct WouldBlock;

struct Seq;
impl LockHook for Seq {
    fn acquire(&self, _addr: usize, _kind: Kind, attempt: &mut dyn FnMut() -> bool) -> bool {
        if !attempt() {
            BLOCKED.with(|b| b.set(b.get() + 1));
            std::panic::panic_any(WouldBlock)
        }
        true
    }
    fn released(&self, _addr: usize) {}
}
thread_local! {
    static BLOCKED: Cell<u64> = const { Cell::new(0) };
}
/// Single-threaded mode: an acquisition that would block for ever panics instead.
pub fn sequential() {
    SCHED.with(|s| *s.borrow_mut() = None);
    hook::set(Some(Arc::new(Seq)));
}
pub fn off() {
    SCHED.with(|s| *s.borrow_mut() = None);
    hook::set(None);
    hook::patience(None);
}
/// Really parallel mode: the locks are the real ones, but a thread that waits for one while
/// no thread finishes any call gives up after a while.
pub fn parallel() {
    off();
    hook::patience(Some((std::time::Duration::from_secs(12), || {
        if HEART.load(SeqCst) - LAST.load(SeqCst) >= 16 || gave_up() {
            GAVE_UP.store(true, SeqCst);
            std::panic::panic_any(WouldBlock)
        }
    })));
}
/// counts half seconds during which this process could run
static HEART: AtomicU64 = AtomicU64::new(0);
pub fn heart() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        HEART.fetch_add(1, SeqCst);
    });
}
/// when some thread last got somewhere
static LAST: AtomicU64 = AtomicU64::new(0);
static GAVE_UP: AtomicBool = AtomicBool::new(false);
/// Before the threads of a parallel run are started.
pub fn parallel_begins() {
    GAVE_UP.store(false, SeqCst);
    progress();
}
/// A thread of a parallel run got somewhere.
pub fn progress() {
    LAST.store(HEART.load(SeqCst), SeqCst)
}
pub fn gave_up() -> bool {
    GAVE_UP.load(SeqCst)
}
thread_local! {
    static SCHED: std::cell::RefCell<Option<(Arc<sched::Sched>, usize)>> = const { std::cell::RefCell::new(None) };
}
/// A place in the code of component types where a scheduled thread may be interrupted.
pub fn user_point() {
    let s = SCHED.try_with(|s| s.try_borrow().ok().and_then(|s| s.clone())).ok().flatten();
    if let Some((s, tid)) = s {
        s.point(tid)
    }
}

/// Multi-threaded mode: one thread runs at a time, and the schedule decides at every lock
/// operation which.
pub mod sched {
    use super::WouldBlock;
    use parking_lot::hook::Kind;
    use std::collections::HashMap;
    use std::sync::{Condvar, Mutex, MutexGuard};

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum St {
        New,
        Ready,
        Blocked(usize),
        Done,
    }
    #[derive(Default, Clone)]
    struct L {
        readers: usize,
        /// readers by thread
        by: HashMap<usize, usize>,
        writer: Option<usize>,
    }
    struct Inner {
        cur: usize,
        st: Vec<St>,
        /// thread waits exclusively for this lock
        wants: Vec<Option<usize>>,
        locks: HashMap<usize, L>,
        bytes: Vec<u8>,
        pos: usize,
        rate: u8,
        at: Option<(u64, usize)>,
        clock: u64,
        switches: u64,
        waits: u64,
        deadlock: Option<String>,
        names: Vec<usize>,
        trace: Vec<(usize, u64)>,
    }
    pub struct Sched {
        m: Mutex<Inner>,
        cv: Vec<Condvar>,
    }
    impl Sched {
        pub fn new(n: usize, bytes: Vec<u8>, rate: u8, at: Option<(u64, usize)>, first: usize) -> Sched {
            Sched {
                m: Mutex::new(Inner {
                    cur: first,
                    st: vec![St::New; n],
                    wants: vec![None; n],
                    locks: HashMap::new(),
                    bytes,
                    pos: 0,
                    rate,
                    at,
                    clock: 0,
                    switches: 0,
                    waits: 0,
                    deadlock: None,
                    names: vec![],
                    trace: vec![],
                }),
                cv: (0..n).map(|_| Condvar::new()).collect(),
            }
        }
        fn lock(&self) -> MutexGuard<'_, Inner> {
            self.m.lock().unwrap_or_else(|e| e.into_inner())
        }
        fn wait_turn<'a>(&'a self, mut g: MutexGuard<'a, Inner>, tid: usize) -> MutexGuard<'a, Inner> {
            while g.cur != tid && g.deadlock.is_none() {
                g = self.cv[tid].wait(g).unwrap_or_else(|e| e.into_inner());
            }
            g
        }
        pub fn start(&self, tid: usize) {
            let mut g = self.lock();
            g.st[tid] = St::Ready;
            if g.st.iter().all(|s| *s != St::New) {
                let c = g.cur;
                self.cv[c].notify_one();
            }
            // nobody runs before everybody is here
            while (g.cur != tid || g.st.iter().any(|s| *s == St::New)) && g.deadlock.is_none() {
                g = self.cv[tid].wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        fn byte(g: &mut Inner) -> Option<u8> {
            let b = g.bytes.get(g.pos).copied();
            g.pos += 1;
            b
        }
        fn switch(&self, g: &mut Inner, to: usize) {
            if g.cur != to {
                g.switches += 1;
                g.cur = to;
                let at = g.clock;
                g.trace.push((to, at));
                self.cv[to].notify_one();
            }
        }
        /// A point at which control may pass to another thread.
        pub fn point(&self, tid: usize) {
            let mut g = self.lock();
            if g.deadlock.is_some() {
                return;
            }
            g.clock += 1;
            let others: Vec<usize> = (0..g.st.len()).filter(|&t| t != tid && g.st[t] == St::Ready).collect();
            if others.is_empty() {
                return;
            }
            let to = match g.at {
                Some((when, to)) => {
                    if g.clock - 1 != when {
                        return;
                    }
                    others[to % others.len()]
                }
                None => {
                    let rate = g.rate;
                    match Self::byte(&mut g) {
                        Some(b) if b >= 255 - rate => others[b as usize % others.len()],
                        _ => return,
                    }
                }
            };
            self.switch(&mut g, to);
            drop(self.wait_turn(g, tid));
        }
        fn next_ready(&self, g: &mut Inner) -> bool {
            let ready: Vec<usize> = (0..g.st.len()).filter(|&t| g.st[t] == St::Ready).collect();
            if ready.is_empty() {
                return false;
            }
            let b = match g.at {
                Some((_, to)) => to,
                None => Self::byte(g).unwrap_or(0) as usize,
            };
            self.switch(g, ready[b % ready.len()]);
            true
        }
        pub fn finish(&self, tid: usize) {
            let mut g = self.lock();
            g.st[tid] = St::Done;
            if g.deadlock.is_some() {
                return;
            }
            if !self.next_ready(&mut g) && g.st.iter().any(|s| matches!(s, St::Blocked(_))) {
                self.give_up(&mut g);
            }
        }
        fn give_up(&self, g: &mut Inner) {
            let mut s = vec![];
            for (t, x) in g.st.iter().enumerate() {
                if let St::Blocked(a) = x {
                    let l = &g.locks[a];
                    let k = g.names.iter().position(|n| n == a).unwrap_or(0);
                    let holders: Vec<usize> = l.writer.into_iter().chain(l.by.iter().filter(|x| *x.1 > 0).map(|x| *x.0)).collect();
                    s.push(format!("thread {t} waits for lock #{k} held by {holders:?}"));
                }
            }
            g.deadlock = Some(s.join(", "));
            for c in &self.cv {
                c.notify_one();
            }
        }
        pub fn acquire(&self, tid: usize, addr: usize, kind: Kind, attempt: &mut dyn FnMut() -> bool) {
            self.point(tid);
            let mut g = self.lock();
            if !g.names.contains(&addr) {
                g.names.push(addr);
            }
            let excl = !matches!(kind, Kind::Shared | Kind::SharedRecursive | Kind::Upgradable);
            loop {
                if g.deadlock.is_some() {
                    drop(g);
                    std::panic::panic_any(WouldBlock)
                }
                let l = g.locks.entry(addr).or_default().clone();
                // a writer waiting for readers keeps new readers out
                let queued = kind == Kind::Shared && l.readers > 0 && (0..g.st.len()).any(|t| t != tid && g.wants[t] == Some(addr));
                if !queued && attempt() {
                    g.wants[tid] = None;
                    let l = g.locks.get_mut(&addr).unwrap();
                    if excl {
                        if kind == Kind::Upgrade {
                            l.readers -= 1;
                            *l.by.entry(tid).or_default() -= 1;
                        }
                        l.writer = Some(tid)
                    } else {
                        l.readers += 1;
                        *l.by.entry(tid).or_default() += 1;
                    }
                    return;
                }
                g.waits += 1;
                g.st[tid] = St::Blocked(addr);
                if excl {
                    g.wants[tid] = Some(addr);
                }
                if !self.next_ready(&mut g) {
                    self.give_up(&mut g);
                    continue;
                }
                g = self.wait_turn(g, tid);
            }
        }
        pub fn released(&self, tid: usize, addr: usize) {
            {
                let mut g = self.lock();
                let l = g.locks.entry(addr).or_default();
                if l.writer == Some(tid) {
                    l.writer = None
                } else {
                    let x = l.by.entry(tid).or_default();
                    if *x > 0 {
                        *x -= 1;
                        l.readers -= 1;
                    }
                }
                for t in 0..g.st.len() {
                    if g.st[t] == St::Blocked(addr) {
                        g.st[t] = St::Ready
                    }
                }
            }
            self.point(tid);
        }
        /// An exclusive hold became a shared one.
        pub fn downgraded(&self, tid: usize, addr: usize) {
            let mut g = self.lock();
            let l = g.locks.entry(addr).or_default();
            l.writer = None;
            l.readers += 1;
            *l.by.entry(tid).or_default() += 1;
            for t in 0..g.st.len() {
                if g.st[t] == St::Blocked(addr) {
                    g.st[t] = St::Ready
                }
            }
        }
        pub fn aborted(&self) -> bool {
            self.lock().deadlock.is_some()
        }
        pub fn clock(&self) -> u64 {
            self.lock().clock
        }
        pub fn switches(&self) -> u64 {
            self.lock().switches
        }
        pub fn waits(&self) -> u64 {
            self.lock().waits
        }
        pub fn deadlock(&self) -> Option<String> {
            self.lock().deadlock.clone()
        }
        pub fn fingerprint(&self) -> u64 {
            let g = self.lock();
            let mut h = 1469598103934665603u64;
            for (t, c) in &g.trace {
                h = (h ^ (*t as u64 * 1_000_003 + c)).wrapping_mul(0x100000001b3);
            }
            h
        }
        pub fn trace(&self) -> String {
            let g = self.lock();
            g.trace.iter().map(|(t, c)| format!("@{c}->{t}")).collect::<Vec<_>>().join(" ")
        }
    }
}
struct Multi(Arc<sched::Sched>, usize);
impl LockHook for Multi {
    fn acquire(&self, addr: usize, kind: Kind, attempt: &mut dyn FnMut() -> bool) -> bool {
        self.0.acquire(self.1, addr, kind, attempt);
        true
    }
    fn released(&self, addr: usize) {
        self.0.released(self.1, addr)
    }
    fn downgraded(&self, addr: usize) {
        self.0.downgraded(self.1, addr)
    }
}
pub fn scheduled(s: &Arc<sched::Sched>, tid: usize) {
    SCHED.with(|x| *x.borrow_mut() = Some((s.clone(), tid)));
    hook::set(Some(Arc::new(Multi(s.clone(), tid))));
}
