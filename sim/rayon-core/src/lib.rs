//! Simulated work-stealing scheduler with rayon-core's public API.
//!
//! The real `rayon` crate (all the parallel-iterator code) runs on top of this
//! unchanged.  Every decision that is nondeterministic with the real pool is
//! taken here from one seeded generator per OS thread:
//!   * how many worker threads the pool claims to have (drives chunking),
//!   * which of the two halves of a `join` runs first,
//!   * whether the second half was "stolen" (FnContext::migrated, which makes
//!     rayon's adaptive splitter split again),
//!   * in which order spawned tasks run.
//! With no simulation installed it behaves like a one-thread pool.
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug, Default)]
pub struct SimStats {
    pub joins: u64,
    pub swapped: u64,
    pub migrated: u64,
    pub spawned: u64,
    pub spawn_reordered: u64,
    /// rolling hash of the decision sequence: identifies the interleaving
    pub digest: u64,
}

#[derive(Clone, Copy)]
struct State {
    on: bool,
    rng: u64,
    threads: usize,
    swap_pct: u64,
    steal_pct: u64,
    stats: SimStats,
}

thread_local! {
    static ST: Cell<State> = const { Cell::new(State{on:false,rng:0,threads:1,swap_pct:0,steal_pct:0,
        stats: SimStats{joins:0,swapped:0,migrated:0,spawned:0,spawn_reordered:0,digest:0}}) };
    static DETACHED: RefCell<Vec<Box<dyn FnOnce() + Send>>> = const { RefCell::new(Vec::new()) };
    static WORKER: Cell<usize> = const { Cell::new(0) };
}

/// Install a seeded schedule on this OS thread.
pub fn sim_install(seed: u64, threads: usize, swap_pct: u64, steal_pct: u64) {
    ST.with(|s| {
        s.set(State {
            on: true,
            rng: seed ^ 0x9e37_79b9_7f4a_7c15,
            threads: threads.max(1),
            swap_pct,
            steal_pct,
            stats: SimStats::default(),
        })
    });
}
/// Remove it, returning what happened.
pub fn sim_remove() -> SimStats {
    drain();
    ST.with(|s| {
        let mut v = s.get();
        let r = v.stats;
        v.on = false;
        v.threads = 1;
        s.set(v);
        r
    })
}

fn draw(st: &mut State) -> u64 {
    st.rng = st.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = st.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
fn decide(pct: fn(&State) -> u64) -> bool {
    ST.with(|s| {
        let mut st = s.get();
        if !st.on {
            return false;
        }
        let p = pct(&st);
        let r = draw(&mut st) % 100 < p;
        st.stats.digest = st.stats.digest.wrapping_mul(0x1000_0000_01b3).wrapping_add(r as u64 + 1);
        s.set(st);
        r
    })
}
fn bump(f: fn(&mut SimStats)) {
    ST.with(|s| {
        let mut st = s.get();
        f(&mut st.stats);
        s.set(st)
    })
}
fn pick(n: usize) -> usize {
    ST.with(|s| {
        let mut st = s.get();
        if !st.on || n == 0 {
            return 0;
        }
        let r = (draw(&mut st) % n as u64) as usize;
        st.stats.digest = st.stats.digest.wrapping_mul(0x1000_0000_01b3).wrapping_add(r as u64 + 7);
        s.set(st);
        r
    })
}

pub fn max_num_threads() -> usize {
    u16::MAX as usize
}
pub fn current_num_threads() -> usize {
    ST.with(|s| s.get().threads)
}
pub fn current_thread_index() -> Option<usize> {
    Some(WORKER.with(|w| w.get()) % current_num_threads())
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    Some(false)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    Some(if run_one() { Yield::Executed } else { Yield::Idle })
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

fn on_other_worker<R>(f: impl FnOnce() -> R) -> R {
    let n = current_num_threads();
    let old = WORKER.with(|w| w.replace(pick(n)));
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            WORKER.with(|w| w.set(self.0))
        }
    }
    let _r = Reset(old);
    f()
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    bump(|s| s.joins += 1);
    let multi = current_num_threads() > 1;
    let stolen = multi && decide(|s| s.steal_pct);
    // only a stolen half can run before the local one
    let swap = stolen && decide(|s| s.swap_pct);
    if stolen {
        bump(|s| s.migrated += 1);
    }
    if swap {
        bump(|s| s.swapped += 1);
        let rb = on_other_worker(|| b(FnContext::new(true)));
        let ra = a(FnContext::new(false));
        (ra, rb)
    } else {
        let ra = a(FnContext::new(false));
        let rb = if stolen {
            on_other_worker(|| b(FnContext::new(true)))
        } else {
            b(FnContext::new(false))
        };
        (ra, rb)
    }
}

// ---- scopes -------------------------------------------------------------
type ScopedJob<'scope> = Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>;
pub struct Scope<'scope> {
    q: std::sync::Mutex<Vec<ScopedJob<'scope>>>,
    _m: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
impl<'scope> Scope<'scope> {
    fn new() -> Self {
        Scope { q: std::sync::Mutex::new(Vec::new()), _m: PhantomData }
    }
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        bump(|s| s.spawned += 1);
        self.q.lock().unwrap().push(Box::new(body));
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let n = current_num_threads();
        let body = std::sync::Arc::new(body);
        for i in 0..n {
            let b = body.clone();
            self.spawn(move |s| b(s, BroadcastContext { i, n, _m: PhantomData }));
        }
    }
    fn complete(&self) {
        loop {
            let job = {
                let mut q = self.q.lock().unwrap();
                if q.is_empty() {
                    break;
                }
                let k = pick(q.len());
                if k != 0 {
                    bump(|s| s.spawn_reordered += 1);
                }
                q.remove(k)
            };
            on_other_worker(|| job(self));
        }
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::new();
    let r = op(&s);
    s.complete();
    r
}
type ScopedFifoJob<'scope> = Box<dyn FnOnce(&ScopeFifo<'scope>) + Send + 'scope>;
pub struct ScopeFifo<'scope> {
    q: std::sync::Mutex<Vec<ScopedFifoJob<'scope>>>,
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        bump(|s| s.spawned += 1);
        self.q.lock().unwrap().push(Box::new(body));
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&ScopeFifo<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let n = current_num_threads();
        let body = std::sync::Arc::new(body);
        for i in 0..n {
            let b = body.clone();
            self.spawn_fifo(move |s| b(s, BroadcastContext { i, n, _m: PhantomData }));
        }
    }
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo { q: std::sync::Mutex::new(Vec::new()) };
    let r = op(&s);
    loop {
        let job = {
            let mut q = s.q.lock().unwrap();
            if q.is_empty() {
                break;
            }
            let k = pick(q.len());
            if k != 0 {
                bump(|s| s.spawn_reordered += 1);
            }
            q.remove(k)
        };
        on_other_worker(|| job(&s));
    }
    r
}

// ---- detached tasks -----------------------------------------------------
fn run_one() -> bool {
    let job = DETACHED.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_empty() {
            None
        } else {
            let k = pick(d.len());
            Some(d.remove(k))
        }
    });
    match job {
        Some(j) => {
            on_other_worker(j);
            true
        }
        None => false,
    }
}
pub fn drain() {
    while run_one() {}
}
pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    bump(|s| s.spawned += 1);
    DETACHED.with(|d| d.borrow_mut().push(Box::new(f)));
    if decide(|s| s.steal_pct) {
        run_one();
    }
}
pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(f)
}

// ---- broadcast ----------------------------------------------------------
pub struct BroadcastContext<'a> {
    i: usize,
    n: usize,
    _m: PhantomData<&'a ()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|i| op(BroadcastContext { i, n, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    spawn(move || {
        broadcast(|c| op(c));
    })
}

// ---- pools --------------------------------------------------------------
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("simulated pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Debug)]
pub struct ThreadBuilder;
#[derive(Debug)]
pub struct DefaultSpawn;
#[derive(Debug)]
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    _s: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder { n: 0, _s: PhantomData }
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: self.n })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        let old = ST.with(|s| {
            let mut v = s.get();
            let o = v.threads;
            if self.n > 0 {
                v.threads = self.n;
            }
            s.set(v);
            o
        });
        let r = op();
        ST.with(|s| {
            let mut v = s.get();
            v.threads = old;
            s.set(v)
        });
        r
    }
    pub fn current_num_threads(&self) -> usize {
        if self.n > 0 {
            self.n
        } else {
            current_num_threads()
        }
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
}
