//! A deterministic scheduler: at any time exactly one program thread holds the token and runs; it
//! gives the token up only at scheduling points (instrumented atomics, locks and harness steps).
use crate::arena;
use dumpster::verif::Op;
use std::cell::Cell;
use std::sync::{Condvar, LazyLock, Mutex};
use std::time::Duration;

pub const MAXT: usize = 8;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
}

pub fn tid() -> usize {
    TID.try_with(Cell::get).unwrap_or(0)
}

pub fn set_tid(t: usize) {
    TID.with(|c| c.set(t));
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Absent,
    Ready,
    /// Waiting for some other thread to make a step (the value is the progress seen).
    Blocked(u64),
    Joining,
    Done,
}

#[derive(Clone, Debug)]
pub struct Directive {
    pub t: usize,
    /// Operation class: r read, w write, m modify, l lock, any otherwise.
    pub k: char,
    pub o: usize,
    pub off: i64,
    pub n: usize,
}

#[derive(Clone, Copy, Debug)]
pub enum Run {
    Points(usize),
    Ops(usize),
}

#[derive(Clone, Debug)]
pub enum Policy {
    /// Switch with the given percentage at each point.
    Rand(u64),
    /// Priorities with `d` change points over `k` steps.
    Pct(usize, u64),
    /// Run each thread in turn up to the described point.
    Dir(Vec<Directive>),
    /// Let each thread in turn run for a number of points, or until it has completed a number of
    /// operations, as far as it can.
    Runs(Vec<(usize, Run)>),
    /// Explicit choices, one per point (thread numbers), then the lowest runnable.
    List(Vec<u8>),
}

struct State {
    active: bool,
    cur: usize,
    st: [St; MAXT],
    progress: u64,
    steps: u64,
    rng: u64,
    policy: Policy,
    prio: [u64; MAXT],
    change: Vec<u64>,
    dir: usize,
    seen: usize,
    /// Operations completed.
    ops: [usize; MAXT],
    choices: Vec<u8>,
    foreign: bool,
    points: u64,
    switches: u64,
    last: [Option<(Op, usize)>; MAXT],
}

static STATE: Mutex<State> = Mutex::new(State {
    active: false,
    cur: 0,
    st: [St::Absent; MAXT],
    progress: 0,
    steps: 0,
    rng: 1,
    policy: Policy::Rand(0),
    prio: [0; MAXT],
    change: Vec::new(),
    dir: 0,
    seen: 0,
    ops: [0; MAXT],
    choices: Vec::new(),
    foreign: false,
    points: 0,
    switches: 0,
    last: [None; MAXT],
});
static CV: [Condvar; MAXT] = [const { Condvar::new() }; MAXT];
/// Print every step (for looking into a replay).
static TRACE: LazyLock<bool> = LazyLock::new(|| std::env::var_os("GCH_STEPS").is_some());
const MAX_STEPS: u64 = 40_000;

fn lock() -> std::sync::MutexGuard<'static, State> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

impl State {
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn runnable(&self) -> Vec<usize> {
        let others_done = |me: usize| {
            (0..MAXT).all(|t| t == me || matches!(self.st[t], St::Done | St::Absent))
        };
        (0..MAXT)
            .filter(|&t| match self.st[t] {
                St::Ready => true,
                St::Blocked(p) => p < self.progress,
                St::Joining => others_done(t),
                _ => false,
            })
            .collect()
    }

    fn more(&self, t: usize, n: Run) -> bool {
        match n {
            Run::Points(n) => self.seen < n,
            Run::Ops(n) => self.ops[t] < n,
        }
    }

    /// Choose who runs next; `me` just arrived at a point described by `at`.
    fn choose(&mut self, me: usize, at: Option<(Op, usize)>) -> Option<usize> {
        let run = self.runnable();
        if run.is_empty() {
            return None;
        }
        self.points += 1;
        let me_ok = run.contains(&me);
        let policy = std::mem::replace(&mut self.policy, Policy::Rand(0));
        let c = match &policy {
            Policy::Rand(p) => {
                if me_ok && self.rand() % 100 >= *p {
                    me
                } else {
                    run[(self.rand() as usize) % run.len()]
                }
            }
            Policy::Pct(..) => {
                if self.change.first() == Some(&self.steps) {
                    self.change.remove(0);
                    let low = self.prio.iter().copied().min().unwrap();
                    self.prio[me] = low.saturating_sub(1);
                }
                *run.iter().max_by_key(|&&t| self.prio[t]).unwrap()
            }
            Policy::List(v) => {
                let want = v.get(self.choices.len()).map(|&b| b as usize);
                match want {
                    Some(t) if run.contains(&t) => t,
                    _ if me_ok => me,
                    _ => run[0],
                }
            }
            Policy::Runs(v) => loop {
                match v.get(self.dir) {
                    Some(&(t, n)) if self.more(t, n) && run.contains(&t) => {
                        self.seen += 1;
                        break t;
                    }
                    Some(_) => {
                        self.dir += 1;
                        self.seen = 0;
                    }
                    None if me_ok => break me,
                    None => break run[0],
                }
            },
            Policy::Dir(v) => {
                // has the current directive been reached?
                if let (Some(d), Some((op, addr))) = (v.get(self.dir), at) {
                    if d.t == me && matches(d, op, addr) {
                        self.seen += 1;
                        if self.seen >= d.n {
                            self.dir += 1;
                            self.seen = 0;
                        }
                    }
                }
                loop {
                    match v.get(self.dir) {
                        Some(d) if run.contains(&d.t) => break d.t,
                        Some(_) => {
                            self.dir += 1;
                            self.seen = 0;
                        }
                        None if me_ok => break me,
                        None => break run[0],
                    }
                }
            }
        };
        self.policy = policy;
        self.choices.push(c as u8);
        if c != me {
            self.switches += 1;
        }
        Some(c)
    }
}

fn matches(d: &Directive, op: Op, addr: usize) -> bool {
    let (o, off) = arena::lookup(addr);
    let k = match op {
        Op::Load => 'r',
        Op::Store => 'w',
        Op::Rmw => 'm',
        Op::Fence => 'f',
        Op::Lock | Op::Blocked => 'l',
        Op::Unlocked => 'u',
    };
    (d.k == '*' || d.k == k) && (o == d.o) && (d.off < 0 || d.off as usize == off)
}

/// Start scheduling; the caller is thread 0 and keeps the token.
pub fn start(policy: Policy, seed: u64, threads: usize) {
    let mut s = lock();
    s.active = true;
    s.cur = 0;
    s.progress = 1;
    s.steps = 0;
    s.rng = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for _ in 0..4 {
        s.rand();
    }
    s.dir = 0;
    s.seen = 0;
    s.ops = [0; MAXT];
    s.choices.clear();
    s.points = 0;
    s.switches = 0;
    s.change.clear();
    if let Policy::Pct(d, k) = policy {
        for t in 0..MAXT {
            s.prio[t] = 1_000_000 + s.rand() % 1_000_000;
        }
        let mut ch: Vec<u64> = (0..d).map(|_| 1 + s.rand() % k.max(1)).collect();
        ch.sort_unstable();
        ch.dedup();
        s.change = ch;
    }
    s.policy = policy;
    for t in 0..MAXT {
        s.st[t] = if t < threads { St::Ready } else { St::Absent };
    }
    ON.with(|o| o.set(true));
}

pub fn stats() -> (u64, u64, bool) {
    let s = lock();
    (s.points, s.switches, s.foreign)
}

/// First thing a program thread does: wait for its first turn.
pub fn enter(t: usize) {
    set_tid(t);
    let s = lock();
    wait(s, t);
    ON.with(|o| o.set(true));
}

fn wait(mut s: std::sync::MutexGuard<'static, State>, t: usize) {
    let mut last = (s.steps, 0u32);
    while s.active && s.cur != t {
        let (g, to) = CV[t].wait_timeout(s, Duration::from_millis(500)).unwrap_or_else(|e| {
            let (g, _) = e.into_inner();
            (g, unsafe { std::mem::zeroed() })
        });
        s = g;
        if to.timed_out() && s.active && s.cur != t {
            // Does the holder of the token make progress?  If it does not, it waits in code that
            // is not instrumented; let somebody else run.
            if s.steps == last.0 {
                last.1 += 1;
            } else {
                last = (s.steps, 0);
            }
            if last.1 >= 6 {
                last.1 = 0;
                let cur = s.cur;
                s.foreign = true;
                let next = s.runnable().into_iter().find(|&x| x != cur);
                match next {
                    Some(n) => {
                        s.cur = n;
                        s.steps += 1;
                        CV[n].notify_all();
                    }
                    None => fatal(s, "hang"),
                }
            }
        }
    }
}

fn fatal(s: std::sync::MutexGuard<'static, State>, what: &str) -> ! {
    if std::env::var_os("GCH_DEBUG").is_some() {
        for t in 0..MAXT {
            if s.st[t] != St::Absent {
                let l = s.last[t].map(|(op, a)| (op, a, arena::lookup(a)));
                eprintln!("{what}: thread {t} {:?} last {l:x?}", s.st[t]);
            }
        }
        eprintln!("{}", std::backtrace::Backtrace::force_capture());
    }
    drop(s);
    crate::ev!("[\"{}\",{}]", what, tid());
    crate::finish_process(if what == "dl" { 3 } else { 4 });
}

fn step(op: Option<(Op, usize)>) {
    let me = tid();
    let mut s = lock();
    if !s.active {
        return;
    }
    s.steps += 1;
    if *TRACE {
        eprintln!("step {me} {:x?}", op.map(|(o, a)| (o, a, arena::lookup(a))));
    }
    s.last[me] = op;
    if s.steps > MAX_STEPS {
        fatal(s, "hang");
    }
    if matches!(op, Some((Op::Blocked, _))) {
        let p = s.progress;
        s.st[me] = St::Blocked(p);
    } else {
        s.progress += 1;
        s.st[me] = St::Ready;
    }
    switch(s, me, op);
}

fn switch(mut s: std::sync::MutexGuard<'static, State>, me: usize, op: Option<(Op, usize)>) {
    match s.choose(me, op) {
        None => fatal(s, "dl"),
        Some(n) => {
            s.cur = n;
            if n != me {
                CV[n].notify_all();
                wait(s, me);
            }
        }
    }
}

/// Blocked while not being scheduled: wait for a thread that might be about to end, then give up.
fn stuck() {
    static SINCE: Mutex<Option<(std::time::Instant, u64)>> = Mutex::new(None);
    let mut since = SINCE.lock().unwrap_or_else(|e| e.into_inner());
    let s = lock();
    match *since {
        Some((t, steps)) if steps == s.steps => {
            let limit = if s.active { 4000 } else { 400 };
            let waited = t.elapsed().as_millis();
            if waited > limit && waited < 3 * limit {
                fatal(s, "dl");
            } else if waited >= 3 * limit {
                // an earlier episode
                *since = Some((std::time::Instant::now(), steps));
            }
        }
        _ => *since = Some((std::time::Instant::now(), s.steps)),
    }
    drop(since);
    std::thread::sleep(Duration::from_micros(200));
}

/// The hook called by the instrumented primitives.
pub fn hook(op: Op, addr: usize) {
    if op == Op::Unlocked {
        return;
    }
    if !ON.try_with(Cell::get).unwrap_or(false) {
        if op == Op::Blocked {
            arena::untracked(stuck);
        }
        return;
    }
    arena::untracked(|| step(Some((op, addr))));
}

/// Run `f` without scheduling points.
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    let old = ON.with(|o| o.replace(false));
    let r = f();
    ON.with(|o| o.set(old));
    r
}

/// A scheduling point of the harness itself.
pub fn point() {
    if ON.with(Cell::get) {
        step(None);
    }
}

/// The calling thread completed an operation.
pub fn op_done() {
    if ON.with(Cell::get) {
        let me = tid();
        lock().ops[me] += 1;
        step(None);
    }
}

/// The calling thread cannot proceed right now.  Returns false if it never will (not scheduled).
pub fn blocked(addr: usize) -> bool {
    if !ON.with(Cell::get) {
        return false;
    }
    step(Some((Op::Blocked, addr)));
    true
}

/// Wait until all other threads are done.
pub fn join_all() {
    let me = tid();
    let mut s = lock();
    if !s.active {
        return;
    }
    s.progress += 1;
    s.st[me] = St::Joining;
    switch(s, me, None);
    let mut s = lock();
    s.active = false;
    s.st[me] = St::Ready;
    ON.with(|o| o.set(false));
}

/// The calling thread is finished.
pub fn leave() {
    let me = tid();
    let _ = ON.try_with(|o| o.set(false));
    let mut s = lock();
    if !s.active {
        return;
    }
    s.st[me] = St::Done;
    s.progress += 1;
    match s.choose(me, None) {
        None => fatal(s, "dl"),
        Some(n) => {
            s.cur = n;
            CV[n].notify_all();
        }
    }
}
