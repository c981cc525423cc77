//! Interpreter for programs.
use crate::heap::{s, u, Cell2, Ptr, H};
use crate::{arena, ev, sched};
use std::any::Any as StdAny;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// Payload of panics the program asked for.
pub struct Scripted;

pub const NREG: usize = 16;
const TMP: usize = 17;
const TMP2: usize = 18;
pub const NSTASH: usize = 20;

pub fn rloc(t: usize, r: usize) -> usize {
    1000 + t * 20 + r
}
fn hloc(t: usize, i: usize) -> usize {
    3000 + t * 1000 + i
}
fn sloc(o: usize, s: usize) -> usize {
    100_000 + o * 64 + s
}
fn xloc(k: usize) -> usize {
    900 + k
}

pub struct Program {
    pub id: String,
    pub flags: Vec<(String, String)>,
    pub threads: Vec<Vec<String>>,
}

impl Program {
    pub fn parse(line: &str) -> Option<Program> {
        let mut parts = line.split(';');
        let head: Vec<&str> = parts.next()?.split_whitespace().collect();
        if head.len() < 2 || head[0] != "P" {
            return None;
        }
        let flags = head
            .get(2)
            .map(|f| {
                f.split(',')
                    .filter_map(|kv| kv.split_once('='))
                    .map(|(a, b)| (a.to_string(), b.to_string()))
                    .collect()
            })
            .unwrap_or_default();
        let threads = parts
            .map(|p| p.split_whitespace().map(str::to_string).collect())
            .collect();
        Some(Program {
            id: head[1].to_string(),
            flags,
            threads,
        })
    }
    pub fn flag(&self, k: &str) -> Option<&str> {
        self.flags.iter().find(|(a, _)| a == k).map(|(_, b)| b.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.flag(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    /// Does the program touch process-wide collector state?
    pub fn isolated(&self) -> bool {
        self.flag("iso").is_some()
    }
    pub fn policy(&self) -> sched::Policy {
        let v: Vec<&str> = self.flag("sch").unwrap_or("rand:0").split(':').collect();
        let n = |i: usize, d: u64| v.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
        match v[0] {
            "pct" => sched::Policy::Pct(n(1, 3) as usize, n(2, 100)),
            "list" => sched::Policy::List(v.get(1).unwrap_or(&"").bytes().map(|b| b - b'0').collect()),
            "runs" => sched::Policy::Runs(
                v[1..]
                    .iter()
                    .filter_map(|d| d.split_once('.'))
                    .filter_map(|(t, k)| {
                        let n = match k.strip_prefix('@') {
                            Some(k) => sched::Run::Ops(k.parse().ok()?),
                            None => sched::Run::Points(k.parse().ok()?),
                        };
                        Some((t.parse().ok()?, n))
                    })
                    .collect(),
            ),
            "dir" => sched::Policy::Dir(
                v[1..]
                    .iter()
                    .filter_map(|d| {
                        // t/k/o/off/n
                        let f: Vec<&str> = d.split('/').collect();
                        Some(sched::Directive {
                            t: f.first()?.parse().ok()?,
                            k: f.get(1)?.chars().next()?,
                            o: f.get(2)?.parse().ok()?,
                            off: f.get(3)?.parse().ok()?,
                            n: f.get(4)?.parse().ok()?,
                        })
                    })
                    .collect(),
            ),
            _ => sched::Policy::Rand(n(1, 30)),
        }
    }
}

struct Stash(std::cell::UnsafeCell<[Option<H>; NSTASH]>);
unsafe impl Sync for Stash {}
static STASH: Stash = Stash(std::cell::UnsafeCell::new([const { None }; NSTASH]));
#[allow(clippy::mut_from_ref)]
fn stash() -> &'static mut [Option<H>; NSTASH] {
    unsafe { &mut *STASH.0.get() }
}

struct Scripts(std::cell::UnsafeCell<Vec<String>>);
unsafe impl Sync for Scripts {}
static SCRIPTS: Scripts = Scripts(std::cell::UnsafeCell::new(Vec::new()));
#[allow(clippy::mut_from_ref)]
fn scripts() -> &'static mut Vec<String> {
    unsafe { &mut *SCRIPTS.0.get() }
}

static NEXT_ID: AtomicUsize = AtomicUsize::new(0);
static QUIET: AtomicUsize = AtomicUsize::new(0);
static EVERY: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];

thread_local! {
    static DEPTH: Cell<usize> = const { Cell::new(0) };
    static PROBE: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static CONDS: Cell<[char; 2]> = const { Cell::new(['D', 'D']) };
}
static SCOND: AtomicUsize = AtomicUsize::new('D' as usize);

macro_rules! conds {
    ($m:ident, $dom:expr) => {
        pub mod $m {
            use super::*;
            use dumpster::$m::{default_collect_condition, set_collect_condition, CollectInfo};
            fn out(i: &CollectInfo, r: bool, c: u8) -> bool {
                let (d, n) = (i.n_gcs_dropped_since_last_collect(), i.n_gcs_existing());
                ev!("[\"cb\",{},{},{},{},{},{}]", sched::tid(), $dom, d, n, r as u8, c);
                r
            }
            fn never(i: &CollectInfo) -> bool {
                out(i, false, 0)
            }
            fn always(i: &CollectInfo) -> bool {
                out(i, true, 1)
            }
            fn default(i: &CollectInfo) -> bool {
                let r = default_collect_condition(i);
                out(i, r, 2)
            }
            fn third(i: &CollectInfo) -> bool {
                out(i, EVERY[$dom].fetch_add(1, SeqCst) % 3 == 2, 3)
            }
            fn quiet(_: &CollectInfo) -> bool {
                QUIET.fetch_add(1, SeqCst);
                false
            }
            fn probe(i: &CollectInfo) -> bool {
                PROBE.with(|p| p.set((i.n_gcs_dropped_since_last_collect(), i.n_gcs_existing())));
                false
            }
            pub fn set(c: char) {
                set_collect_condition(match c {
                    'n' => never,
                    'a' => always,
                    'd' => default,
                    '3' => third,
                    'q' => quiet,
                    'p' => probe,
                    _ => default_collect_condition,
                });
            }
        }
    };
}
conds!(unsync, 0);
conds!(sync, 1);

fn set_cond(dom: usize, c: char) {
    if dom == 0 {
        unsync::set(c);
    } else {
        sync::set(c);
    }
}

fn cond_in_force(dom: usize) -> char {
    if dom == 0 {
        CONDS.with(Cell::get)[0]
    } else {
        SCOND.load(SeqCst) as u8 as char
    }
}

fn note_cond(dom: usize, c: char) {
    if dom == 0 {
        CONDS.with(|x| x.set([c, 'D']));
    } else {
        SCOND.store(c as usize, SeqCst);
    }
}

fn collect(dom: usize) {
    if dom == 0 {
        dumpster::unsync::collect();
    } else {
        dumpster::sync::collect();
    }
}

pub fn begin_drop(id: usize, ok: bool) {
    ev!("[\"vd\",{},{},{}]", sched::tid(), id, ok as u8);
    DEPTH.with(|d| d.set(d.get() + 1));
}

pub fn end_drop(id: usize) {
    DEPTH.with(|d| d.set(d.get() - 1));
    ev!("[\"ve\",{},{}]", sched::tid(), id);
}

fn digit(c: Option<char>) -> usize {
    c.and_then(|c| c.to_digit(36)).unwrap_or(0) as usize
}

/// Drop a pointer that is recorded to be at `loc`.
fn drop_at(loc: usize, h: H) {
    ev!("[\"dr\",{},{}]", sched::tid(), loc);
    drop(h);
}

fn fresh_id() -> usize {
    NEXT_ID.fetch_add(1, SeqCst) + 1
}

fn make(o: usize, kind: &str, init: Option<H>) -> Option<(H, u8)> {
    let mut k = kind.chars();
    let dom = k.next()?;
    let pay = k.next().unwrap_or('n');
    let ck = k.next().unwrap_or(if dom == 'u' { 'r' } else { 'm' });
    let node = !matches!(pay, 'l' | 'a' | 'z');
    let h = if dom == 'u' {
        H::U(u::create(o, pay, ck, init))
    } else {
        let ck = if ck == 'r' { 'm' } else { ck };
        let init = match init.map(s::from_h) {
            Some(Ok(v)) => Some(v),
            Some(Err(_)) => return None,
            None => None,
        };
        H::S(s::create(o, pay, ck, init))
    };
    Some((h, node as u8))
}

/// The actions a destructor takes, in terms of the dying object's slots and the stash.
pub fn drop_script<V: Ptr>(
    id: usize,
    slots: &mut [&mut Cell2<V>],
    to_h: fn(V) -> H,
    from_h: fn(H) -> Result<V, H>,
) {
    let script = match scripts().get(id) {
        Some(x) if !x.is_empty() => x.clone(),
        _ => return,
    };
    let t = sched::tid();
    for act in script.split('.') {
        let mut c = act.chars();
        let op = c.next().unwrap_or(' ');
        let (a1, a2) = (c.next(), c.next());
        let (a, b) = (digit(a1), digit(a2));
        match op {
            // look at a slot
            't' => {
                if let Some(Some(v)) = slots.get_mut(a).map(|x| x.get_mut().as_ref()) {
                    let r = v.p_try_deref();
                    ev!("[\"rd\",{},{},1,{}]", t, sloc(id, a), r);
                }
            }
            // dereference a slot the panicking way
            'D' => {
                if let Some(Some(v)) = slots.get_mut(a).map(|x| x.get_mut().as_ref()) {
                    let r = catch_unwind(AssertUnwindSafe(|| v.p_deref())).unwrap_or(0);
                    ev!("[\"rd\",{},{},0,{}]", t, sloc(id, a), r);
                }
            }
            // clone a slot the panicking way and drop the clone
            'K' => {
                if let Some(Some(v)) = slots.get_mut(a).map(|x| x.get_mut().as_ref()) {
                    match catch_unwind(AssertUnwindSafe(|| v.p_clone())) {
                        Ok(h) => {
                            ev!("[\"tc\",{},{},{},1]", t, sloc(id, a), rloc(t, TMP2));
                            drop_at(rloc(t, TMP2), h);
                        }
                        Err(_) => ev!("[\"tc\",{},{},{},0]", t, sloc(id, a), rloc(t, TMP2)),
                    }
                }
            }
            // clone a slot into the stash
            'c' => {
                if let Some(Some(v)) = slots.get_mut(a).map(|x| x.get_mut().as_ref()) {
                    if stash()[b].is_none() {
                        match v.p_try_clone() {
                            Some(h) => {
                                ev!("[\"tc\",{},{},{},1]", t, sloc(id, a), xloc(b));
                                stash()[b] = Some(h);
                            }
                            None => ev!("[\"tc\",{},{},{},0]", t, sloc(id, a), xloc(b)),
                        }
                    }
                }
            }
            // move a slot into the stash
            'm' => {
                if let Some(slot) = slots.get_mut(a) {
                    if slot.get_mut().is_some() && stash()[b].is_none() {
                        let r = slot.get_mut().as_ref().unwrap().p_try_deref();
                        ev!("[\"rd\",{},{},1,{}]", t, sloc(id, a), r);
                        let v = slot.get_mut().take().unwrap();
                        ev!("[\"mv\",{},{},{}]", t, sloc(id, a), xloc(b));
                        stash()[b] = Some(to_h(v));
                    }
                }
            }
            // drop the contents of a slot early
            'e' => {
                if let Some(slot) = slots.get_mut(a) {
                    if slot.get_mut().is_some() {
                        let r = slot.get_mut().as_ref().unwrap().p_try_deref();
                        ev!("[\"rd\",{},{},1,{}]", t, sloc(id, a), r);
                        let v = slot.get_mut().take().unwrap();
                        drop_at(sloc(id, a), to_h(v));
                    }
                }
            }
            // collect
            'g' => {
                ev!("[\"cs\",{},{}]", t, a);
                collect(a);
                ev!("[\"ce\",{},{}]", t, a);
            }
            // create a value and drop it
            'n' => {
                let o = fresh_id();
                let kind = if a == 0 { "ul" } else { "sl" };
                if let Some((h, node)) = make(o, kind, None) {
                    ev!("[\"new\",{},{},{},{},{}]", t, o, rloc(t, TMP2), node, a);
                    drop_at(rloc(t, TMP2), h);
                }
            }
            // create a node in the stash
            'N' => {
                if stash()[b].is_none() {
                    let o = fresh_id();
                    let kind = if a == 0 { "u" } else { "s" };
                    if let Some((h, node)) = make(o, kind, None) {
                        ev!("[\"new\",{},{},{},{},{}]", t, o, xloc(b), node, a);
                        stash()[b] = Some(h);
                    }
                }
            }
            // create a self-referential node and abandon it
            'Y' => {
                let o = fresh_id();
                let kind = if a == 0 { "u" } else { "s" };
                if let Some((h, node)) = make(o, kind, None) {
                    ev!("[\"new\",{},{},{},{},{}]", t, o, rloc(t, TMP2), node, a);
                    let h2 = h.clone();
                    ev!("[\"cl\",{},{},{}]", t, rloc(t, TMP2), sloc(o, 0));
                    let rest = put(&h, 0, h2);
                    drop(rest);
                    drop_at(rloc(t, TMP2), h);
                }
            }
            // drop from the stash
            'd' => {
                if let Some(h) = stash()[a].take() {
                    drop_at(xloc(a), h);
                }
            }
            // move from the stash into an own slot
            'o' => {
                if let Some(slot) = slots.get_mut(b) {
                    let h = if slot.get_mut().is_none() { stash()[a].take() } else { None };
                    match h.map(from_h) {
                        Some(Ok(v)) => {
                            ev!("[\"mv\",{},{},{}]", t, xloc(a), sloc(id, b));
                            *slot.get_mut() = Some(v);
                        }
                        Some(Err(h)) => stash()[a] = Some(h),
                        None => (),
                    }
                }
            }
            // read through the stash
            'r' => {
                if let Some(h) = stash()[a].as_ref() {
                    let r = h.try_deref();
                    ev!("[\"rd\",{},{},1,{}]", t, xloc(a), r);
                }
            }
            // move stash b into slot 0 of the object stash a points to
            'S' => {
                let dead = stash()[a].as_ref().map_or(true, |h| h.try_deref() == 0);
                if !dead && a != b && stash()[b].is_some() {
                    let h2 = stash()[b].take().unwrap();
                    ev!("[\"mv\",{},{},{}]", t, xloc(b), rloc(t, TMP2));
                    let target = stash()[a].as_ref().unwrap().try_deref();
                    if let Some(old) = swap_in(stash()[a].as_ref().unwrap(), 0, h2, || {
                        ev!("[\"mv\",{},{},{}]", t, sloc(target as usize, 0), rloc(t, TMP))
                    }, || ev!("[\"mv\",{},{},{}]", t, rloc(t, TMP2), sloc(target as usize, 0))) {
                        match old {
                            (Some(h), true) => drop_at(rloc(t, TMP), h),
                            (Some(h), false) => drop_at(rloc(t, TMP2), h),
                            _ => (),
                        }
                    }
                }
            }
            'p' => {
                if !std::thread::panicking() {
                    ev!("[\"sp\",{},{}]", t, id);
                    DEPTH.with(|d| d.set(d.get() - 1));
                    std::panic::panic_any(Scripted);
                }
            }
            _ => (),
        }
    }
}

/// Put `v` into an empty slot, without events.
fn put(h: &H, sl: usize, v: H) -> Option<H> {
    match h {
        H::U(a) => match a.slot(sl) {
            Some(c) => {
                let mut v = Some(v);
                c.try_with(|x| *x = v.take());
                v
            }
            None => Some(v),
        },
        H::S(a) => match (a.slot(sl), s::from_h(v)) {
            (Some(c), Ok(v)) => {
                let mut v = Some(v);
                c.try_with(|x| *x = v.take());
                v.map(H::S)
            }
            (_, Ok(v)) => Some(H::S(v)),
            (_, Err(v)) => Some(v),
        },
    }
}

/// Exchange the contents of a slot for `v`.
/// The first result is the old content (second component true) or `v` itself if it could not be
/// stored (second component false).
fn swap_in(
    h: &H,
    sl: usize,
    v: H,
    on_old: impl FnOnce(),
    on_new: impl FnOnce(),
) -> Option<(Option<H>, bool)> {
    match h {
        H::U(a) => match a.slot(sl) {
            Some(c) => {
                let mut v = Some(v);
                let old = c.try_with(|x| {
                    let old = x.take();
                    if old.is_some() {
                        on_old();
                    }
                    on_new();
                    *x = v.take();
                    old
                });
                match old {
                    Some(o) => Some((o, true)),
                    None => Some((v, false)),
                }
            }
            None => Some((Some(v), false)),
        },
        H::S(a) => match (a.slot(sl), s::from_h(v)) {
            (Some(c), Ok(v)) => {
                let mut v = Some(v);
                let old = c.try_with(|x| {
                    let old = x.take();
                    if old.is_some() {
                        on_old();
                    }
                    on_new();
                    *x = v.take();
                    old
                });
                match old {
                    Some(o) => Some((o.map(H::S), true)),
                    None => Some((v.map(H::S), false)),
                }
            }
            (_, Ok(v)) => Some((Some(H::S(v)), false)),
            (_, Err(v)) => Some((Some(v), false)),
        },
    }
}

/// Pointers kept in thread-local storage; dropped (with events) when the thread ends, possibly
/// with a collection of the given collector before and after.
pub struct TlsBox(Vec<(usize, H, Option<usize>)>);
impl Drop for TlsBox {
    fn drop(&mut self) {
        for (loc, h, dom) in self.0.drain(..) {
            let t = sched::tid();
            let around = || {
                if let Some(d) = dom {
                    ev!("[\"cs\",{},{}]", t, d);
                    collect(d);
                    ev!("[\"ce\",{},{}]", t, d);
                    ev!("[\"end\",{}]", t);
                }
            };
            around();
            drop_at(loc, h);
            ev!("[\"end\",{}]", t);
            around();
        }
    }
}
struct Sentinel;
impl Drop for Sentinel {
    fn drop(&mut self) {
        ev!("[\"ex\",{}]", sched::tid());
        sched::leave();
    }
}
thread_local! {
    static SENTINEL: RefCell<Option<Sentinel>> = const { RefCell::new(None) };
    static EARLY: RefCell<TlsBox> = const { RefCell::new(TlsBox(Vec::new())) };
    static LATE: RefCell<TlsBox> = const { RefCell::new(TlsBox(Vec::new())) };
}

struct SendRegs(Vec<Option<H>>);
unsafe impl Send for SendRegs {}

/// A reference to a value, as obtained from a pointer in a register, that is kept while that
/// pointer exists.
struct Ref {
    root: usize,
    o: usize,
    slots: Slots,
}
enum Slots {
    U(Vec<*const Cell2<u::Val>>),
    S(Vec<*const Cell2<s::Val>>),
}
fn raw<T>(v: Vec<&T>) -> Vec<*const T> {
    v.into_iter().map(|x| x as *const T).collect()
}
impl Ref {
    fn new(root: usize, h: &H) -> Option<Ref> {
        let o = h.try_deref();
        let slots = match h {
            H::U(a) => Slots::U(raw(a.slots())),
            H::S(a) => Slots::S(raw(a.slots())),
        };
        (o > 0).then_some(Ref { root, o: o as usize, slots })
    }

    /// A reference through a slot that never changes.
    fn follow(&self, sl: usize) -> Option<Ref> {
        match &self.slots {
            Slots::U(v) => match unsafe { &**v.get(sl)? } {
                Cell2::P(Some(h)) => Ref::new(self.root, h),
                _ => None,
            },
            Slots::S(v) => match unsafe { &**v.get(sl)? } {
                Cell2::P(Some(a)) => {
                    let o = a.try_deref();
                    (o > 0).then(|| Ref { root: self.root, o: o as usize, slots: Slots::S(raw(a.slots())) })
                }
                _ => None,
            },
        }
    }

    /// Take the content of a slot; `done` is called under the lock.
    fn take(&self, sl: usize, done: impl FnOnce()) -> Option<H> {
        match &self.slots {
            Slots::U(v) => unsafe { &**v.get(sl)? }.with(|x| x.take().inspect(|_| done())).flatten(),
            Slots::S(v) => {
                unsafe { &**v.get(sl)? }.with(|x| x.take().inspect(|_| done())).flatten().map(H::S)
            }
        }
    }

    /// Put into an empty slot; gives the pointer back if that is not possible.
    fn put(&self, sl: usize, h: H, done: impl FnOnce()) -> Option<H> {
        fn go<T>(c: &Cell2<T>, h: T, done: impl FnOnce()) -> Option<T> {
            let mut h = Some(h);
            c.with(|x| {
                if x.is_none() {
                    done();
                    *x = h.take();
                }
            });
            h
        }
        match &self.slots {
            Slots::U(v) => match v.get(sl) {
                Some(c) => go(unsafe { &**c }, h, done),
                None => Some(h),
            },
            Slots::S(v) => match (v.get(sl), s::from_h(h)) {
                (Some(c), Ok(a)) => go(unsafe { &**c }, a, done).map(H::S),
                (None, Ok(a)) => Some(H::S(a)),
                (_, Err(h)) => Some(h),
            },
        }
    }

    /// Clone the content of a slot.
    fn load(&self, sl: usize, done: impl FnOnce()) -> Option<H> {
        match &self.slots {
            Slots::U(v) => unsafe { &**v.get(sl)? }
                .read(|x| x.as_ref()?.try_clone().inspect(|_| done()))
                .flatten(),
            Slots::S(v) => unsafe { &**v.get(sl)? }
                .read(|x| x.as_ref()?.try_clone().inspect(|_| done()))
                .flatten()
                .map(H::S),
        }
    }
}

pub struct Thread {
    t: usize,
    refs: Vec<Option<Ref>>,
    regs: Vec<Option<H>>,
    guards: Vec<Option<(usize, Box<dyn StdAny>)>>,
    gift: Vec<Vec<Option<H>>>,
    handles: Vec<std::thread::JoinHandle<()>>,
    /// any number of further pointers
    hoard: std::collections::BTreeMap<usize, H>,
}

fn spawn(t: usize, regs: SendRegs, ops: Vec<String>) -> std::thread::JoinHandle<()> {
    std::thread::Builder::new()
        .stack_size(512 * 1024)
        .spawn(move || {
            let regs = regs;
            if t > 0 {
                sched::enter(t);
            } else {
                sched::set_tid(0);
            }
            SENTINEL.with(|s| *s.borrow_mut() = Some(Sentinel));
            EARLY.with(|e| e.borrow().0.len());
            let mut th = Thread {
                t,
                refs: (0..NREG).map(|_| None).collect(),
                regs: regs.0,
                guards: (0..NREG).map(|_| None).collect(),
                gift: (0..sched::MAXT).map(|_| (0..NREG).map(|_| None).collect()).collect(),
                handles: Vec::new(),
                hoard: Default::default(),
            };
            th.regs.resize_with(NREG, || None);
            for op in &ops {
                th.op(op, &ops);
            }
            th.finish();
        })
        .expect("spawn")
}

/// Run a program to completion; the trace is in the log afterwards.
pub fn run(p: &Program) {
    arena::REUSE.store(p.num("reuse", 0) == 1, SeqCst);
    crate::set_hash_seed(p.num("hs", 0));
    NEXT_ID.store(p.num("n", 20) as usize, SeqCst);
    EVERY[0].store(0, SeqCst);
    EVERY[1].store(0, SeqCst);
    SCOND.store('D' as usize, SeqCst);
    scripts().clear();
    scripts().resize(arena::MAXOBJ, String::new());
    PROGRAM.with(|x| *x.borrow_mut() = Some(()));
    *PENDING.lock().unwrap() = Some((
        p.threads.clone(),
        p.policy(),
        p.num("seed", 1),
    ));
    let h = spawn(0, SendRegs(Vec::new()), p.threads[0].clone());
    let _ = h.join();
    ev!("[\"fin\",0]");
    for x in stash().iter_mut() {
        std::mem::forget(x.take());
    }
}

type Pending = (Vec<Vec<String>>, sched::Policy, u64);
static PENDING: std::sync::Mutex<Option<Pending>> = std::sync::Mutex::new(None);
thread_local! {
    static PROGRAM: RefCell<Option<()>> = const { RefCell::new(None) };
}

fn msg(e: &(dyn StdAny + Send)) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    };
    s.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { ' ' }).take(80).collect()
}

impl Thread {
    fn op(&mut self, op: &str, _all: &[String]) {
        let t = self.t;
        let depth = DEPTH.with(Cell::get);
        match catch_unwind(AssertUnwindSafe(|| self.op_inner(op))) {
            Ok(false) => (),
            Ok(true) => {
                ev!("[\"end\",{}]", t);
            }
            Err(e) => {
                DEPTH.with(|d| d.set(depth));
                let code = e.is::<Scripted>() as u8;
                ev!("[\"pn\",{},{},\"{}\"]", t, code, msg(&*e));
                ev!("[\"end\",{}]", t);
            }
        }
        for x in &mut self.refs {
            if matches!(x, Some(r) if self.regs[r.root].is_none()) {
                *x = None;
            }
        }
        sched::op_done();
    }

    fn loc(&self, r: usize) -> usize {
        rloc(self.t, r)
    }

    fn free(&self, r: usize) -> bool {
        r < NREG && self.regs[r].is_none()
    }

    /// Returns false if the operation does not apply in the current state.
    fn op_inner(&mut self, op: &str) -> bool {
        let t = self.t;
        let f: Vec<&str> = op.split(':').collect();
        let n = |i: usize| -> usize { f.get(i).and_then(|x| x.parse().ok()).unwrap_or(99) };
        let has = |me: &Self, i: usize| n(i) < NREG && me.regs[n(i)].is_some();
        match f[0] {
            "n" => {
                // n:reg:obj:kind[:script[:init]]
                let (r, o) = (n(1), n(2));
                if !self.free(r) || o >= arena::MAXOBJ || arena::obj(o).value != 0 {
                    return false;
                }
                if let Some(sc) = f.get(4) {
                    scripts()[o] = if *sc == "-" { String::new() } else { sc.to_string() };
                }
                let mut init = None;
                if f.len() > 5 && has(self, 5) && n(5) != r && self.guards[n(5)].is_none() && f[3].as_bytes().get(1) != Some(&b'v') {
                    if f[3].starts_with('s') && self.regs[n(5)].as_ref().unwrap().dom() != 1 {
                        return false;
                    }
                    init = self.regs[n(5)].take();
                }
                let had = init.is_some();
                match make(o, f[3], init) {
                    Some((h, node)) => {
                        let dom = h.dom();
                        ev!("[\"new\",{},{},{},{},{}]", t, o, self.loc(r), node, dom);
                        if had {
                            ev!("[\"mv\",{},{},{}]", t, self.loc(n(5)), sloc(o, 2));
                        }
                        self.regs[r] = Some(h);
                    }
                    None => return false,
                }
            }
            "c" => {
                if !has(self, 1) || !self.free(n(2)) {
                    return false;
                }
                let src = self.regs[n(1)].as_ref().unwrap();
                match catch_unwind(AssertUnwindSafe(|| src.clone())) {
                    Ok(h) => {
                        ev!("[\"cl\",{},{},{}]", t, self.loc(n(1)), self.loc(n(2)));
                        self.regs[n(2)] = Some(h);
                    }
                    Err(_) => ev!("[\"cp\",{},{}]", t, self.loc(n(1))),
                }
            }
            "C" => {
                if !has(self, 1) || !self.free(n(2)) {
                    return false;
                }
                let r = self.regs[n(1)].as_ref().unwrap().try_clone();
                ev!("[\"tc\",{},{},{},{}]", t, self.loc(n(1)), self.loc(n(2)), r.is_some() as u8);
                self.regs[n(2)] = r;
            }
            "d" => {
                if !has(self, 1) || self.guards[n(1)].is_some() {
                    return false;
                }
                let h = self.regs[n(1)].take().unwrap();
                drop_at(self.loc(n(1)), h);
            }
            "D" | "T" => {
                if !has(self, 1) {
                    return false;
                }
                let h = self.regs[n(1)].as_ref().unwrap();
                let how = (f[0] == "T") as u8;
                let r = if how == 1 {
                    h.try_deref()
                } else {
                    catch_unwind(AssertUnwindSafe(|| h.deref())).unwrap_or(0)
                };
                ev!("[\"rd\",{},{},{},{}]", t, self.loc(n(1)), how, r);
            }
            "l" => {
                // l:reg:slot:dst  clone out of a slot
                if !has(self, 1) || !self.free(n(3)) {
                    return false;
                }
                let (sl, dst) = (n(2), self.loc(n(3)));
                let src = self.regs[n(1)].as_ref().unwrap();
                if src.try_deref() == 0 {
                    return false;
                }
                let got = self.load(src, sl, |o| ev!("[\"cl\",{},{},{}]", t, sloc(o, sl), dst));
                if got.is_none() {
                    return false;
                }
                self.regs[n(3)] = got;
            }
            "L" => {
                // L:reg:slot:slot2:dst  follow two pointers in place and clone the last
                if !has(self, 1) || !self.free(n(4)) {
                    return false;
                }
                let src = self.regs[n(1)].as_ref().unwrap();
                if src.try_deref() == 0 {
                    return false;
                }
                let (sl, sl2, dst) = (n(2), n(3), self.loc(n(4)));
                let me = &*self;
                let got = match src {
                    H::U(a) => a.slot(sl).and_then(|c| {
                        c.read(|x| {
                            x.as_ref().filter(|m| m.try_deref() > 0).and_then(|m| {
                                me.try_load(m, sl2, |o| ev!("[\"cl\",{},{},{}]", t, sloc(o, sl2), dst))
                            })
                        })
                        .flatten()
                    }),
                    H::S(a) => a.slot(sl).and_then(|c| {
                        c.read(|x| {
                            x.as_ref().filter(|m| m.try_deref() > 0).and_then(|m| {
                                let c2 = m.slot(sl2)?;
                                let o = m.try_deref() as usize;
                                c2.try_read(|y| {
                                    let h = y.as_ref()?.try_clone();
                                    if h.is_some() {
                                        ev!("[\"cl\",{},{},{}]", t, sloc(o, sl2), dst);
                                    }
                                    h.map(H::S)
                                })
                                .flatten()
                            })
                        })
                        .flatten()
                    }),
                };
                if got.is_none() {
                    return false;
                }
                self.regs[n(4)] = got;
            }
            "s" | "S" => {
                // s:reg:slot:src  move a register into a slot, then drop the old content
                if !has(self, 1) || !has(self, 3) || n(1) == n(3) || self.guards[n(3)].is_some() {
                    return false;
                }
                let (sl, srcloc) = (n(2), self.loc(n(3)));
                let under_lock = f[0] == "S";
                let (o, ok) = self.target(n(1), sl);
                if !ok {
                    return false;
                }
                let v = self.regs[n(3)].take().unwrap();
                let h = self.regs[n(1)].as_ref().unwrap();
                if under_lock {
                    let r = store_under_lock(h, sl, v, o, srcloc, t);
                    if let Some(v) = r {
                        self.regs[n(3)] = Some(v);
                        return false;
                    }
                } else {
                    let r = swap_in(
                        h,
                        sl,
                        v,
                        || ev!("[\"mv\",{},{},{}]", t, sloc(o, sl), rloc(t, TMP)),
                        || ev!("[\"mv\",{},{},{}]", t, srcloc, sloc(o, sl)),
                    );
                    match r {
                        Some((Some(h), true)) => drop_at(rloc(t, TMP), h),
                        Some((Some(h), false)) => {
                            self.regs[n(3)] = Some(h);
                            return false;
                        }
                        _ => (),
                    }
                }
            }
            "t" => {
                // t:reg:slot:dst  move a slot into a register
                if !has(self, 1) || !self.free(n(3)) {
                    return false;
                }
                let (sl, dst) = (n(2), self.loc(n(3)));
                let (o, ok) = self.target(n(1), sl);
                if !ok {
                    return false;
                }
                let mv = || ev!("[\"mv\",{},{},{}]", t, sloc(o, sl), dst);
                let got = match self.regs[n(1)].as_ref().unwrap() {
                    H::U(a) => a.slot(sl).and_then(|c| {
                        c.with(|x| {
                            let v = x.take();
                            if v.is_some() {
                                mv();
                            }
                            v
                        })
                        .flatten()
                    }),
                    H::S(a) => a
                        .slot(sl)
                        .and_then(|c| {
                            c.with(|x| {
                                let v = x.take();
                                if v.is_some() {
                                    mv();
                                }
                                v
                            })
                            .flatten()
                        })
                        .map(H::S),
                };
                if got.is_none() {
                    return false;
                }
                self.regs[n(3)] = got;
            }
            "w" => {
                // w:reg:slot:slot2  move between two slots of one value
                if !has(self, 1) || n(2) == n(3) {
                    return false;
                }
                let (a, b) = (n(2), n(3));
                let (o, ok) = self.target(n(1), a);
                if !ok {
                    return false;
                }
                let go = || ev!("[\"sw\",{},{},{}]", t, sloc(o, a), sloc(o, b));
                match self.regs[n(1)].as_ref().unwrap() {
                    H::U(x) => {
                        if let (Some(c), Some(d)) = (x.slot(a), x.slot(b)) {
                            c.with(|v| d.try_with(|w| {
                                go();
                                std::mem::swap(v, w);
                            }));
                        }
                    }
                    H::S(x) => {
                        let (lo, hi) = (a.min(b), a.max(b));
                        if let (Some(c), Some(d)) = (x.slot(lo), x.slot(hi)) {
                            c.with(|v| d.try_with(|w| {
                                go();
                                std::mem::swap(v, w);
                            }));
                        }
                    }
                }
            }
            "f" => {
                // f:reg:ref  keep a reference
                if !has(self, 1) || n(2) >= NREG {
                    return false;
                }
                let r = Ref::new(n(1), self.regs[n(1)].as_ref().unwrap());
                self.refs[n(2)] = r;
            }
            "e" => {
                // e:ref:slot:ref2  keep a reference through a slot that never changes
                if n(1) >= NREG || n(3) >= NREG {
                    return false;
                }
                let r = self.refs[n(1)].as_ref().and_then(|r| r.follow(n(2)));
                self.refs[n(3)] = r;
            }
            "h" => {
                // h:ref:slot:dst  move a slot into a register, without looking at the pointer
                if n(1) >= NREG || !self.free(n(3)) {
                    return false;
                }
                let (sl, dst) = (n(2), self.loc(n(3)));
                let Some(r) = self.refs[n(1)].as_ref() else {
                    return false;
                };
                let got = r.take(sl, || ev!("[\"mv\",{},{},{}]", t, sloc(r.o, sl), dst));
                if got.is_none() {
                    return false;
                }
                self.regs[n(3)] = got;
            }
            "H" => {
                // H:ref:slot:src  move a register into an empty slot
                if n(1) >= NREG || !has(self, 3) || self.guards[n(3)].is_some() {
                    return false;
                }
                let (sl, src) = (n(2), self.loc(n(3)));
                let Some(r) = self.refs[n(1)].as_ref().filter(|r| r.root != n(3)) else {
                    return false;
                };
                let v = self.regs[n(3)].take().unwrap();
                let rest = r.put(sl, v, || ev!("[\"mv\",{},{},{}]", t, src, sloc(r.o, sl)));
                if rest.is_some() {
                    self.regs[n(3)] = rest;
                    return false;
                }
            }
            "i" => {
                // i:ref:slot:dst  clone out of a slot
                if n(1) >= NREG || !self.free(n(3)) {
                    return false;
                }
                let (sl, dst) = (n(2), self.loc(n(3)));
                let Some(r) = self.refs[n(1)].as_ref() else {
                    return false;
                };
                let got = r.load(sl, || ev!("[\"cl\",{},{},{}]", t, sloc(r.o, sl), dst));
                if got.is_none() {
                    return false;
                }
                self.regs[n(3)] = got;
            }
            "j" => {
                // j:ref:slot  hold a slot exclusively, through a reference
                let Some(Some(r)) = self.refs.get(n(1)) else {
                    return false;
                };
                let (root, l) = (r.root, sloc(r.o, n(2)));
                if self.guards[root].is_some() {
                    return false;
                }
                let g = match &r.slots {
                    Slots::U(v) => v.get(n(2)).and_then(|c| unsafe { &**c }.hold()),
                    Slots::S(v) => v.get(n(2)).and_then(|c| unsafe { &**c }.hold()),
                };
                if g.is_some() {
                    ev!("[\"lk\",{},{}]", t, l);
                }
                self.guards[root] = g.map(|g| (l, g));
            }
            "G" => {
                // release everything held
                for x in &mut self.guards {
                    if let Some((l, g)) = x.take() {
                        drop(g);
                        ev!("[\"ul\",{},{}]", t, l);
                    }
                }
            }
            "b" => {
                // b:reg:slot:dst  clone the pointer and hold the slot exclusively
                if !has(self, 1) || !self.free(n(3)) {
                    return false;
                }
                let (o, ok) = self.target(n(1), n(2));
                if !ok {
                    return false;
                }
                let h = self.regs[n(1)].as_ref().unwrap().clone();
                ev!("[\"cl\",{},{},{}]", t, self.loc(n(1)), self.loc(n(3)));
                let g = match &h {
                    H::U(a) => a.slot(n(2)).and_then(Cell2::hold),
                    H::S(a) => a.slot(n(2)).and_then(Cell2::hold),
                };
                if g.is_some() {
                    ev!("[\"lk\",{},{}]", t, sloc(o, n(2)));
                }
                self.guards[n(3)] = g.map(|g| (sloc(o, n(2)), g));
                self.regs[n(3)] = Some(h);
            }
            "fg" => {
                // fg:reg:slot  hold the slot exclusively for ever
                if !has(self, 1) {
                    return false;
                }
                let (o, ok) = self.target(n(1), n(2));
                if !ok {
                    return false;
                }
                let g = match self.regs[n(1)].as_ref().unwrap() {
                    H::U(a) => a.slot(n(2)).and_then(Cell2::hold),
                    H::S(a) => a.slot(n(2)).and_then(Cell2::hold),
                };
                if let Some(g) = g {
                    ev!("[\"lk\",{},{}]", t, sloc(o, n(2)));
                    std::mem::forget(g);
                }
            }
            "u" => {
                if n(1) >= NREG || self.guards[n(1)].is_none() {
                    return false;
                }
                let (l, g) = self.guards[n(1)].take().unwrap();
                drop(g);
                ev!("[\"ul\",{},{}]", t, l);
            }
            "k" => {
                let dom = n(1);
                ev!("[\"cs\",{},{}]", t, dom);
                collect(dom);
                ev!("[\"ce\",{},{}]", t, dom);
            }
            "kk" => {
                // kk:dom:n  many collections
                let dom = n(1);
                for _ in 0..n(2) {
                    ev!("[\"cs\",{},{}]", t, dom);
                    collect(dom);
                    ev!("[\"ce\",{},{}]", t, dom);
                }
            }
            "hn" => {
                // hn:i:obj:kind  create into the hoard
                let (i, o) = (n(1), n(2));
                if self.hoard.contains_key(&i) || o >= arena::MAXOBJ || arena::obj(o).value != 0 {
                    return false;
                }
                let Some((h, node)) = make(o, f[3], None) else {
                    return false;
                };
                ev!("[\"new\",{},{},{},{},{}]", t, o, hloc(t, i), node, h.dom());
                self.hoard.insert(i, h);
            }
            "hc" => {
                // hc:i:j  clone within the hoard
                if self.hoard.contains_key(&n(2)) {
                    return false;
                }
                let Some(h) = self.hoard.get(&n(1)).map(H::clone) else {
                    return false;
                };
                ev!("[\"cl\",{},{},{}]", t, hloc(t, n(1)), hloc(t, n(2)));
                self.hoard.insert(n(2), h);
            }
            "hl" => {
                // hl:i:slot:j  clone from the hoard into an empty slot
                let (Some(a), Some(b)) = (self.hoard.get(&n(1)), self.hoard.get(&n(3))) else {
                    return false;
                };
                let o = a.try_deref();
                if o <= 0 {
                    return false;
                }
                let h = b.clone();
                if put(a, n(2), h).is_some() {
                    panic!("no such slot");
                }
                ev!("[\"cl\",{},{},{}]", t, hloc(t, n(3)), sloc(o as usize, n(2)));
            }
            "hr" => {
                let Some(h) = self.hoard.get(&n(1)) else {
                    return false;
                };
                let r = h.try_deref();
                ev!("[\"rd\",{},{},1,{}]", t, hloc(t, n(1)), r);
            }
            "hx" => {
                let Some(h) = self.hoard.remove(&n(1)) else {
                    return false;
                };
                drop_at(hloc(t, n(1)), h);
            }
            "o" => {
                let c = f.get(2).and_then(|x| x.chars().next()).unwrap_or('D');
                set_cond(n(1), c);
                note_cond(n(1), c);
                let code = match c {
                    'n' => 0,
                    'a' => 1,
                    'd' => 2,
                    '3' => 3,
                    _ => 9,
                };
                ev!("[\"sc\",{},{},{}]", t, n(1), code);
            }
            "p" => {
                let dom = n(1);
                let old = cond_in_force(dom);
                set_cond(dom, 'p');
                if dom == 0 {
                    drop(dumpster::unsync::Gc::new(()));
                } else {
                    drop(dumpster::sync::Gc::new(()));
                }
                set_cond(dom, old);
                let (d, k) = PROBE.with(Cell::get);
                ev!("[\"pr\",{},{},{},{}]", t, dom, d, k);
            }
            "q" => {
                if !has(self, 1) || !has(self, 2) {
                    return false;
                }
                let (a, b) = (self.regs[n(1)].as_ref().unwrap(), self.regs[n(2)].as_ref().unwrap());
                if let Some(r) = a.ptr_eq(b) {
                    ev!("[\"pe\",{},{},{},{}]", t, self.loc(n(1)), self.loc(n(2)), r as u8);
                }
                if a.try_deref() > 0 && b.try_deref() > 0 {
                    ev!("[\"ap\",{},{},{},{}]", t, self.loc(n(1)), self.loc(n(2)), (a.addr() == b.addr()) as u8);
                    if let Some(r) = a.eq(b) {
                        ev!("[\"eq\",{},{},{},{}]", t, self.loc(n(1)), self.loc(n(2)), r as u8);
                    }
                }
            }
            "v" => {
                if !has(self, 1) {
                    return false;
                }
                let (h, ch) = self.regs[n(1)].take().unwrap().coerce();
                self.regs[n(1)] = Some(h);
                if ch {
                    ev!("[\"co\",{},{}]", t, self.loc(n(1)));
                }
            }
            "m" => {
                // m:stash:reg
                if !self.free(n(2)) || n(1) >= NSTASH || stash()[n(1)].is_none() {
                    return false;
                }
                ev!("[\"mv\",{},{},{}]", t, xloc(n(1)), self.loc(n(2)));
                self.regs[n(2)] = stash()[n(1)].take();
            }
            "M" => {
                // M:reg:stash
                if !has(self, 1) || self.guards[n(1)].is_some() || n(2) >= NSTASH || stash()[n(2)].is_some() {
                    return false;
                }
                ev!("[\"mv\",{},{},{}]", t, self.loc(n(1)), xloc(n(2)));
                stash()[n(2)] = self.regs[n(1)].take();
            }
            "x" => {
                // x:reg:e|l   keep in thread-local storage (E, L: and collect when it is destroyed)
                if !has(self, 1) || self.guards[n(1)].is_some() {
                    return false;
                }
                let h = self.regs[n(1)].take().unwrap();
                let how = f.get(2).copied().unwrap_or("l");
                let early = how == "e" || how == "E";
                let dom = (how == "E" || how == "L").then_some(matches!(h, H::S(_)) as usize);
                let loc = rloc(t, if early { 19 } else { 16 });
                let full = if early {
                    EARLY.with(|e| !e.borrow().0.is_empty())
                } else {
                    LATE.with(|e| !e.borrow().0.is_empty())
                };
                if full {
                    self.regs[n(1)] = Some(h);
                    return false;
                }
                ev!("[\"mv\",{},{},{}]", t, self.loc(n(1)), loc);
                if early {
                    EARLY.with(|e| e.borrow_mut().0.push((loc, h, dom)));
                } else {
                    LATE.with(|e| e.borrow_mut().0.push((loc, h, dom)));
                }
            }
            "P" => {
                // P:reg:slot  poison the lock of a slot
                if !has(self, 1) {
                    return false;
                }
                match self.regs[n(1)].as_ref().unwrap() {
                    H::U(a) => a.slot(n(2)).map(Cell2::poison),
                    H::S(a) => a.slot(n(2)).map(Cell2::poison),
                };
            }
            "g" => {
                // g:reg:thread:reg2
                if !has(self, 1) || self.guards[n(1)].is_some() || t != 0 || n(2) >= sched::MAXT || n(3) >= NREG {
                    return false;
                }
                if self.regs[n(1)].as_ref().unwrap().dom() == 0 || self.gift[n(2)][n(3)].is_some() {
                    return false;
                }
                ev!("[\"mv\",{},{},{}]", t, self.loc(n(1)), rloc(n(2), n(3)));
                self.gift[n(2)][n(3)] = self.regs[n(1)].take();
            }
            "F" => {
                let Some((threads, policy, seed)) = PENDING.lock().unwrap().take() else {
                    return false;
                };
                ev!("[\"fk\",{},{}]", t, threads.len());
                sched::start(policy, seed, threads.len());
                for (i, ops) in threads.into_iter().enumerate().skip(1) {
                    let regs = SendRegs(std::mem::take(&mut self.gift[i]));
                    self.handles.push(spawn(i, regs, ops));
                }
                return false;
            }
            "J" => {
                self.join();
                return false;
            }
            "y" => {
                sched::point();
                return false;
            }
            // many drops of a leaf, to fill the hand-over buffer
            "z" => {
                let dom = n(1);
                set_cond(dom, 'q');
                let k = n(2);
                let q = QUIET.load(SeqCst);
                sched::atomically(|| {
                    if dom == 0 {
                        let g = dumpster::unsync::Gc::new(());
                        for _ in 0..k {
                            drop(g.clone());
                        }
                    } else {
                        let g = dumpster::sync::Gc::new(());
                        for _ in 0..k {
                            drop(g.clone());
                        }
                    }
                });
                set_cond(dom, cond_in_force(dom));
                ev!("[\"zz\",{},{},{},{}]", t, dom, k + 1, QUIET.load(SeqCst) - q);
            }
            _ => return false,
        }
        true
    }

    fn join(&mut self) {
        if self.handles.is_empty() {
            return;
        }
        sched::join_all();
        for h in self.handles.drain(..) {
            let _ = h.join();
        }
        ev!("[\"jn\",{}]", self.t);
    }

    /// The object a register points to and whether the slot exists; dereferences only live ones.
    fn target(&self, r: usize, sl: usize) -> (usize, bool) {
        let h = self.regs[r].as_ref().unwrap();
        let o = h.try_deref();
        if o <= 0 {
            return (0, false);
        }
        let ok = match h {
            H::U(a) => a.is_node() && a.slot(sl).is_some(),
            H::S(a) => a.is_node() && a.slot(sl).is_some(),
        };
        (o as usize, ok)
    }

    fn load(&self, src: &H, sl: usize, done: impl FnOnce(usize)) -> Option<H> {
        match src {
            H::U(a) => {
                let c = a.slot(sl)?;
                let o = a.try_deref() as usize;
                c.read(|x| {
                    let h = x.as_ref()?.try_clone();
                    if h.is_some() {
                        done(o);
                    }
                    h
                })
                .flatten()
            }
            H::S(a) => {
                let c = a.slot(sl)?;
                let o = a.try_deref() as usize;
                c.read(|x| {
                    let h = x.as_ref()?.try_clone();
                    if h.is_some() {
                        done(o);
                    }
                    h
                })
                .flatten()
                .map(H::S)
            }
        }
    }

    // `load` for a value reached through a locked slot: waiting there could be for oneself
    fn try_load(&self, src: &H, sl: usize, done: impl FnOnce(usize)) -> Option<H> {
        match src {
            H::U(a) => {
                let c = a.slot(sl)?;
                let o = a.try_deref() as usize;
                c.try_read(|x| {
                    let h = x.as_ref()?.try_clone();
                    if h.is_some() {
                        done(o);
                    }
                    h
                })
                .flatten()
            }
            H::S(a) => {
                let c = a.slot(sl)?;
                let o = a.try_deref() as usize;
                c.try_read(|x| {
                    let h = x.as_ref()?.try_clone();
                    if h.is_some() {
                        done(o);
                    }
                    h
                })
                .flatten()
                .map(H::S)
            }
        }
    }

    fn finish(&mut self) {
        let t = self.t;
        self.join();
        for g in &mut self.guards {
            if let Some((l, g)) = g.take() {
                drop(g);
                ev!("[\"ul\",{},{}]", t, l);
            }
        }
        for r in 0..NREG {
            if let Some(h) = self.regs[r].take() {
                let loc = self.loc(r);
                if let Err(e) = catch_unwind(AssertUnwindSafe(|| drop_at(loc, h))) {
                    ev!("[\"pn\",{},{},\"{}\"]", t, e.is::<Scripted>() as u8, msg(&*e));
                }
                ev!("[\"end\",{}]", t);
            }
        }
        while let Some((i, h)) = self.hoard.pop_first() {
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| drop_at(hloc(t, i), h))) {
                ev!("[\"pn\",{},{},\"{}\"]", t, e.is::<Scripted>() as u8, msg(&*e));
            }
            ev!("[\"end\",{}]", t);
        }
        ev!("[\"xb\",{}]", t);
    }
}

/// Store with the drop of the old content happening while the slot is still locked.
fn store_under_lock(h: &H, sl: usize, v: H, o: usize, srcloc: usize, t: usize) -> Option<H> {
    match h {
        H::U(a) => {
            let c = a.slot(sl)?;
            let mut v = Some(v);
            c.with(|x| {
                let old = x.take();
                if old.is_some() {
                    ev!("[\"mv\",{},{},{}]", t, sloc(o, sl), rloc(t, TMP));
                }
                ev!("[\"mv\",{},{},{}]", t, srcloc, sloc(o, sl));
                *x = v.take();
                if let Some(old) = old {
                    drop_at(rloc(t, TMP), old);
                }
            });
            v
        }
        H::S(a) => {
            let v = match s::from_h(v) {
                Ok(v) => v,
                Err(v) => return Some(v),
            };
            let c = a.slot(sl)?;
            let mut v = Some(v);
            c.with(|x| {
                let old = x.take();
                if old.is_some() {
                    ev!("[\"mv\",{},{},{}]", t, sloc(o, sl), rloc(t, TMP));
                }
                ev!("[\"mv\",{},{},{}]", t, srcloc, sloc(o, sl));
                *x = v.take();
                if let Some(old) = old {
                    drop_at(rloc(t, TMP), H::S(old));
                }
            });
            v.map(H::S)
        }
    }
}
