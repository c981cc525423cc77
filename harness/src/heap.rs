//! Payload types.  `u` is the thread-local family, `s` the thread-safe one.
use crate::{arena, exec, sched};
use dumpster::{Collectable, Visitor};
use std::cell::RefCell;
use std::sync::{Mutex, RwLock, TryLockError};

pub const CANARY: u64 = 0x5AFE_C0DE_0BAD_F00D;

/// Any pointer a register or a thread-local slot can hold.
pub enum H {
    U(u::Any),
    S(s::Any),
}

unsafe impl Collectable for H {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        match self {
            H::U(a) => a.accept(v),
            H::S(a) => a.accept(v),
        }
    }
}

/// The equality of values: neither reflexive (like that of floats) nor identity.
fn val_eq(a: usize, b: usize) -> bool {
    a % 2 == b % 2 && a % 4 != 3 && b % 4 != 3
}

/// Alternate between two ways to do the same thing.
#[cfg(feature = "unsized")]
fn flip() -> bool {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 2 == 0
}

/// Result of a lock attempt by the harness.
enum Try<G> {
    Got(G),
    Busy,
}

fn lock_loop<G>(addr: usize, mut f: impl FnMut() -> Try<G>) -> Option<G> {
    sched::point();
    loop {
        match f() {
            Try::Got(g) => return Some(g),
            Try::Busy => {
                if !sched::blocked(addr) {
                    return None;
                }
            }
        }
    }
}

fn mutex<T>(m: &Mutex<T>) -> Try<std::sync::MutexGuard<'_, T>> {
    match m.try_lock() {
        Ok(g) => Try::Got(g),
        Err(TryLockError::Poisoned(e)) => Try::Got(e.into_inner()),
        Err(TryLockError::WouldBlock) => Try::Busy,
    }
}

fn rwlock<T>(m: &RwLock<T>) -> Try<std::sync::RwLockWriteGuard<'_, T>> {
    match m.try_write() {
        Ok(g) => Try::Got(g),
        Err(TryLockError::Poisoned(e)) => Try::Got(e.into_inner()),
        Err(TryLockError::WouldBlock) => Try::Busy,
    }
}

fn rdlock<T>(m: &RwLock<T>) -> Try<std::sync::RwLockReadGuard<'_, T>> {
    match m.try_read() {
        Ok(g) => Try::Got(g),
        Err(TryLockError::Poisoned(e)) => Try::Got(e.into_inner()),
        Err(TryLockError::WouldBlock) => Try::Busy,
    }
}

/// A cell that holds an optional pointer.
pub enum Cell2<T> {
    R(RefCell<Option<T>>),
    M(Mutex<Option<T>>),
    W(RwLock<Option<T>>),
    /// Only set at creation.
    P(Option<T>),
}
unsafe impl<T: Send> Sync for Cell2<T> {}

unsafe impl<T: Collectable> Collectable for Cell2<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        match self {
            Cell2::R(c) => c.accept(v),
            Cell2::M(c) => c.accept(v),
            Cell2::W(c) => c.accept(v),
            Cell2::P(c) => c.accept(v),
        }
    }
}

impl<T> Cell2<T> {
    pub fn new(kind: char) -> Self {
        match kind {
            'm' => Cell2::M(Mutex::new(None)),
            'w' => Cell2::W(RwLock::new(None)),
            _ => Cell2::R(RefCell::new(None)),
        }
    }

    fn addr(&self) -> usize {
        self as *const _ as usize
    }

    /// Exclusive access; `None` if it cannot be had.
    pub fn with<R>(&self, f: impl FnOnce(&mut Option<T>) -> R) -> Option<R> {
        match self {
            Cell2::R(c) => c.try_borrow_mut().ok().map(|mut g| f(&mut g)),
            Cell2::M(c) => lock_loop(self.addr(), || mutex(c)).map(|mut g| f(&mut g)),
            Cell2::W(c) => lock_loop(self.addr(), || rwlock(c)).map(|mut g| f(&mut g)),
            Cell2::P(_) => None,
        }
    }

    /// Shared access; `None` if it cannot be had.
    pub fn read<R>(&self, f: impl FnOnce(&Option<T>) -> R) -> Option<R> {
        match self {
            Cell2::R(c) => c.try_borrow().ok().map(|g| f(&g)),
            Cell2::M(c) => lock_loop(self.addr(), || mutex(c)).map(|g| f(&g)),
            Cell2::W(c) => lock_loop(self.addr(), || rdlock(c)).map(|g| f(&g)),
            Cell2::P(c) => Some(f(c)),
        }
    }

    /// Exclusive access without waiting (for code that already holds a lock).
    pub fn try_with<R>(&self, f: impl FnOnce(&mut Option<T>) -> R) -> Option<R> {
        sched::point();
        match self {
            Cell2::M(c) => match mutex(c) {
                Try::Got(mut g) => Some(f(&mut g)),
                Try::Busy => None,
            },
            Cell2::W(c) => match rwlock(c) {
                Try::Got(mut g) => Some(f(&mut g)),
                Try::Busy => None,
            },
            _ => self.with(f),
        }
    }

    /// Shared access without waiting (for code that already holds a lock).
    pub fn try_read<R>(&self, f: impl FnOnce(&Option<T>) -> R) -> Option<R> {
        sched::point();
        match self {
            Cell2::M(c) => match mutex(c) {
                Try::Got(g) => Some(f(&g)),
                Try::Busy => None,
            },
            Cell2::W(c) => match rdlock(c) {
                Try::Got(g) => Some(f(&g)),
                Try::Busy => None,
            },
            _ => self.read(f),
        }
    }

    /// Hold exclusive access until the returned value is dropped.
    /// The caller keeps the cell alive.
    pub fn hold(&self) -> Option<Box<dyn std::any::Any>>
    where
        T: 'static,
    {
        let this: &'static Cell2<T> = unsafe { &*(self as *const _) };
        match this {
            Cell2::R(c) => c.try_borrow_mut().ok().map(|g| Box::new(g) as Box<dyn std::any::Any>),
            Cell2::M(c) => lock_loop(self.addr(), || mutex(c)).map(|g| Box::new(g) as _),
            Cell2::W(c) => lock_loop(self.addr(), || rwlock(c)).map(|g| Box::new(g) as _),
            Cell2::P(_) => None,
        }
    }

    /// Poison the lock, if it is one.
    pub fn poison(&self) {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match self {
            Cell2::M(c) => {
                let _g = c.lock();
                std::panic::panic_any(exec::Scripted);
            }
            Cell2::W(c) => {
                let _g = c.write();
                std::panic::panic_any(exec::Scripted);
            }
            _ => (),
        }));
    }

    /// Access from a destructor.
    pub fn get_mut(&mut self) -> &mut Option<T> {
        match self {
            Cell2::R(c) => c.get_mut(),
            Cell2::M(c) => c.get_mut().unwrap_or_else(|e| e.into_inner()),
            Cell2::W(c) => c.get_mut().unwrap_or_else(|e| e.into_inner()),
            Cell2::P(c) => c,
        }
    }
}

/// What destructor scripts do with the contents of slots.
pub trait Ptr {
    fn p_try_deref(&self) -> i64;
    fn p_try_clone(&self) -> Option<H>;
    fn p_deref(&self) -> i64;
    fn p_clone(&self) -> H;
}
impl Ptr for H {
    fn p_try_deref(&self) -> i64 {
        self.try_deref()
    }
    fn p_try_clone(&self) -> Option<H> {
        self.try_clone()
    }
    fn p_deref(&self) -> i64 {
        self.deref1()
    }
    fn p_clone(&self) -> H {
        self.clone()
    }
}
impl Ptr for s::Any {
    fn p_try_deref(&self) -> i64 {
        self.try_deref()
    }
    fn p_try_clone(&self) -> Option<H> {
        self.try_clone().map(H::S)
    }
    fn p_deref(&self) -> i64 {
        self.deref1()
    }
    fn p_clone(&self) -> H {
        H::S(self.clone())
    }
}

macro_rules! family {
    ($m:ident, $dom:expr, $gcm:ident, $val:ty, $wrap:expr, $unwrap:expr, [$($bound:tt)*], $leaf:expr) => {
        pub mod $m {
            use super::*;
            use dumpster::$gcm::Gc;

            #[allow(dead_code)]
            pub const DOM: u8 = $dom;
            /// What a slot holds.
            pub type Val = $val;

            pub fn to_h(v: Val) -> H {
                let f: fn(Val) -> H = $wrap;
                f(v)
            }
            pub fn from_h(h: H) -> Result<Val, H> {
                let f: fn(H) -> Result<Val, H> = $unwrap;
                f(h)
            }

            /// A value with pointers: slots 0 and 1 are mutable, slot 2 is fixed at creation.
            #[derive(Collectable)]
            pub struct Node {
                pub id: usize,
                pub canary: u64,
                pub slots: [Cell2<Val>; 3],
            }

            /// A node with a large payload after the pointers.
            #[derive(Collectable)]
            #[repr(C)]
            pub struct Big {
                pub node: Node,
                pub pad: [u8; 4500],
            }

            /// A value without pointers.
            #[derive(Collectable)]
            pub struct Leaf {
                pub id: usize,
                pub canary: u64,
            }

            /// A large over-aligned value without pointers.
            #[derive(Collectable)]
            #[repr(align(128))]
            pub struct Align {
                pub id: usize,
                pub canary: u64,
                pub pad: [u8; 5003],
            }

            /// A zero-sized value with a destructor.
            #[derive(Collectable)]
            pub struct Zst;

            /// One of the elements of an array value.
            #[derive(Collectable)]
            pub struct Elem {
                pub id: usize,
                pub idx: usize,
                pub canary: u64,
                pub slot: Cell2<Val>,
            }

            /// A value with many slots.
            #[derive(Collectable)]
            pub struct Wide {
                pub id: usize,
                pub canary: u64,
                pub slots: Vec<Cell2<Val>>,
            }

            /// Object-safe view of a node.
            pub trait Obj: $($bound)* {
                fn node(&self) -> &Node;
            }
            impl Obj for Node {
                fn node(&self) -> &Node { self }
            }
            impl Obj for Big {
                fn node(&self) -> &Node { &self.node }
            }
            unsafe impl Collectable for dyn Obj {
                fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
                    self.node().accept(v)
                }
            }

            #[derive(Collectable)]
            pub enum Any {
                N(Gc<Node>),
                B(Gc<Big>),
                L(Gc<Leaf>),
                A(Gc<Align>),
                Z(Gc<Zst>),
                W(Gc<[Elem; 2]>),
                H(Gc<Wide>),
                #[cfg(feature = "unsized")]
                V(Gc<[Elem]>),
                #[cfg(feature = "unsized")]
                Y(Gc<dyn Obj>),
            }

            macro_rules! each {
                ($a:expr, $g:ident => $e:expr) => {
                    match $a {
                        Any::N($g) => $e,
                        Any::B($g) => $e,
                        Any::L($g) => $e,
                        Any::A($g) => $e,
                        Any::Z($g) => $e,
                        Any::W($g) => $e,
                        Any::H($g) => $e,
                        #[cfg(feature = "unsized")]
                        Any::V($g) => $e,
                        #[cfg(feature = "unsized")]
                        Any::Y($g) => $e,
                    }
                };
            }

            trait Ident {
                fn ident(&self) -> i64;
            }
            fn check(id: usize, canary: u64, me: usize) -> i64 {
                if canary == CANARY ^ id as u64 && arena::by_value(me) == id { id as i64 } else { -9 }
            }
            impl Ident for Node {
                fn ident(&self) -> i64 { check(self.id, self.canary, self as *const _ as usize) }
            }
            impl Ident for Big {
                fn ident(&self) -> i64 {
                    if self.pad.iter().any(|&b| b != 7) { return -9; }
                    check(self.node.id, self.node.canary, self as *const _ as usize)
                }
            }
            impl Ident for Wide {
                fn ident(&self) -> i64 { check(self.id, self.canary, self as *const _ as usize) }
            }
            impl Ident for Leaf {
                fn ident(&self) -> i64 { check(self.id, self.canary, self as *const _ as usize) }
            }
            impl Ident for Align {
                fn ident(&self) -> i64 {
                    if self.pad.iter().any(|&b| b != 9) || self as *const _ as usize % 128 != 0 { return -9; }
                    check(self.id, self.canary, self as *const _ as usize)
                }
            }
            impl Ident for Zst {
                fn ident(&self) -> i64 { arena::by_value(self as *const _ as usize) as i64 }
            }
            impl Ident for [Elem] {
                fn ident(&self) -> i64 {
                    if self.len() != 2 { return -9; }
                    for (i, e) in self.iter().enumerate() {
                        if e.idx != i || e.id != self[0].id || e.canary != CANARY ^ e.id as u64 { return -9; }
                    }
                    check(self[0].id, self[0].canary, self.as_ptr() as usize)
                }
            }
            impl Ident for [Elem; 2] {
                fn ident(&self) -> i64 { self[..].ident() }
            }
            impl Ident for dyn Obj {
                fn ident(&self) -> i64 { self.node().ident() }
            }

            fn brw<T: Collectable + ?Sized + $($bound)*>(g: &Gc<T>) -> &T {
                <Gc<T> as std::borrow::Borrow<T>>::borrow(g)
            }

            fn cells(id: usize, ck: char, init: Option<Val>) -> Node {
                Node {
                    id,
                    canary: CANARY ^ id as u64,
                    slots: [Cell2::new(ck), Cell2::new(ck), Cell2::P(init)],
                }
            }

            /// Create object `id`; `kind` selects the payload, `ck` its cells.
            pub fn create(id: usize, kind: char, ck: char, init: Option<Val>) -> Any {
                fn addr<T: Collectable + ?Sized + $($bound)*>(g: &Gc<T>) -> usize {
                    Gc::as_ptr(g) as *const u8 as usize
                }
                macro_rules! mk {
                    ($v:ident, $e:expr) => {{
                        let value = $e;
                        Any::$v(arena::create(id, move || Gc::new(value), |g| addr(g)))
                    }};
                }
                let canary = CANARY ^ id as u64;
                match kind {
                    'b' => mk!(B, Big { node: cells(id, ck, init), pad: [7; 4500] }),
                    'l' => Any::L(arena::create(id, move || ($leaf)(id, canary), |g| addr(g))),
                    'a' => mk!(A, Align { id, canary, pad: [9; 5003] }),
                    'z' => mk!(Z, Zst),
                    'h' => mk!(H, Wide { id, canary, slots: (0..6).map(|_| Cell2::new(ck)).collect() }),
                    'g' => mk!(H, Wide { id, canary, slots: (0..40).map(|_| Cell2::new(ck)).collect() }),
                    'v' => mk!(W, [
                        Elem { id, idx: 0, canary, slot: Cell2::new(ck) },
                        Elem { id, idx: 1, canary, slot: Cell2::new(ck) },
                    ]),
                    _ => mk!(N, cells(id, ck, init)),
                }
            }

            impl Any {
                pub fn clone(&self) -> Any {
                    match self {
                        Any::N(g) => Any::N(g.clone()),
                        Any::B(g) => Any::B(g.clone()),
                        Any::L(g) => Any::L(g.clone()),
                        Any::A(g) => Any::A(g.clone()),
                        Any::Z(g) => Any::Z(g.clone()),
                        Any::W(g) => Any::W(g.clone()),
                        Any::H(g) => Any::H(g.clone()),
                        #[cfg(feature = "unsized")]
                        Any::V(g) => Any::V(g.clone()),
                        #[cfg(feature = "unsized")]
                        Any::Y(g) => Any::Y(g.clone()),
                    }
                }

                pub fn try_clone(&self) -> Option<Any> {
                    Some(match self {
                        Any::N(g) => Any::N(Gc::try_clone(g)?),
                        Any::B(g) => Any::B(Gc::try_clone(g)?),
                        Any::L(g) => Any::L(Gc::try_clone(g)?),
                        Any::A(g) => Any::A(Gc::try_clone(g)?),
                        Any::Z(g) => Any::Z(Gc::try_clone(g)?),
                        Any::W(g) => Any::W(Gc::try_clone(g)?),
                        Any::H(g) => Any::H(Gc::try_clone(g)?),
                        #[cfg(feature = "unsized")]
                        Any::V(g) => Any::V(Gc::try_clone(g)?),
                        #[cfg(feature = "unsized")]
                        Any::Y(g) => Any::Y(Gc::try_clone(g)?),
                    })
                }

                /// Dereference in all supported ways; -9 if they disagree.
                pub fn deref(&self) -> i64 {
                    each!(self, g => {
                        let a = (**g).ident();
                        let r: &_ = AsRef::as_ref(g);
                        let b = r.ident();
                        let c = brw(g).ident();
                        let p = Gc::as_ptr(g) as *const u8 as usize;
                        let q = &**g as *const _ as *const u8 as usize;
                        let f = format!("{:p}", *g);
                        if a == b && b == c && p == q && f.contains(&format!("{:x}", p)) { a } else { -9 }
                    })
                }

                /// A single dereference.
                pub fn deref1(&self) -> i64 {
                    each!(self, g => (**g).ident())
                }

                pub fn try_deref(&self) -> i64 {
                    each!(self, g => Gc::try_deref(g).map_or(0, |v| v.ident()))
                }

                pub fn addr(&self) -> usize {
                    each!(self, g => Gc::as_ptr(g) as *const u8 as usize)
                }

                /// `None` if the static types differ.
                pub fn ptr_eq(&self, o: &Any) -> Option<bool> {
                    Some(match (self, o) {
                        (Any::N(a), Any::N(b)) => Gc::ptr_eq(a, b),
                        (Any::B(a), Any::B(b)) => Gc::ptr_eq(a, b),
                        (Any::L(a), Any::L(b)) => Gc::ptr_eq(a, b),
                        (Any::A(a), Any::A(b)) => Gc::ptr_eq(a, b),
                        (Any::Z(a), Any::Z(b)) => Gc::ptr_eq(a, b),
                        (Any::W(a), Any::W(b)) => Gc::ptr_eq(a, b),
                        (Any::H(a), Any::H(b)) => Gc::ptr_eq(a, b),
                        #[cfg(feature = "unsized")]
                        (Any::V(a), Any::V(b)) => Gc::ptr_eq(a, b),
                        #[cfg(feature = "unsized")]
                        (Any::Y(a), Any::Y(b)) => Gc::ptr_eq(a, b),
                        _ => return None,
                    })
                }

                /// `==` on values that have it.
                pub fn eq(&self, o: &Any) -> Option<bool> {
                    Some(match (self, o) {
                        (Any::L(a), Any::L(b)) => a == b,
                        (Any::N(a), Any::N(b)) => a == b,
                        _ => return None,
                    })
                }

                /// Unsize the pointer, if it can be.
                pub fn coerce(self) -> (Any, bool) {
                    match self {
                        #[cfg(feature = "unsized")]
                        Any::N(g) => (Any::Y(if flip() { here::node(g) } else { there::node(g) }), true),
                        #[cfg(feature = "unsized")]
                        Any::B(g) => (Any::Y(if flip() { here::big(g) } else { there::big(g) }), true),
                        #[cfg(feature = "unsized")]
                        Any::W(g) => (Any::V(g), true),
                        x => (x, false),
                    }
                }

                /// The cell of a slot; dereferences the pointer.
                pub fn slot(&self, s: usize) -> Option<&Cell2<Val>> {
                    match self {
                        Any::N(g) => g.slots.get(s),
                        Any::B(g) => g.node.slots.get(s),
                        Any::W(g) => g.get(s).map(|e| &e.slot),
                        Any::H(g) => g.slots.get(s),
                        #[cfg(feature = "unsized")]
                        Any::V(g) => g.get(s).map(|e| &e.slot),
                        #[cfg(feature = "unsized")]
                        Any::Y(g) => g.node().slots.get(s),
                        _ => None,
                    }
                }

                /// The cells of all slots, with a single dereference.
                pub fn slots(&self) -> Vec<&Cell2<Val>> {
                    match self {
                        Any::N(g) => g.slots.iter().collect(),
                        Any::B(g) => g.node.slots.iter().collect(),
                        Any::W(g) => g.iter().map(|e| &e.slot).collect(),
                        Any::H(g) => g.slots.iter().collect(),
                        #[cfg(feature = "unsized")]
                        Any::V(g) => g.iter().map(|e| &e.slot).collect(),
                        #[cfg(feature = "unsized")]
                        Any::Y(g) => g.node().slots.iter().collect(),
                        _ => Vec::new(),
                    }
                }

                pub fn is_node(&self) -> bool {
                    !matches!(self, Any::L(_) | Any::A(_) | Any::Z(_))
                }
            }

            /// Coercions in different modules, so that the vtables may differ.
            #[cfg(feature = "unsized")]
            mod here {
                use super::*;
                #[inline(never)]
                pub fn node(g: Gc<Node>) -> Gc<dyn Obj> { g }
                #[inline(never)]
                pub fn big(g: Gc<Big>) -> Gc<dyn Obj> { g }
            }
            #[cfg(feature = "unsized")]
            mod there {
                use super::*;
                #[inline(never)]
                pub fn node(g: Gc<Node>) -> Gc<dyn Obj> { g }
                #[inline(never)]
                pub fn big(g: Gc<Big>) -> Gc<dyn Obj> { g }
            }

            thread_local! {
                /// What the default value is.
                static NEXT: std::cell::Cell<(usize, u64)> = const { std::cell::Cell::new((0, 0)) };
            }
            impl Default for Leaf {
                fn default() -> Leaf {
                    let (id, canary) = NEXT.with(|n| n.get());
                    Leaf { id, canary }
                }
            }
            impl PartialEq for Leaf {
                fn eq(&self, o: &Leaf) -> bool { val_eq(self.id, o.id) }
            }
            impl PartialEq for Node {
                fn eq(&self, o: &Node) -> bool { val_eq(self.id, o.id) }
            }

            /// Run the destructor script of an object with access to its slots.
            fn dying(id: usize, ok: bool, slots: &mut [&mut Cell2<Val>]) {
                exec::begin_drop(id, ok);
                exec::drop_script(id, slots, to_h, from_h);
                exec::end_drop(id);
            }

            impl Drop for Node {
                fn drop(&mut self) {
                    // a node inside a big value shares the identity of the big value
                    let me = self as *const _ as usize;
                    let ok = self.canary == CANARY ^ self.id as u64 && arena::by_value(me) == self.id;
                    self.canary ^= 0xFFFF;
                    let id = self.id;
                    let mut it = self.slots.iter_mut();
                    let mut v = [it.next().unwrap(), it.next().unwrap(), it.next().unwrap()];
                    dying(id, ok, &mut v);
                }
            }
            impl Drop for Wide {
                fn drop(&mut self) {
                    let ok = self.ident() == self.id as i64;
                    self.canary ^= 0xFFFF;
                    let id = self.id;
                    let mut v: Vec<_> = self.slots.iter_mut().collect();
                    dying(id, ok, &mut v);
                }
            }
            impl Drop for Leaf {
                fn drop(&mut self) {
                    let ok = check(self.id, self.canary, self as *const _ as usize) == self.id as i64;
                    self.canary ^= 0xFFFF;
                    dying(self.id, ok, &mut []);
                }
            }
            impl Drop for Align {
                fn drop(&mut self) {
                    let ok = self.ident() == self.id as i64;
                    self.canary ^= 0xFFFF;
                    dying(self.id, ok, &mut []);
                }
            }
            impl Drop for Zst {
                fn drop(&mut self) {
                    let id = arena::by_value(self as *const _ as usize);
                    dying(id, id != 0, &mut []);
                }
            }
            impl Drop for Elem {
                fn drop(&mut self) {
                    let ok = self.canary == CANARY ^ self.id as u64;
                    self.canary ^= 0xFFFF;
                    // the elements of an array are dropped in order
                    if self.idx == 0 {
                        let id = self.id;
                        let mut v = [&mut self.slot];
                        dying(id, ok, &mut v);
                    } else if !ok {
                        crate::ev!("[\"vd\",{},{},0]", sched::tid(), self.id);
                    }
                }
            }
        }
    };
}

family!(u, 0, unsync, H, |v| v, |h| Ok(h), ['static], |id: usize, canary| {
    // every other one
    if id % 2 == 0 {
        return Gc::new(Leaf { id, canary });
    }
    NEXT.with(|n| n.set((id, canary)));
    Gc::default()
});
family!(s, 1, sync, Any, |v| H::S(v), |h| match h { H::S(a) => Ok(a), x => Err(x) }, [Send + Sync + 'static], |id, canary| Gc::new(Leaf { id, canary }));

impl H {
    pub fn dom(&self) -> u8 {
        match self {
            H::U(_) => 0,
            H::S(_) => 1,
        }
    }
    pub fn clone(&self) -> H {
        match self {
            H::U(a) => H::U(a.clone()),
            H::S(a) => H::S(a.clone()),
        }
    }
    pub fn try_clone(&self) -> Option<H> {
        Some(match self {
            H::U(a) => H::U(a.try_clone()?),
            H::S(a) => H::S(a.try_clone()?),
        })
    }
    pub fn deref(&self) -> i64 {
        match self {
            H::U(a) => a.deref(),
            H::S(a) => a.deref(),
        }
    }
    pub fn deref1(&self) -> i64 {
        match self {
            H::U(a) => a.deref1(),
            H::S(a) => a.deref1(),
        }
    }
    pub fn try_deref(&self) -> i64 {
        match self {
            H::U(a) => a.try_deref(),
            H::S(a) => a.try_deref(),
        }
    }
    pub fn addr(&self) -> usize {
        match self {
            H::U(a) => a.addr(),
            H::S(a) => a.addr(),
        }
    }
    pub fn ptr_eq(&self, o: &H) -> Option<bool> {
        match (self, o) {
            (H::U(a), H::U(b)) => a.ptr_eq(b),
            (H::S(a), H::S(b)) => a.ptr_eq(b),
            _ => None,
        }
    }
    pub fn eq(&self, o: &H) -> Option<bool> {
        match (self, o) {
            (H::U(a), H::U(b)) => a.eq(b),
            (H::S(a), H::S(b)) => a.eq(b),
            _ => None,
        }
    }
    pub fn coerce(self) -> (H, bool) {
        match self {
            H::U(a) => {
                let (a, b) = a.coerce();
                (H::U(a), b)
            }
            H::S(a) => {
                let (a, b) = a.coerce();
                (H::S(a), b)
            }
        }
    }
}
