//! Global allocator: allocations made while a `Gc` is being created come from an arena of
//! page-aligned blocks at fixed addresses.  Releasing such a block is recorded and the pages are
//! made inaccessible, so that every later access faults.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

pub const BASE: usize = 0x6000_0000_0000;
pub const PAGE: usize = 4096;
pub const PAGES: usize = 4096;
pub const MAXOBJ: usize = 200;

pub struct Arena;

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static LAST: Cell<[(usize, usize, usize); 4]> = const { Cell::new([(0, 0, 0); 4]) };
}

static READY: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// When set, a released block is handed out again by the next allocation of the same size.
pub static REUSE: AtomicBool = AtomicBool::new(false);
static REUSE_BLOCK: AtomicUsize = AtomicUsize::new(0);
static REUSE_PAGES: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy)]
#[allow(dead_code)]
pub struct Obj {
    pub base: usize,
    pub size: usize,
    pub align: usize,
    pub value: usize,
}
const NOOBJ: Obj = Obj {
    base: 0,
    size: 0,
    align: 0,
    value: 0,
};
static mut OBJ: [Obj; MAXOBJ] = [NOOBJ; MAXOBJ];
/// Object currently (or last) living in a page.
static mut OWNER: [u16; PAGES] = [0; PAGES];
static mut SIZE: [usize; PAGES] = [0; PAGES];
static mut ALIGN: [usize; PAGES] = [0; PAGES];

pub fn init() {
    unsafe {
        let p = libc::mmap(
            BASE as *mut _,
            PAGE * PAGES,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert_eq!(p as usize, BASE);
    }
    READY.store(true, SeqCst);
}

/// Forget everything; only valid when nothing refers into the arena any more.
pub fn reset() {
    let n = NEXT.swap(0, SeqCst);
    unsafe {
        if n > 0 {
            libc::mprotect(BASE as *mut _, n * PAGE, libc::PROT_READ | libc::PROT_WRITE);
            libc::madvise(BASE as *mut _, n * PAGE, libc::MADV_DONTNEED);
        }
        for i in 0..n.min(PAGES) {
            OWNER[i] = 0;
        }
        for i in 0..MAXOBJ {
            OBJ[i] = NOOBJ;
        }
    }
    REUSE_BLOCK.store(0, SeqCst);
}

/// Run `f`, which creates one `Gc`, and register its allocation as object `id`.
/// `addr` extracts the address of the value.
pub fn create<G>(id: usize, f: impl FnOnce() -> G, addr: impl FnOnce(&G) -> usize) -> G {
    TRACK.with(|t| t.set(true));
    LAST.with(|l| l.set([(0, 0, 0); 4]));
    let g = f();
    TRACK.with(|t| t.set(false));
    let value = addr(&g);
    let (base, size, align) = LAST
        .with(Cell::get)
        .into_iter()
        .find(|&(b, s, _)| b != 0 && b <= value && value <= b + s)
        .unwrap_or((0, 0, 0));
    unsafe {
        OBJ[id] = Obj {
            base,
            size,
            align,
            value,
        };
        if base != 0 {
            let first = (base - BASE) / PAGE;
            for p in first..first + size.div_ceil(PAGE) {
                OWNER[p] = id as u16;
            }
        }
    }
    g
}

pub fn obj(id: usize) -> Obj {
    unsafe { OBJ[id] }
}

/// The object and offset an address belongs to (0 if none).
pub fn lookup(addr: usize) -> (usize, usize) {
    if !(BASE..BASE + PAGE * PAGES).contains(&addr) {
        return (0, 0);
    }
    unsafe {
        let o = OWNER[(addr - BASE) / PAGE] as usize;
        (o, addr.wrapping_sub(OBJ[o].base))
    }
}

/// The object whose value lives at an address.
pub fn by_value(addr: usize) -> usize {
    unsafe {
        (1..MAXOBJ)
            .find(|&i| {
                OBJ[i].base != 0
                    && OBJ[i].value == addr
                    && OWNER[(OBJ[i].base - BASE) / PAGE] as usize == i
            })
            .unwrap_or(0)
    }
}

fn paused<R>(f: impl FnOnce() -> R) -> R {
    let old = TRACK.with(|t| t.replace(false));
    let r = f();
    TRACK.with(|t| t.set(old));
    r
}

/// Suspend tracking while user-level code runs inside a creation window.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    paused(f)
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !READY.load(SeqCst) || !TRACK.try_with(Cell::get).unwrap_or(false) {
            return System.alloc(layout);
        }
        let pages = layout.size().div_ceil(PAGE).max(1);
        let block = if REUSE.load(SeqCst)
            && REUSE_PAGES.load(SeqCst) == pages
            && REUSE_BLOCK.load(SeqCst) != 0
        {
            REUSE_BLOCK.swap(0, SeqCst)
        } else {
            let i = NEXT.fetch_add(pages, SeqCst);
            if i + pages > PAGES || layout.align() > PAGE {
                return System.alloc(layout);
            }
            BASE + i * PAGE
        };
        SIZE[(block - BASE) / PAGE] = layout.size();
        ALIGN[(block - BASE) / PAGE] = layout.align();
        LAST.with(|l| {
            let [a, b, c, _] = l.get();
            l.set([(block, layout.size(), layout.align()), a, b, c]);
        });
        block as *mut u8
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let a = ptr as usize;
        if !(BASE..BASE + PAGE * PAGES).contains(&a) {
            return System.dealloc(ptr, layout);
        }
        let i = (a - BASE) / PAGE;
        let o = OWNER[i] as usize;
        if o == 0 {
            return; // not a garbage-collected allocation
        }
        let ok = OBJ[o].base == a
            && SIZE[i] == layout.size()
            && ALIGN[i] == layout.align();
        paused(|| crate::ev!("[\"fr\",{},{},{}]", crate::sched::tid(), o, ok as u8));
        let pages = SIZE[i].div_ceil(PAGE).max(1);
        if REUSE.load(SeqCst) {
            std::ptr::write_bytes(ptr, 0xDD, SIZE[i]);
            REUSE_PAGES.store(pages, SeqCst);
            REUSE_BLOCK.store(a & !(PAGE - 1), SeqCst);
        } else {
            libc::mprotect((a & !(PAGE - 1)) as *mut _, pages * PAGE, libc::PROT_NONE);
        }
    }
}
