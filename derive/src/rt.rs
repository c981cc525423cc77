pub use dumpster::{sync, unsync, Collectable};
use dumpster::Visitor;
pub use std::cell::RefCell;
pub use std::marker::PhantomData;
pub use std::sync::Mutex;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Tok(u64);
unsafe impl Collectable for Tok {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}
pub type Pu = unsync::Gc<Tok>;
pub type Ps = sync::Gc<Tok>;
pub type Pp = u32;
pub type Pw = RefCell<Pu>;
pub type Pv = Mutex<Ps>;
#[derive(Collectable)]
pub struct Inner {
    a: Pu,
    b: Pw,
}
pub trait Bound {}
impl<T: ?Sized> Bound for T {}

thread_local! { static IDS: RefCell<HashMap<usize, u64>> = RefCell::new(HashMap::new()); }

fn note(addr: usize, id: u64) {
    IDS.with(|m| m.borrow_mut().insert(addr, id));
}
pub fn u(id: u64) -> Pu {
    let g = Pu::new(Tok(id));
    note(unsync::Gc::as_ptr(&g) as *const u8 as usize, id);
    std::mem::forget(g.clone());
    g
}
pub fn s(id: u64) -> Ps {
    let g = Ps::new(Tok(id));
    note(sync::Gc::as_ptr(&g) as *const u8 as usize, id);
    std::mem::forget(g.clone());
    g
}
pub fn w(id: u64, st: &str) -> Pw {
    let c = RefCell::new(u(id));
    match st {
        "r" => std::mem::forget(c.borrow()),
        "w" => std::mem::forget(c.borrow_mut()),
        _ => (),
    }
    c
}
pub fn v(id: u64, st: &str) -> Pv {
    let c = Mutex::new(s(id));
    match st {
        "p" => {
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _g = c.lock();
                panic!()
            }));
        }
        "w" => std::mem::forget(c.lock()),
        _ => (),
    }
    c
}
pub fn i(a: Pu, b: Pw) -> Inner {
    Inner { a, b }
}

struct Recorder(Vec<String>);
impl Recorder {
    fn put(&mut self, k: char, addr: usize) {
        let id = IDS.with(|m| m.borrow().get(&addr).map_or(-1, |&x| x as i64));
        self.0.push(format!("[\"{k}\",{id}]"));
    }
}
impl Visitor for Recorder {
    fn visit_sync<T: Collectable + Send + Sync + ?Sized>(&mut self, gc: &sync::Gc<T>) {
        self.put('s', sync::Gc::as_ptr(gc) as *const u8 as usize);
    }
    fn visit_unsync<T: Collectable + ?Sized>(&mut self, gc: &unsync::Gc<T>) {
        self.put('u', unsync::Gc::as_ptr(gc) as *const u8 as usize);
    }
}

pub fn show<T: Collectable>(shape: usize, variant: usize, value: usize, x: T) {
    let mut all = Vec::new();
    for _ in 0..2 {
        let mut r = Recorder(Vec::new());
        let res = catch_unwind(AssertUnwindSafe(|| x.accept(&mut r)));
        all.append(&mut r.0);
        all.push(match res {
            Ok(Ok(())) => "[\"ok\"]".into(),
            Ok(Err(())) => "[\"err\"]".into(),
            Err(_) => "[\"panic\"]".to_string(),
        });
    }
    std::mem::forget(x);
    println!("{shape} {variant} {value} [{}]", all.join(","));
}
