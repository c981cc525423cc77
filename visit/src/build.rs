//! Construction of values from tokens.
use dumpster::{sync, unsync, Collectable, Visitor};
use std::borrow::Cow;
use std::cell::{OnceCell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, RwLock};

pub struct Tok(#[allow(dead_code)] u64);
impl From<u64> for Tok {
    fn from(n: u64) -> Tok {
        Tok(n)
    }
}
unsafe impl Collectable for Tok {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}
pub type U = unsync::Gc<Tok>;
pub type S = sync::Gc<Tok>;
pub type P = u32;

pub struct Src {
    toks: Vec<String>,
    at: usize,
    keys: u64,
    ids: HashMap<usize, u64>,
}

impl Src {
    pub fn new(t: &str) -> Src {
        Src { toks: t.split(' ').map(String::from).collect(), at: 0, keys: 0, ids: HashMap::new() }
    }
    pub fn next(&mut self) -> String {
        self.at += 1;
        self.toks[self.at - 1].clone()
    }
    fn num(&mut self) -> usize {
        self.next().parse().unwrap()
    }
    fn expect(&mut self, t: &str) {
        let x = self.next();
        assert_eq!(x, t);
    }
    pub fn id(&self, addr: usize) -> i64 {
        self.ids.get(&addr).map_or(-1, |&x| x as i64)
    }
    /// Distinct keys in an order unrelated to the order of creation.
    fn key(&mut self) -> u64 {
        self.keys += 1;
        self.keys * 7919 % 10007
    }
}

pub trait Build: Sized + 'static {
    fn build(s: &mut Src) -> Self;
}

impl Build for U {
    fn build(s: &mut Src) -> U {
        s.expect("u");
        let n = s.num() as u64;
        let g = U::new(Tok(n));
        s.ids.insert(unsync::Gc::as_ptr(&g) as *const u8 as usize, n);
        std::mem::forget(g.clone()); // addresses stay distinct
        g
    }
}
impl Build for S {
    fn build(s: &mut Src) -> S {
        s.expect("s");
        let n = s.num() as u64;
        let g = S::new(Tok(n));
        s.ids.insert(sync::Gc::as_ptr(&g) as *const u8 as usize, n);
        std::mem::forget(g.clone());
        g
    }
}
impl Build for P {
    fn build(s: &mut Src) -> P {
        s.expect("p");
        7
    }
}

/// Something with an order and a hash around a part.
#[derive(Clone)]
pub struct Key<T> {
    k: u64,
    v: T,
}
impl<T> PartialEq for Key<T> {
    fn eq(&self, o: &Self) -> bool {
        self.k == o.k
    }
}
impl<T> Eq for Key<T> {}
impl<T> PartialOrd for Key<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for Key<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.k.cmp(&o.k)
    }
}
impl<T> Hash for Key<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.k.hash(h)
    }
}
unsafe impl<T: Collectable> Collectable for Key<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.v.accept(v)
    }
}
impl<T: Build> Build for Key<T> {
    fn build(s: &mut Src) -> Self {
        let k = s.key();
        Key { k, v: T::build(s) }
    }
}

/// A hasher that owns a pointer.
pub struct Own {
    u: Option<U>,
    inner: RandomState,
}
impl BuildHasher for Own {
    type Hasher = <RandomState as BuildHasher>::Hasher;
    fn build_hasher(&self) -> Self::Hasher {
        self.inner.build_hasher()
    }
}
unsafe impl Collectable for Own {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.u.accept(v)
    }
}

fn many<T: Build>(s: &mut Src) -> Vec<T> {
    s.expect("n");
    let n = s.num();
    (0..n).map(|_| T::build(s)).collect()
}

impl<T: Build> Build for Box<T> {
    fn build(s: &mut Src) -> Self {
        Box::new(many(s).pop().unwrap())
    }
}
impl<T: Build> Build for Vec<T> {
    fn build(s: &mut Src) -> Self {
        many(s)
    }
}
impl<T: Build> Build for VecDeque<T> {
    fn build(s: &mut Src) -> Self {
        let mut d = VecDeque::new();
        for (i, x) in many(s).into_iter().enumerate() {
            // wrap around the end of the buffer
            if i % 2 == 0 {
                d.push_back(x)
            } else {
                d.push_front(x)
            }
        }
        d
    }
}
impl<T: Build> Build for LinkedList<T> {
    fn build(s: &mut Src) -> Self {
        many(s).into_iter().collect()
    }
}
impl<T: Build> Build for Box<[T]> {
    fn build(s: &mut Src) -> Self {
        many(s).into_boxed_slice()
    }
}
impl<T: Build, const N: usize> Build for [T; N] {
    fn build(s: &mut Src) -> Self {
        many(s).try_into().ok().unwrap()
    }
}
impl<T: Build> Build for Option<T> {
    fn build(s: &mut Src) -> Self {
        many(s).pop()
    }
}
impl<T: Build> Build for OnceCell<T> {
    fn build(s: &mut Src) -> Self {
        many::<T>(s).pop().map_or(OnceCell::new(), OnceCell::from)
    }
}
impl<T: Build> Build for HashSet<Key<T>> {
    fn build(s: &mut Src) -> Self {
        many(s).into_iter().collect()
    }
}
impl<T: Build> Build for BTreeSet<Key<T>> {
    fn build(s: &mut Src) -> Self {
        many(s).into_iter().collect()
    }
}
impl<T: Build> Build for BinaryHeap<Key<T>> {
    fn build(s: &mut Src) -> Self {
        many(s).into_iter().collect()
    }
}
impl<T: Build> Build for RefCell<T> {
    fn build(s: &mut Src) -> Self {
        s.expect("l");
        let st = s.next();
        let c = RefCell::new(T::build(s));
        match st.as_str() {
            "r" => std::mem::forget(c.borrow()),
            "w" => std::mem::forget(c.borrow_mut()),
            _ => (),
        }
        c
    }
}
impl<T: Build> Build for Mutex<T> {
    fn build(s: &mut Src) -> Self {
        s.expect("l");
        let st = s.next();
        let c = Mutex::new(T::build(s));
        if st == "p" || st == "q" {
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _g = c.lock();
                panic!()
            }));
        }
        if st == "w" || st == "q" {
            std::mem::forget(c.lock());
        }
        c
    }
}
impl<T: Build> Build for RwLock<T> {
    fn build(s: &mut Src) -> Self {
        s.expect("l");
        let st = s.next();
        let c = RwLock::new(T::build(s));
        if st == "p" || st == "q" {
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _g = c.write();
                panic!()
            }));
        }
        match st.as_str() {
            "w" | "q" => std::mem::forget(c.write()),
            "r" => std::mem::forget(c.read()),
            _ => (),
        }
        c
    }
}
impl<T: Build + Clone> Build for Cow<'static, T> {
    fn build(s: &mut Src) -> Self {
        let owned = s.next() == "ow";
        let x = T::build(s);
        if owned {
            Cow::Owned(x)
        } else {
            Cow::Borrowed(Box::leak(Box::new(x)))
        }
    }
}
impl<T: Build> Build for &'static T {
    fn build(s: &mut Src) -> Self {
        s.expect("bo");
        Box::leak(Box::new(T::build(s)))
    }
}
impl<A: Build, B: Build> Build for Result<A, B> {
    fn build(s: &mut Src) -> Self {
        if s.next() == "ok" {
            Ok(A::build(s))
        } else {
            Err(B::build(s))
        }
    }
}
impl<A: Build, B: Build> Build for HashMap<Key<A>, B> {
    fn build(s: &mut Src) -> Self {
        s.expect("m");
        let n = s.num() / 2;
        (0..n).map(|_| (Key::build(s), B::build(s))).collect()
    }
}
impl<A: Build, B: Build> Build for HashMap<Key<A>, B, Own> {
    fn build(s: &mut Src) -> Self {
        s.expect("m");
        let n = s.num() / 2;
        let kv: Vec<_> = (0..n).map(|_| (Key::build(s), B::build(s))).collect();
        let mut m = HashMap::with_hasher(Own { u: Some(U::build(s)), inner: RandomState::new() });
        m.extend(kv);
        m
    }
}
impl<A: Build, B: Build> Build for BTreeMap<Key<A>, B> {
    fn build(s: &mut Src) -> Self {
        s.expect("m");
        let n = s.num() / 2;
        (0..n).map(|_| (Key::build(s), B::build(s))).collect()
    }
}
macro_rules! tuple {
    ($($t:ident),*) => {
        impl<$($t: Build),*> Build for ($($t,)*) {
            fn build(s: &mut Src) -> Self {
                s.expect("n");
                s.num();
                ($($t::build(s),)*)
            }
        }
    };
}
tuple!(A);
tuple!(A, B);
tuple!(A, B, C);
tuple!(A, B, C, D);
tuple!(A, B, C, D, E);
tuple!(A, B, C, D, E, F);
tuple!(A, B, C, D, E, F, G);
tuple!(A, B, C, D, E, F, G, H);
tuple!(A, B, C, D, E, F, G, H, I);
tuple!(A, B, C, D, E, F, G, H, I, J);
