//! Builds values of many types from a description, visits them and prints what was reported.
//! Input lines: `<case> <type number> <tokens>`; output lines: `<case> <events as JSON>`.
#![allow(deprecated)]
mod build;
mod types;
use build::Src;
use dumpster::{Collectable, Visitor};
use std::io::{BufRead, Write};

/// Notes every pointer it is shown.
struct Recorder<'a> {
    src: &'a Src,
    out: Vec<String>,
}

impl Visitor for Recorder<'_> {
    fn visit_sync<T>(&mut self, gc: &dumpster::sync::Gc<T>)
    where
        T: Collectable + Send + Sync + ?Sized,
    {
        let id = self.src.id(dumpster::sync::Gc::as_ptr(gc) as *const u8 as usize);
        self.out.push(format!("[\"s\",{id}]"));
    }

    fn visit_unsync<T>(&mut self, gc: &dumpster::unsync::Gc<T>)
    where
        T: Collectable + ?Sized,
    {
        let id = self.src.id(dumpster::unsync::Gc::as_ptr(gc) as *const u8 as usize);
        self.out.push(format!("[\"u\",{id}]"));
    }
}

pub fn go<T: build::Build + Collectable>(src: &mut Src) -> String {
    let v = T::build(src);
    visit(v, src)
}

pub fn go_val<T: Collectable>(v: T, src: &Src) -> String {
    visit(v, src)
}

/// Visit twice: the first visit must leave everything as it was.
fn visit<T: Collectable>(v: T, src: &Src) -> String {
    let mut all = Vec::new();
    for _ in 0..2 {
        let mut r = Recorder { src, out: Vec::new() };
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.accept(&mut r)));
        all.append(&mut r.out);
        all.push(match res {
            Ok(Ok(())) => "[\"ok\"]".into(),
            Ok(Err(())) => "[\"err\"]".into(),
            Err(_) => "[\"panic\"]".into(),
        });
    }
    // nothing is released: some cells are deliberately left borrowed
    std::mem::forget(v);
    format!("[{}]", all.join(","))
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let mut it = l.splitn(3, ' ');
        let case = it.next().unwrap();
        let ty: usize = it.next().unwrap().parse().unwrap();
        let mut src = Src::new(it.next().unwrap());
        let ev = types::run(ty, &mut src);
        writeln!(out, "{case} {ev}").unwrap();
        out.flush().unwrap();
    }
}
