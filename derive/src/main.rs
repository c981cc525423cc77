//! Visits values of derived types and prints what was reported: `<shape> <variant> <value> <events>`.
#![allow(dead_code, unused_imports, non_camel_case_types)]
mod rt;
mod shapes;

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    shapes::run();
}
