#![allow(dead_code, unused_imports, clippy::all)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
#[cfg(feature = "full")]
mod c06;
#[cfg(feature = "full")]
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
#[cfg(feature = "full")]
mod c15;
#[cfg(feature = "full")]
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
#[cfg(feature = "full")]
mod c30;
mod c31;
mod c32;
mod c33;
mod c34;
#[cfg(feature = "full")]
mod c35;
mod c36;
#[cfg(feature = "full")]
mod c37;
#[cfg(feature = "full")]
mod c38;
mod chartgen;
mod dml;
mod draw;
#[cfg(feature = "full")]
mod edges;
mod fmt;
mod helper;
mod kitchen;
mod util;
#[cfg(feature = "full")]
#[global_allocator]
static ALLOC: c37::Counter = c37::Counter;
fn main() {
    if std::env::args().nth(1).as_deref() == Some("twin") {
        return c36::twin();
    }
    run();
}
#[cfg(not(feature = "full"))]
fn run() {}
#[cfg(feature = "full")]
fn run() {
    if std::env::args().nth(1).as_deref() == Some("limited") {
        return c30::limited();
    }
    if std::env::args().nth(1).as_deref() == Some("mem") {
        return c37::mem();
    }
    // Used by setup.sh: compiles what the programs of C16 depend on.
    if std::env::args().nth(1).as_deref() == Some("prepare") {
        std::process::exit(i32::from(!c16::prepare()));
    }
    std::process::exit(kit::runner::main_with(vec![
        c01::prop(),
        c02::prop(),
        c03::prop(),
        c04::prop(),
        c05::prop(),
        c06::prop(),
        c07::prop(),
        c08::prop(),
        c09::prop(),
        c10::prop(),
        c11::prop(),
        c12::prop(),
        c13::prop(),
        c14::prop(),
        c15::prop(),
        c16::prop(),
        c17::prop(),
        c18::prop(),
        c19::prop(),
        c20::prop(),
        c21::prop(),
        c22::prop(),
        c23::prop(),
        c24::prop(),
        c25::prop(),
        c26::prop(),
        c27::prop(),
        c28::prop(),
        c29::prop(),
        c30::prop(),
        c31::prop(),
        c32::prop(),
        c33::prop(),
        c34::prop(),
        c35::prop(),
        c36::prop(),
        c37::prop(),
        c38::prop(),
    ]));
}
