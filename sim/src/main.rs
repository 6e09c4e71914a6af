//! upsim: deterministic simulation of the template engine.

mod alloc;
mod ast;
mod avail;
mod big;
mod conv;
mod cover;
mod exec;
mod funcs;
mod gen;
mod minimise;
mod model;
mod props;
mod real;
mod refparse;
mod rng;
mod sched;
mod scen;
mod ser;
mod shapes;
mod val;
mod worker;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    std::process::exit(worker::big(worker::main));
}
