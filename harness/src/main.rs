mod ambient;
mod case;
mod checks;
mod gen;
mod gram;
mod mem;
mod model;
mod real;
mod rng;
mod run;
mod selftest;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

fn main() {
    std::process::exit(run::main());
}
