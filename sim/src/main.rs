mod dict;
mod exec;
mod gen;
mod model;
mod oracle;
mod runner;
mod shrink;
mod world;

fn main() {
    vcore::ffi::keep();
    dict::dict();
    runner::main();
}
