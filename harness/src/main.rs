#![allow(dead_code)]
mod campaign;
mod clientside;
mod cover;
mod ends;
mod exec;
mod fail;
mod front;
mod gen;
mod io;
mod lsp;
mod machine;
mod memory;
mod mock;
mod props;
mod races;
mod rig;
mod senders;
mod slots;
mod std_methods;
mod turns;
mod watch;
mod wire;

#[global_allocator]
static ALLOCATOR: memory::Counting = memory::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(campaign::main(&args[1..]));
}
