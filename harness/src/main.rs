//! Runtime monitors for osmpbf: `mon <property>` runs the check of one property.
//!
//! The parent starts several shards of itself, which run the real library under generated
//! workloads and judge what they observe. A shard that dies from a fault signal is a violation with
//! the case it was running; everything that is neither "held" nor "violated" ends with status 2.

mod alloc;
mod ctx;
mod dict;
mod gen;
mod model;
mod obs;
mod pb;
mod props;
mod rng;
mod src;
mod sup;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "hints") {
        println!("{:?}\n{:?}", dict::dict().nums, dict::dict().texts);
        return;
    }
    std::process::exit(sup::main(&args));
}
