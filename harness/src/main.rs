//! Explicit-state / exhaustive-execution checker for retrocompressor.
mod alloc;
mod data;
mod eng;
mod imp;
mod model_lzhuf;
mod model_lzw;
mod props;

#[global_allocator]
static ALLOC: alloc::Count = alloc::Count;

fn main() {
    imp::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match s(1) {
        "run" => eng::parent(s(2), if s(3).is_empty() { "quick" } else { s(3) }),
        "work" => eng::work(s(2), s(3)),
        "replay" => eng::replay(s(2)),
        "one" => {
            println!("{}", props::seq::one(s(2)));
            0
        }
        _ => {
            eprintln!("usage: mc run <property> <quick|thorough> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
