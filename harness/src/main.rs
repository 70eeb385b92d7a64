mod cb;
mod cost;
mod ctr;
mod dsu;
mod elems;
mod iv;
mod json;
mod util;

#[global_allocator]
static ALLOC: cost::Counting = cost::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (area, mode) = (args[1].as_str(), args[2].as_str());
    util::quiet_panics();
    if let Some(j) = util::arg(&args, "--journal") {
        util::open_journal(&j);
    }
    util::watchdog(util::arg_u(&args, "--watchdog", 60));
    let code = match area {
        #[cfg(debug_assertions)]
        "cb" | "ctr" | "dsu" if mode == "cost" => cost::main(area, &args),
        "cb" => cb::main(mode, &args),
        "ctr" => ctr::main(mode, &args),
        "dsu" => dsu::main(mode, &args),
        "iv" => iv::main(mode, &args),
        _ => panic!("TOOL: area {}", area),
    };
    std::process::exit(code);
}
