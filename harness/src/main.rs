#![allow(invalid_runtime_symbol_definitions)]
#![allow(dead_code)]
mod alloc;
mod dict;
mod digest;
mod docs;
mod fsops;
mod gens;
mod interpose;
mod model;
mod props;
mod readers;
mod refsig;
mod runner;
mod scanlib;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") if a.len() == 3 => runner::run(props::all(), &a[2]),
        Some("worker") if a.len() == 8 => runner::worker(props::all(), &a[2], a[3].parse().unwrap(), a[4].parse().unwrap(),
            std::path::Path::new(&a[5]), a[6].parse().unwrap(),
            if a[7] == "thorough" { runner::Tier::Thorough } else { runner::Tier::Quick }),
        Some("replay") if a.len() == 3 => runner::replay(props::all(), std::path::Path::new(&a[2])),
        Some("dict") => { println!("{:?}", dict::dict().ints); for s in &dict::dict().strs { println!("{}", String::from_utf8_lossy(s).escape_debug()); } for s in &dict::dict().novel { println!("novel: {}", String::from_utf8_lossy(s).escape_debug()); } 0 }
        Some("list") => { for p in props::all() { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: vp-harness run <ID> | replay <file> | list"); 2 }
    };
    std::process::exit(code);
}
