#![allow(dead_code)]
mod canon;
mod damage;
mod faults;
mod gen;
mod node;
mod pkg;
mod props;
mod runner;
mod story;
mod vocab;

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

fn main() {
    simrt::atomics::keep();
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 3 => runner::check(find(&a[2])),
        Some("replay") if a.len() == 3 => runner::replay(&props, &a[2]),
        Some("show") if a.len() == 5 => {
            runner::show(find(&a[2]), a[3].parse().unwrap_or(1), a[4].parse().unwrap_or(0));
            0
        }
        _ => {
            eprintln!("usage: sim check <id> | replay <file> | show <id> <seed> <run>");
            2
        }
    };
    std::process::exit(code)
}
