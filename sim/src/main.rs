mod ast;
mod bulk;
mod devfuzz;
mod disk;
mod driver;
mod eval;
mod grow;
mod io;
mod known;
mod lists;
mod live;
mod mem;
mod mparse;
mod oom;
mod props;
mod regex_model;
mod run;
mod scn;
mod themes;
#[cfg(feature = "trace")]
mod spans;

use jprt::*;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn usage() -> ! {
    eprintln!("usage: jpsim check PROPERTY quick|thorough | replay FILE | dev FROM TO");
    std::process::exit(2)
}

fn main() {
    jpfuncs::touch();
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let env = |n: &str| std::env::var(n).ok();
    if let ["dev", from, to] = a[1..] {
        known::init(&env("VERIF_DIR").unwrap_or_else(|| "/verif".into()));
        return devfuzz::run(from.parse().unwrap(), to.parse().unwrap());
    }
    unsafe {
        libc::mallopt(libc::M_ARENA_MAX, 1);
    }
    hooks::prepare();
    alloc::map();
    let verif = env("VERIF_DIR").unwrap_or_else(|| "/verif".into());
    known::init(&verif);
    let code = match a[1..] {
        ["check", prop, tier @ ("quick" | "thorough")] => {
            let thorough = tier == "thorough";
            driver::check(&driver::Plan {
                prop: prop.into(),
                seconds: env("VERIF_SECONDS").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 480.0 } else { 50.0 }),
                seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
                verif: verif.clone(),
                thorough,
            })
        }
        ["oracle"] => driver::oracle(),
        ["replay", file] => driver::replay(file),
        _ => usage(),
    };
    std::process::exit(code)
}
