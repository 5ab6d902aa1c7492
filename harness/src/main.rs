mod alloc;
mod ast;
mod conv;
mod exec;
mod fix;
mod fw;
mod gen;
mod interp;
mod lex;
mod model;
mod names;
mod parse;
mod print;
mod props;
mod rng;
mod stat;
mod synth;
mod verify;
mod vm;

use fw::Tier;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    std::env::remove_var("CLICOLOR_FORCE");
    std::env::set_var("NO_COLOR", "1");
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let prop = |id: &str| props::find(id).unwrap_or_else(|| panic!("unknown property {}", id));
    let code = match arg(1) {
        "check" => {
            let t = tier(&std::env::var("VERIF_TIER").unwrap_or_else(|_| arg(3).to_string()));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            fw::check(prop(arg(2)), t, seed)
        }
        "work" => fw::worker(prop(arg(2)), num(3), tier(arg(4)), num(5), num(6), num(7), arg(8), num(9)),
        "one" => fw::one(prop(arg(2)), num(3), num(4), tier(arg(5))),
        "run" => {
            let src = std::fs::read_to_string(arg(2)).unwrap();
            fw::with_stack(512, move || exec::show(&src, std::env::args().any(|a| a == "--module")));
            0
        }
        "digest" => {
            let (a, b, c) = (num(2), num(3), num(4));
            match fw::with_stack(512, move || props::code::digest(a, b, c == 1)) {
                Ok(s) => {
                    print!("{}", s);
                    0
                }
                Err(_) => 1,
            }
        }
        "crowd" => props::threads::fresh(num(2), num(3), num(4)),
        "texts" => props::mem::texts(arg(2)),
        "deep" => props::diag::deep_run(num(2) as usize, num(3) as usize),
        "list" => {
            props::ALL.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => {
            eprintln!("usage: vh check PROP | one PROP SEED CASE TIER | list");
            2
        }
    };
    std::process::exit(code);
}
