mod alias;
mod alloc;
mod bridge;
mod builders;
mod c01;
mod c09;
mod c18;
mod c20;
mod codec;
mod conn;
mod explore;
mod huge;
mod leafs;
mod product;
mod props_conn;
mod refcodec;
mod report;
mod scale;
mod space;
mod sys;
mod totality;
mod world;

use report::{Ctx, Tier};

fn main() {
    explore::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: mc <Cxx> quick|thorough");
        std::process::exit(2);
    }
    let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut ctx = Ctx::new(&a[1], tier);
    explore::watchdog(&a[1], tier);
    match a[1].as_str() {
        "C05" => {
            huge::run(&mut ctx);
            scale::run(&mut ctx, "C05");
            props_conn::run(&mut ctx, "C05")
        }
        "C06" | "C07" | "C08" | "C11" | "C12" | "C14" | "C15" | "C19" => {
            scale::run(&mut ctx, &a[1]);
            props_conn::run(&mut ctx, &a[1])
        }
        "C13" => {
            alias::run(&mut ctx);
            scale::run(&mut ctx, "C13");
            props_conn::run(&mut ctx, "C13")
        }
        "C17" => {
            product::run(&mut ctx, "C17");
            props_conn::run(&mut ctx, "C17")
        }
        "C10" => product::run(&mut ctx, "C10"),
        "C16" => {
            scale::run(&mut ctx, "C16");
            product::run(&mut ctx, "C16");
            props_conn::run(&mut ctx, "C16")
        }
        "C04" => totality::run(&mut ctx, false),
        "C02" | "C03" => codec::run(&mut ctx, &a[1]),
        "C01" => c01::run(&mut ctx),
        "C09" => c09::run(&mut ctx),
        "C18" => c18::run(&mut ctx),
        "C20" => c20::run(&mut ctx),
        _ => {
            eprintln!("unknown property {}", a[1]);
            std::process::exit(2);
        }
    }
    eprintln!("  longest single call: {} ms", explore::longest_call_ms());
    std::process::exit(ctx.finish());
}
