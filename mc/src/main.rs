mod act;
mod ast;
mod cfg;
mod total;
mod inc;
mod comp;
mod engine;
mod fmt;
mod gen;
mod info;
mod ladder;
mod nav;
mod ops;
mod refwat;
mod srv;
mod svc;
mod syntax;
mod ty;
mod view;

use engine::*;

static ALL: &[&Property] = &[&syntax::C01, &syntax::C02, &syntax::C03, &fmt::C04, &fmt::C05, &fmt::C06, &nav::C07, &nav::C08, &nav::C09, &nav::C10, &ty::C11, &info::C12, &comp::C13, &act::C17, &view::C14, &view::C15, &view::C16, &view::C18, &inc::C19, &total::C20, &srv::C21, &total::C22, &ast::C23, &cfg::C24];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &'static Property {
        ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let p = find(&args[2]);
            let tier = if args.get(3).is_some_and(|t| t == "thorough") { Tier::Thorough } else { Tier::Quick };
            let trace = args.get(4).is_some_and(|t| t == "trace");
            let n = if trace { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) };
            std::process::exit(run(p, tier, n, trace));
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let p = find(v["property"].as_str().unwrap());
            let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run_one(p, &c, &mut Rec::default())).unwrap();
            match h.join().unwrap() {
                Ok(()) => println!("replay: property holds on this case"),
                Err(m) => {
                    println!("replay: {m}");
                    std::process::exit(1)
                }
            }
        }
        Some("dump") => dump(&args[2]),
        _ => {
            eprintln!("usage: watmc run <ID> quick|thorough [trace] | replay <file> | dump <file>");
            std::process::exit(2)
        }
    }
}

fn dump(f: &str) {
    use rowan::ast::AstNode;
    let src = std::fs::read_to_string(f).unwrap();
    let mut p = wat_parser::Parser::new(&src);
    let root = p.parse();
    println!("lossless={}", root.to_string() == src);
    for e in p.errors() {
        println!("ERR {}..{} {}", e.start, e.end, e.message);
    }
    println!("{:#?}", root);
    let r = wat_syntax::ast::Root::cast(root).unwrap();
    println!("--- fmt\n{}", wat_formatter::format(&r, &Default::default()));
    let s = svc::Svc::open(&src);
    for d in s.diagnostics(svc::U) {
        println!("DIAG {}", serde_json::to_string(&d).unwrap());
    }
}
