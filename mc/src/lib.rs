pub mod engine;
pub mod model;
pub mod props;
pub mod spec;

#[global_allocator]
static ALLOC: engine::Alloc = engine::Alloc;

/// The command line of the explorer: `check ID [quick|thorough]`, `replay FILE`, or `list`.
pub fn main_with(props: &'static [&'static engine::Property]) -> ! {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map_or("", |s| s.as_str());
    let code = match arg(1) {
        "check" => match props.iter().find(|p| p.id == arg(2)) {
            Some(p) => engine::check(p, arg(3) == "thorough"),
            None => {
                eprintln!("no such property: {}", arg(2));
                2
            }
        },
        "programs" => {
            let n = props::literal::write_programs(arg(2) == "thorough", std::path::Path::new(arg(3)), arg(4), arg(5));
            println!("{} programs", n.expect("write the programs"));
            0
        }
        "replay" => engine::replay(props, arg(2)),
        "list" => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}
