#![allow(dead_code)]
mod ast;
mod choice;
mod cli;
mod engine;
mod eval;
mod gen;
mod infer;
mod irgen;
mod irparse;
mod lexref;
mod loops;
mod lsp;
mod mem;
mod print;
mod props;
mod scope;
mod stdlib;
mod sut;
mod syntaxref;
mod texts;

#[global_allocator]
static MEMORY: mem::Counting = mem::Counting;

fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let rc = match a.get(1).copied() {
        Some("check") => engine::supervise(find(a[2]), seed(), a.get(3).map(|t| *t == "thorough").unwrap_or_else(thorough)),
        Some("work") => engine::worker(find(a[2]), num(a[3]), a[4] == "thorough", num(a[5]), num(a[6]), num(a[7])),
        Some("shrinkd") => engine::shrinkd(find(a[2]), a[3] == "thorough"),
        Some("one") => engine::one(find(a[2]), num(a[3]), a[4] == "thorough", num(a[5])),
        Some("replay") => {
            let t = std::fs::read_to_string(a[2]).expect("replay file");
            let j: serde_json::Value = serde_json::from_str(&t).expect("json");
            let choices = j["choices"].as_array().unwrap().iter().filter_map(|x| x.as_u64()).collect();
            engine::replay(find(j["property"].as_str().unwrap()), j["tier"] == "thorough", j["case"].as_u64().unwrap_or(0), choices)
        }
        // for looking at things by hand: every answer at one offset
        Some("ask") => {
            let t = sut::Texts::single(&std::fs::read_to_string(a[2]).expect("file"));
            let p = ticc::Pos::new(num(a[3]) as u32);
            let mut u = t.unit(false, true);
            println!("def {:?}\nrefs {:?}", u.find_definition(p), u.find_references(p));
            println!("hover {:?}", u.info(p).map(|i| (i.span, i.doc)));
            println!("completion {:?}", u.completions(p).map(|c| c.into_iter().map(|c| c.name).collect::<Vec<_>>()));
            println!("{}", sut::fmt_diags(&t.root, &t.diagnostics().unwrap()));
            0
        }
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: ticv check ID [quick|thorough] | one ID SEED TIER CASE | replay FILE | list");
            2
        }
    };
    std::process::exit(rc);
}

fn num(s: &str) -> u64 {
    s.parse().expect("number")
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn find(id: &str) -> &'static engine::Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}
