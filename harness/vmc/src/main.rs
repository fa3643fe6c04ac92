mod c19;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod compile;
mod glue;
mod shards;
mod util;
mod worker;

use util::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    if let Some(a) = get("--script") { c23::script_main(&a) }
    let mut o = Opts {
        prop: args.first().cloned().expect("property"),
        thorough: get("--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() == Some("thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        case: get("--case").and_then(|s| s.parse().ok()),
        start: std::time::Instant::now(),
        cache: false,
    };
    if let Some(f) = get("--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("replay file");
        o.thorough = v["tier"] == "thorough";
        o.case = v["case"].as_u64().map(|c| c as usize);
    }
    std::panic::set_hook(Box::new(|i| if std::thread::current().name() == Some("main") { eprintln!("{}", i) }));
    if let Some(k) = get("--worker").and_then(|s| s.parse::<usize>().ok()) {
        std::panic::set_hook(Box::new(|i| util::PANIC_AT.with(|p| *p.borrow_mut() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default())));
        match &*o.prop {
            "C19" => c19::work(&o, k),
            "C21" => c21::work(&o, k),
            "C23" => c23::work(&o, k),
            "C24" => c24::work(&o, k),
            _ => panic!("no such worker"),
        }
        return;
    }
    let r = match &*o.prop {
        "C19" => c19::run(&o),
        "C21" => c21::run(&o),
        "C23" => c23::run(&o),
        "C24" => c24::run(&o),
        "C25" => c25::run(&o),
        _ => shards::run(&o),
    };
    let code = match r {
        Ok(r) => conclude(&o, r),
        Err(e) => { eprintln!("no verdict: {}", e); 2 }
    };
    std::process::exit(code);
}
