//! Explorer library linked into the generated shards.
pub mod ops;
pub mod ctx;
pub mod codec;
mod ex_struct;
mod ex_msg;
mod ex_io;
mod ex_coll;
mod ex_giant;

pub use ops::*;
pub use spec::value::{ONest, Offs, EK, V};
use ctx::Ctx;
use spec::model::RProto;
use spec::space::{cases, Tier};

pub fn main(entries: &'static [(usize, &'static CaseOps)]) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let mut all = cases(&prop, tier);
    if let Some(t) = get("--parts").and_then(|f| std::fs::read_to_string(f).ok()) { spec::reduce::apply_text(&mut all, &t); }
    let ctx = Ctx::new(&prop, tier);
    ctx::watchdog();
    std::panic::set_hook(Box::new(|_| ()));
    let only = get("--case").and_then(|s| s.parse::<usize>().ok());
    for (id, ops) in entries {
        if only.is_some_and(|o| o != *id) { continue; }
        let case = &all[*id];
        ctx.begin(case);
        let mut rp: Vec<RProto> = Vec::new();
        for u in &case.units {
            let r = RProto::resolve(u, &rp).expect("resolve");
            rp.push(r);
        }
        match &*prop {
            "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" => ex_struct::run(&ctx, case, &rp, ops),
            "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C18" | "C22" | "C26" => ex_msg::run(&ctx, case, &rp, ops),
            "C15" | "C16" => ex_io::run(&ctx, case, &rp, ops),
            "C17" => ex_coll::run(&ctx, case, &rp, ops),
            _ => (),
        }
        if matches!(&*prop, "C02" | "C10" | "C15" | "C22") {
            match &*prop {
                "C02" => ex_msg::run(&ctx, case, &rp, ops),
                _ => ex_struct::run(&ctx, case, &rp, ops),
            }
        }
        if &*prop == "C18" && *id == 0 { ex_giant::run(&ctx); }
        if &*prop == "C13" && *id == 0 {
            // a nested message and its offsets, joined
            use bp3d_proto::util::MultiOptionExt;
            for (a, b) in [(None, None), (Some(1u8), None), (None, Some("x")), (Some(1u8), Some("x"))] {
                ctx.state();
                let got = ctx.call(|| "to_single".into(), || (a, b).to_single());
                if got != Ok(a.zip(b)) { ctx.fail("to_single", || format!("{:?} joined: {:?}", (a, b), got)); }
            }
        }
        if &*prop == "C22" { ex_io::run(&ctx, case, &rp, ops); }
    }
    ctx.finish();
}
