//! P23: every definition the macros accept gets a correct codec. P24: data of other definitions is never accepted.
#![allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;
mod defs;
mod versions;

#[global_allocator]
static A: util::Mon = util::Mon;

fn main() {
    // the enumeration of all blocks has hundreds of variants: unoptimised readers of it need a large frame
    std::env::set_var("RUST_MIN_STACK", "268435456");
    let args: Vec<String> = std::env::args().collect();
    let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = std::env::var("VERIF_OUT").unwrap_or("/verif".into());
    if std::env::var("HARNESS_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    util::start_watchdog();
    let table: &[(&'static str, fn(&util::Ctx))] = &[("P23", defs::run), ("P24", versions::run)];
    let Some((id, f)) = table.iter().find(|(n, _)| Some(*n) == args.get(1).map(|a| a.as_str())) else {
        std::process::exit(2);
    };
    let ctx = util::Ctx::new(id, tier == "thorough", seed, out);
    if let Err(p) = util::catch(|| f(&ctx)) {
        ctx.violation(format!("PANIC {p}"));
    }
    std::process::exit(ctx.finish("model_checking"));
}
