mod dom;
mod model;
mod p01;
mod p03;
mod p04;
mod p05;
mod p09;
mod p10;
mod p11;
mod p12;
mod parts;
mod proto;
mod readers;
mod refc;
mod stream;
mod util;
mod dev;
mod huge;
mod storage;
mod sys;
mod p20;
mod p22;
mod p25;
mod p26;
mod p27;

#[global_allocator]
static A: util::Mon = util::Mon;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = args
        .get(2)
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or("quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = std::env::var("VERIF_OUT").unwrap_or("/verif".into());
    if std::env::var("HARNESS_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    util::start_watchdog();
    let table: &[(&'static str, fn(&util::Ctx))] = &[
        ("P01", p01::run01),
        ("P02", p01::run02),
        ("P03", p03::run),
        ("P04", p04::run_),
        ("P05", p05::run_),
        ("P06", stream::run06),
        ("P07", stream::run07),
        ("P08", stream::run08),
        ("P09", p09::run),
        ("P10", p10::run_),
        ("P11", p11::run_),
        ("P12", p12::run_),
        ("P13", storage::run13),
        ("P14", storage::run14),
        ("P15", storage::run15),
        ("P16", storage::run16),
        ("P17", storage::run17),
        ("P18", storage::run18),
        ("P19", storage::run19),
        ("P20", p20::run),
        ("P22", p22::run),
        ("P25", p25::run),
        ("P26", p26::check),
        ("P27", p27::check),
    ];
    let Some((id, f)) = table.iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let ctx = util::Ctx::new(id, tier == "thorough", seed, out);
    if let Err(p) = util::catch(|| f(&ctx)) {
        ctx.violation(format!("PANIC {p}"));
    }
    std::process::exit(ctx.finish("model_checking"));
}
