mod checks;
mod meshfmt;
mod meter;
mod model;
mod monfs;
#[allow(unused)]
mod model_gen;
mod oracle;
mod report;
mod rng;
mod scene;
mod snap;
mod tracer;
mod child;
mod util;
mod watch;

use report::*;

#[global_allocator]
static ALLOC: meter::Counting = meter::Counting;

type Check = (&'static str, &'static str, fn(&Ctx));
const CHECKS: &[Check] = &[
    ("C01", "exploration", checks::c01_binary::run),
    ("C02", "exploration", checks::c02_rewrite::run),
    ("C03", "exploration", checks::expand::run_c03),
    ("C04", "exploration", checks::c04_mac::run),
    ("C05", "exploration", checks::edits::run_c05),
    ("C06", "exploration", checks::edits::run_c06),
    ("C07", "exploration", checks::crash::c07),
    ("C08", "exploration", checks::edits::run_c08),
    ("C09", "exploration", checks::edits::run_c09),
    ("C10", "exploration", checks::units::run_c10),
    ("C11", "exploration", checks::units::run_c11),
    ("C12", "exploration", checks::hostile::c12),
    ("C13", "exploration", checks::wave::c13),
    ("C14", "exploration", checks::expand::run_c14),
    ("C15", "exploration", checks::determinism::run_c15),
    ("C16", "exploration", checks::fsys::c16),
    ("C17", "exploration", checks::schema::run_c17),
    ("C18", "exploration", checks::geom::c18),
    ("C19", "exploration", checks::shape::c19),
    ("C25", "exploration", checks::faults::c25),
    ("C26", "exploration", checks::agree::c26),
    ("C28", "exploration", checks::looks::c28),
    ("C20", "exploration", checks::meshio::run_c20),
    ("C21", "exploration", checks::units::run_c21),
    ("C22", "exploration", checks::units::run_c22),
    ("C23", "exploration", checks::edits::run_c23),
    ("C24", "exploration", checks::units::run_c24),
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    install_panic_hook();
    let mut only = None;
    let mut seed = seed;
    let mut prop = args.get(1).cloned().unwrap_or_default();
    if prop == "learn" {
        return checks::schema::learn(&args[2]);
    }
    if prop == "child" {
        return child::main(&args[2..]);
    }
    if prop == "hostile" {
        return checks::hostile::child(&args[2..]);
    }
    if prop == "emit-c15" {
        return checks::determinism::emit(&args[2], &args[3]);
    }
    if prop == "replay" {
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay json");
        prop = j["property"].as_str().unwrap().to_string();
        seed = j["seed"].as_u64().unwrap();
        tier = if j["tier"] == "thorough" { "thorough" } else { "quick" };
        only = Some(CaseRef { sub: j["sub"].as_str().unwrap().into(), idx: j["case"].as_u64().unwrap() });
    }
    let Some((id, level, f)) = CHECKS.iter().find(|c| c.0 == prop) else {
        eprintln!("usage: vpmon <property>|replay FILE; properties: {}", CHECKS.iter().map(|c| c.0).collect::<Vec<_>>().join(" "));
        std::process::exit(2);
    };
    if only.is_none() && std::env::var("VPMON_STATE").is_err() {
        std::process::exit(watch::supervise(id, tier, seed, &root));
    }
    let mut ctx = Ctx::new(id, tier, seed, root);
    ctx.only = only;
    let ctx: &'static Ctx = Box::leak(Box::new(ctx));
    watch::start(ctx, level);
    f(ctx);
    std::process::exit(ctx.finish(level));
}
