mod alloc;
mod ctx;
mod engine;
#[macro_use]
mod fx;
mod p;
mod refm;

use ctx::{Ctx, Tier};

#[global_allocator]
static COUNTING: alloc::Counting = alloc::Counting;

pub fn root(p: &str) -> String {
    let r = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    format!("{r}/{p}")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some(id) = args.get(1) else {
        eprintln!("usage: orchard-mc <property> [quick|thorough] | orchard-mc replay <file>");
        std::process::exit(2);
    };
    // The explorer catches panics of the code under test and reports them itself.
    if std::env::var_os("MC_BACKTRACE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut replaying = None;
    let mut id = id.clone();
    if id == "replay" {
        let t = std::fs::read_to_string(&args[2]).expect("replay file");
        let j: serde_json::Value = serde_json::from_str(&t).expect("json");
        id = j["property"].as_str().unwrap().to_string();
        tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        seed = j["seed"].as_u64().unwrap();
        replaying = Some(serde_json::from_value::<engine::Violation>(j["violation"].clone()).unwrap());
    } else if let Some(t) = args.get(2) {
        tier = if t == "thorough" { Tier::Thorough } else { Tier::Quick };
    }
    let Some((pid, f)) = p::ALL.iter().find(|x| x.0 == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let mut ctx = Ctx::new(pid, tier, seed);
    // A violation about the whole of a space is replayed by exploring it again.
    ctx.replaying = replaying.filter(|v| !v.space.ends_with("(aggregate)") && v.space != "fixtures");
    // A panic outside an explored space (fixture construction through the API under test)
    // is also a failure of the code under test.
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        f(&mut ctx);
    })) {
        Ok(()) => {}
        Err(e) => {
            let m = engine::panic_message(e);
            ctx.replay_found = true;
            ctx.fail("fixtures", format!("panic while preparing the exploration: {m}"));
        }
    }
    std::process::exit(ctx.finish());
}
