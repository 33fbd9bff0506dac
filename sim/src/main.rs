mod alloc;
mod checks;
mod conn;
mod crypto;
mod engine;
mod entropy;
mod gen;
mod mdl;
mod mg;
mod pc;
mod plan;
mod pt;
mod rng;
mod runner;
mod server;
mod txt;
mod val;
mod wire;
mod world;

use std::cell::RefCell;
use std::time::Duration;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

static DEBUG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if DEBUG.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("panic: {m} at {loc}");
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
    DEBUG.store(std::env::var_os("SIM_STDERR").is_some(), std::sync::atomic::Ordering::Relaxed);
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let root = env("VERIF_ROOT").unwrap_or_else(|| "/verif".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a[2].clone();
            let Some(mix) = checks::mix(&id) else {
                eprintln!("no check {id}");
                std::process::exit(2);
            };
            plan::LEAKS.store(id == "C23", std::sync::atomic::Ordering::Relaxed);
            let thorough = a.iter().any(|x| x == "--thorough");
            let secs = env("VERIF_BUDGET_S").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 25 });
            runner::Check {
                id,
                mix,
                seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough,
                budget: Duration::from_secs(secs),
                root,
            }
            .run()
        }
        Some("replay") => runner::replay(&a[2]),
        _ => {
            eprintln!("usage: sim check <ID> [--thorough] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
