#![allow(dead_code)]
#[macro_use]
mod world;
mod driver;
mod local;
mod net;
mod plan;
mod props;
mod reg;
mod fair;
mod life;
mod sim;

unsafe extern "C" { fn personality(p: u64) -> i32; }
fn main() {
    let args: Vec<String> = std::env::args().collect();
    // Fixed addresses: address-dependent behaviour must not differ between processes.
    if std::env::var_os("KSIM_CHILD").is_none() {
        unsafe { personality(0x0040000); }
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(std::env::current_exe().unwrap()).args(&args[1..]).env_clear()
            .envs(std::env::vars().filter(|v| v.0.starts_with("KSIM") || v.0.starts_with("VERIF") || v.0 == "PATH"))
            .env("KSIM_CHILD", "1").env("ASYNC_STD_THREAD_COUNT", "1").exec();
        panic!("exec: {e}");
    }
    let opt = |k: &str, d: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or(d.to_string());
    let jobs: usize = opt("--jobs", &std::env::var("KSIM_JOBS").unwrap_or("8".into())).parse().unwrap();
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let find = |id: &str| props::find(id).unwrap_or_else(|| { println!("unknown property {id}"); std::process::exit(2) });
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(find(&args[2]), opt("--tier", "quick") == "thorough", seed, opt("--secs", "40").parse().unwrap(), jobs),
        Some("replay") => driver::replay(&args[2], args.iter().any(|a| a == "-v")),
        Some("selftest") => driver::selftest(opt("--n", "64").parse().unwrap(), jobs),
        Some("sweep") => { for id in args[2].split(',') { driver::sweep(find(id), seed, opt("--from", "0").parse().unwrap(), opt("--n", "500").parse().unwrap(), jobs); } 0 }
        Some("one") => {
            let p = find(&args[2]);
            let mut j = driver::make_job(p, seed, args[3].parse().unwrap(), false);
            if let Ok(m) = opt("--max-steps", "").parse() { j.params.max_steps = m; }
            let mut pool = driver::Pool::new(1);
            let r = pool.one(&j, true, true);
            println!("{}\n{}", j.to_text(Some(&|k| (p.op_name)(k))), r.trace);
            println!("outcome {} {} steps {} switches {} threads {} virt {}us hash {:x} decisions {}", r.outcome, r.msg, r.steps, r.switches, r.threads, r.virt / 1000, r.hash, r.dec.len());
            0
        }
        Some("list") => { for p in props::all() { println!("{}", p.id) } 0 }
        _ => { println!("usage: ksim check|replay|selftest|sweep|one|list"); 2 }
    };
    std::process::exit(rc);
}
