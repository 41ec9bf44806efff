mod big;
mod concur;
mod crash;
mod engine;
mod files;
mod fix;
mod hist;
mod kv;
mod decode;
mod idents;
mod hostile;
mod iface;
mod keys;
mod legacy;
mod times;
mod typed;
mod users;
mod denied;
mod ops;
mod perms;
mod pubsub;
mod remote;
mod upgrade;
mod vquery;
mod storage;

use engine::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if let [what, path] = &args[..] {
        if what == "serve" {
            let r = hostile::serve(path);
            std::process::exit(if r.is_ok() { 0 } else { 1 });
        }
    }
    let mut id = None;
    let mut opts = Options {
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        replay: None,
        scale: 1.0,
        only: None,
        verbose: false,
    };
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                opts.thorough = args[i] == "thorough";
            }
            "--seed" => {
                i += 1;
                opts.seed = args[i].parse().expect("seed");
            }
            "--replay" => {
                i += 1;
                opts.replay = Some(args[i].clone().into());
            }
            "--scale" => {
                i += 1;
                opts.scale = args[i].parse().expect("scale");
            }
            "--only" => {
                i += 1;
                opts.only = Some(args[i].clone());
            }
            "-v" => opts.verbose = true,
            other => id = Some(other.to_string()),
        }
        i += 1;
    }
    let Some(id) = id else {
        eprintln!("usage: vharness ID [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--only SECTION] [-v]");
        std::process::exit(2);
    };
    install_panic_hook();
    let prop = match id.as_str() {
        "C01" => keys::c01(),
        "C02" => decode::c02(),
        "C03" => hist::c03(),
        "C04" => hist::c04(),
        "C05" => hist::c05(),
        "C06" => hist::c06(),
        "C07" => hist::c07(),
        "C08" => hist::c08(),
        "C09" => hist::c09(),
        "C10" => kv::c10(),
        "C11" => kv::c11(),
        "C12" => crash::c12(),
        "C13" => storage::c13(),
        "C14" => storage::c14(),
        "C15" => storage::c15(),
        "C16" => storage::c16(),
        "C17" => perms::c17(),
        "C18" => denied::c18(),
        "C19" => users::c19(),
        "C20" => pubsub::c20(),
        "C21" => iface::c21(),
        "C22" => hostile::c22(),
        "C23" => files::c23(),
        "C25" => concur::c25(),
        "C26" => typed::c26(),
        "C24" => idents::c24(),
        "C27" => times::c27(),
        "C28" => legacy::c28(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    // A hang is an error of the check, not a violation.
    let limit = if opts.thorough { 8 * 3600 } else { 800 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("WATCHDOG: no answer after {limit}s");
        std::process::exit(2);
    });
    let code = run(prop, &opts);
    let _ = std::fs::remove_dir_all(scratch_root());
    std::process::exit(code);
}
