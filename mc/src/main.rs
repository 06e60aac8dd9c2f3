mod engine;
mod err;
mod ext;
mod fmt;
mod lex;
mod loc;
mod pat;
mod prov;
mod registry;
mod world;

use engine::*;
use std::time::Instant;

/// Directory for files of this run.
pub static SCRATCH: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned());
    let property = args.get(1).cloned().unwrap_or_default();
    if property == "read-only-child" {
        return prov::read_only_child(&args[2]);
    }
    let tier = get("--tier").unwrap_or("quick".into());
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let progress = get("--progress").unwrap_or(format!("/tmp/mc-progress-{}", std::process::id()));
    let parity = get("--parity");
    let known: Vec<String> = get("--known")
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect())
        .unwrap_or_default();
    if let Some(d) = get("--scratch") {
        let _ = SCRATCH.set(d.into());
    }
    // Runaway allocation must end this process, not the sandbox.
    unsafe {
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    // Keep freed memory: opening a database would otherwise map and unmap its page cache every time.
    unsafe {
        // No global lock for the memory statistics of Sqlite.
        rusqlite::ffi::sqlite3_config(rusqlite::ffi::SQLITE_CONFIG_MEMSTATUS, 0);
        libc::mallopt(libc::M_MMAP_THRESHOLD, 256 << 20);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 512 << 20);
        libc::mallopt(libc::M_TOP_PAD, 16 << 20);
    }
    install_panic_hook();
    if cfg!(feature = "extended") {
        ext::log_everything();
    }
    let e = Engine::new(&tier, get("--only"), &progress, parity.as_deref(), known);
    let t = Instant::now();
    match property.as_str() {
        "C01" => lex::c01(&e),
        "C02" => lex::c02(&e),
        "C03" => registry::c03(&e),
        "C05" => fmt::c05(&e),
        "C06" => fmt::c06(&e),
        "C07" => fmt::c07(&e),
        "C08" => fmt::c08(&e),
        "C09" => fmt::c09(&e),
        "C10" => fmt::c10(&e),
        "C11" => fmt::c11(&e),
        "C12" => fmt::c12(&e),
        "C13" => fmt::c13(&e),
        "C14" => fmt::c14(&e),
        "dump-scripts" => { loc::dump_scripts(); std::process::exit(0) }
        "C22" => err::c22(&e),
        "C23" => prov::c23(&e),
        "C24" => prov::c24(&e),
        "C25" => prov::c25(&e),
        "C26" => prov::c26(&e),
        "C27" => prov::c27(&e),
        "C28" => prov::c28(&e),
        "C29" => prov::c29(&e),
        "C30" => prov::c30(&e),
        "C31" => prov::c31(&e),
        "C15" => loc::c15(&e),
        "C16" => loc::c16(&e),
        "C17" => loc::c17(&e),
        "C18" => loc::c18(&e),
        "C19" => loc::c19(&e),
        "C20" => loc::c20(&e),
        "C21" => loc::c21(&e),
        "C34" => loc::c34(&e),
        "C35" => loc::c35(&e),
        "C36" => ext::c36(&e),
        "C37" => fmt::c37(&e),
        "C38" => loc::c38(&e),
        _ => {
            eprintln!("unknown property {property}");
            std::process::exit(2);
        }
    }
    e.finish();
    let s = e.stats.lock().unwrap();
    let mut o = String::from("{\n");
    o.push_str(&format!("\"property\": {},\n\"build\": {},\n\"tier\": {},\n", json_str(&property), json_str(if cfg!(feature = "extended") { "extended" } else if cfg!(feature = "sync") { "sync" } else { "plain" }), json_str(&tier)));
    o.push_str(&format!("\"states\": {},\n\"transitions\": {},\n\"wall_s\": {:.3},\n", s.states, s.transitions, t.elapsed().as_secs_f64()));
    o.push_str(&format!("\"distinct_outcomes\": {},\n", s.outcomes.len()));
    let mut top: Vec<_> = s.outcomes.iter().collect();
    top.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
    o.push_str("\"outcomes\": {");
    o.push_str(&top.iter().take(40).map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n\"samples\": [");
    o.push_str(&s.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "));
    o.push_str("],\n\"bounds\": [");
    o.push_str(&e.bounds.lock().unwrap().iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "));
    o.push_str("],\n\"known\": [");
    o.push_str(&s.known.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "));
    o.push_str(&format!("],\n\"violation_count\": {},\n\"violations\": [", s.violation_count));
    o.push_str(&s.violations.iter().map(|v| format!("{{\"case\": {}, \"expected\": {}, \"actual\": {}}}", json_str(&v.case), json_str(&v.expected), json_str(&v.actual))).collect::<Vec<_>>().join(", "));
    o.push_str("]\n}\n");
    std::fs::write(&out, o).expect("write report");
    let _ = std::fs::remove_file(&progress);
    std::process::exit(if s.violation_count > 0 { 1 } else { 0 });
}
