mod core;
mod params;
#[allow(unused_variables)]
mod registry;
mod explore;
mod domain;
mod util;
mod refs;
mod checks;
use crate::core::*;
fn main() {
    std::panic::set_hook(Box::new(|i| { if let (Some(l), Ok(mut t)) = (i.location(), LAST_PANIC.lock()) { *t = format!("{}:{} {}", l.file(), l.line(), i.payload_as_str().unwrap_or("").chars().take(300).collect::<String>()); } }));
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let f: fn(&mut Ctx) = match id.as_str() {
        "C01" => checks::c01::run,
        "C02" => checks::c02::run,
        "C03" => checks::c03::run,
        "C04" => checks::c04::run,
        "C05" => checks::c05::run,
        "C06" => checks::c06::run,
        "C07" => checks::c07::run,
        "C08" => checks::c08::run,
        "C09" => checks::c09::run,
        "C10" => checks::c10::run,
        "C11" => checks::c11::run,
        "C12" => checks::c12::run,
        "C13" => checks::c13::run,
        "C14" => checks::c14::run,
        "C15" => checks::c15::run,
        "C16" => checks::c16::run,
        "C17" => checks::c17::run,
        "C18" => checks::c18::run,
        "C19" => checks::c19::run,
        "C20" => checks::c20::run,
        "C21" => checks::c21::run,
        "C22" => checks::c22::run,
        _ => { explore::run(&a[1..]); return }
    };
    if std::env::var_os("PM_CHILD").is_none() { std::process::exit(supervise(&id)) }
    let mut c = Ctx::new(&id);
    open_mark(&c.dir, &id);
    let dir = c.dir.clone();
    // a call that never returns is a violation, not a hang of the monitor
    let watched = id.clone();
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
            if now != last { last = now; since = std::time::Instant::now(); }
            if since.elapsed().as_secs() >= 240 {
                let class = LAST_CLASS.lock().map(|l| l.clone()).unwrap_or_default();
                let text = format!("no call of the code under test returned for 240 s, after decision {now} (last: {class})");
                std::process::exit(emergency(&dir, &watched, &text));
            }
        }
    });
    let ran = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
    if ran.is_err() {
        let place = LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default();
        // a panic inside the code under test that no monitor expected
        if place.contains("/repo/") { c.violate("unexpected panic", &place); } else { println!("the monitor itself failed at {place}: inconclusive"); std::process::exit(3); }
    }
    std::process::exit(c.finish());
}
/// Runs the monitors in a process of their own: one that the code under test brings down (abort, segmentation fault, stack overflow) is an observation.
fn supervise(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let log = format!("{dir}/evidence/{id}.stderr.log");
    let Ok(err) = std::fs::File::create(&log) else { println!("cannot write {log}"); return 4 };
    let me = std::env::current_exe().expect("own path");
    let Ok(status) = std::process::Command::new(me).arg(id).env("PM_CHILD", "1").stderr(err).status() else { println!("cannot start the monitors: inconclusive"); return 3 };
    let mark = format!("{dir}/evidence/{id}.mark.log");
    let last = std::fs::read_to_string(&mark).unwrap_or_default();
    let said = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&mark);
    if let Some(code) = status.code() { return code }
    let signal = status.signal().unwrap_or(0);
    let tail: Vec<&str> = said.lines().rev().take(6).collect();
    let text = format!("the process was ended by signal {signal} at or after: {} | {}", last.trim_matches('\0').lines().next().unwrap_or(""), tail.into_iter().rev().collect::<Vec<_>>().join(" / "));
    // segmentation fault, abort, illegal instruction, bus error, arithmetic
    if [4, 6, 7, 8, 11].contains(&signal) { emergency(&dir, id, &text) } else { println!("{text}: inconclusive"); 3 }
}
fn emergency(dir: &str, id: &str, text: &str) -> i32 {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
    let n = PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let _ = std::fs::write(format!("{dir}/evidence/{id}.json"), format!("{{\"property\": \"{id}\", \"tier\": \"{tier}\", \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {n}, \"distinct_nontrivial\": {n}, \"rule\": {}, \"samples\": [{}]}}, \"wall_s\": 0.0, \"violations\": 1}}\n", esc("ended by the watchdog"), esc(text)));
    let rp = format!("{dir}/evidence/{id}.replay.txt");
    let _ = std::fs::write(&rp, format!("property {id}\nreplay: cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} ./check.sh {id}\n\n{text}\n"));
    println!("  violated: {text}\nVIOLATION property={id} replay={rp}");
    1
}
