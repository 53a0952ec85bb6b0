//! Replays behaviours generated from the TLA+ specification into the real crate.
//! usage: wzh run CASES.ndjson RESULTS.ndjson
mod dump;
mod ops_canvas;
mod keys;
mod ops_conc;
mod ops_damage;
mod ops_file;
mod ops_folder;
mod ops_ms;
mod ops_pkg2;
mod ops_image;
mod ops_json;
mod ops_keys;
mod ops_links;
mod ops_media;
mod ops_reader;
mod ops_tree;
mod ops_uol;
mod order;

use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::sync::Mutex;
use std::time::Duration;

pub type R = Result<(), String>;
static REC: Mutex<Option<Value>> = Mutex::new(None);
/// what this case observed, for the trace specification
pub fn record(v: Value) { *REC.lock().unwrap_or_else(|e| e.into_inner()) = Some(v); }
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn dispatch(c: &Value) -> R {
    match c["op"].as_str().unwrap_or("") {
        "image" => ops_image::image(c),
        "direct" => ops_image::direct(c),
        "keys" => ops_keys::keys(c),
        "keysmt" => ops_keys::mt(c),
        "string" => ops_keys::string(c),
        "strlong" => ops_keys::strlong(c),
        "dirname" => ops_keys::dirname(c),
        "pkg1" => ops_file::pkg1(c),
        "notwz" => ops_file::notwz(c),
        "imgkey" => ops_file::imgkey(c),
        "reader" => ops_reader::run(c),
        "tree" => ops_tree::tree(c),
        "canvas" => ops_canvas::canvas(c),
        "sound" => ops_media::sound(c),
        "script" => ops_media::script(c),
        "folder" => ops_folder::folder(c),
        "mstree" => ops_tree::mstree(c),
        "mspack" => ops_ms::mspack(c),
        "pkg2" => ops_pkg2::pkg2(c),
        "vgen" => ops_pkg2::vgen(c),
        "locks" => ops_conc::locks(c),
        "sched" | "dead" => ops_conc::sched(c),
        "links" => ops_links::links(c),
        "jfull" => ops_json::jfull(c),
        "jsimple" => ops_json::jsimple(c),
        "dmgimg" => ops_damage::dmgimg(c),
        "deepnav" => ops_tree::deepnav(c),
        "deep" => ops_damage::deep(c),
        "dmgms" => ops_damage::dmgms(c),
        "dmgpkg2" => ops_damage::dmgpkg2(c),
        "dmgpkg" => ops_damage::dmgpkg(c),
        "uol" => ops_uol::uol(c),
        o => Err(format!("harness: unknown op {o}")),
    }
}

/// run one closure; a panic of the code under test is data
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()))
}

/// input of a few thousand bytes does not need this much memory
fn limit_memory() {
    #[repr(C)] struct Lim { cur: u64, max: u64 }
    extern "C" { fn setrlimit(what: i32, l: *const Lim) -> i32; }
    let l = Lim { cur: 6 << 30, max: 6 << 30 };
    unsafe { setrlimit(9, &l); }
}
fn main() {
    limit_memory();
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() { *g = format!("{m} at {l}"); }
    }));
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 || a[1] != "run" {
        eprintln!("usage: wzh run CASES RESULTS");
        std::process::exit(2);
    }
    let limit = Duration::from_secs(std::env::var("WZH_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(20));
    let out = std::fs::File::create(&a[3]).expect("results file");
    let mut out = BufWriter::new(out);
    let input = std::io::BufReader::new(std::fs::File::open(&a[2]).expect("cases file"));
    let (tx, rx) = mpsc::channel::<(usize, String)>();
    let (rtx, rrx) = mpsc::channel::<(usize, Result<(), String>)>();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        for (i, line) in rx {
            let r = match serde_json::from_str::<Value>(&line) {
                Ok(c) => guarded(|| dispatch(&c)).unwrap_or_else(Err),
                Err(e) => Err(format!("harness: bad case: {e}")),
            };
            if rtx.send((i, r)).is_err() { return; }
        }
    }).unwrap();
    let (mut n, mut bad) = (0usize, 0usize);
    for (i, line) in input.lines().enumerate() {
        let line = line.expect("line");
        if line.trim().is_empty() { continue; }
        n += 1;
        // the case about to run, so that an abort can be attributed
        writeln!(out, "{}", json!({"start": i})).unwrap();
        out.flush().unwrap();
        tx.send((i, line)).unwrap();
        let res = rrx.recv_timeout(limit);
        if let Some(v) = REC.lock().unwrap_or_else(|e| e.into_inner()).take() {
            writeln!(out, "{}", json!({"case": i, "rec": v})).unwrap();
        }
        match res {
            Ok((_, Ok(()))) => {}
            Ok((_, Err(e))) => {
                bad += 1;
                writeln!(out, "{}", json!({"case": i, "fail": e})).unwrap();
                // enough to tell; a broken tree must not take the whole time limit
                if bad >= 40 { break; }
            }
            Err(_) => {
                writeln!(out, "{}", json!({"case": i, "fail": "hang: no result within the time limit"})).unwrap();
                out.flush().unwrap();
                std::process::exit(3);
            }
        }
    }
    writeln!(out, "{}", json!({"end": true, "cases": n, "bad": bad})).unwrap();
    out.flush().unwrap();
    std::process::exit(0);
}
