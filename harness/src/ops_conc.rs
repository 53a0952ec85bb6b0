//! Threads on one tree (C06): the locks every operation waits for and what it holds meanwhile
//! (observed from outside, for the lock specification), and schedules of several operations.
use crate::dump::to_name;
use crate::ops_canvas::pixels;
use crate::ops_file::parse_node;
use crate::ops_links::{open, reach};
use crate::ops_tree::join;
use crate::R;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::sync::mpsc::{channel, Receiver};
use std::sync::{Arc, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
use std::time::{Duration, Instant};
use wz_reader::property::{get_image, resolve_string_from_node};
use wz_reader::util::node_util::{get_node_without_parse, resolve_inlink, resolve_outlink, resolve_uol};
use wz_reader::util::walk::walk_node;
use wz_reader::{WzNode, WzNodeArc};

extern "C" { fn gettid() -> i32; }
enum Gate { R(#[allow(dead_code)] RwLockReadGuard<'static, WzNode>), W(#[allow(dead_code)] RwLockWriteGuard<'static, WzNode>) }
fn lock(n: &WzNodeArc) -> &'static RwLock<WzNode> { unsafe { &*Arc::as_ptr(n) } }      // the nodes outlive the case
fn close(n: &WzNodeArc, write: bool) -> Option<Gate> {
    if write { lock(n).try_write().ok().map(Gate::W) } else { lock(n).try_read().ok().map(Gate::R) }
}
/// the node whose lock a thread sleeps on
enum At { Runs, Node(usize), Else }
fn at(tid: i32, nodes: &[WzNodeArc]) -> At {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/syscall")).unwrap_or_default();
    let mut w = s.split(' ');
    if w.next() != Some("202") { return At::Runs; }
    let a = w.next().and_then(|x| usize::from_str_radix(x.trim_start_matches("0x"), 16).ok()).unwrap_or(0);
    let size = std::mem::size_of::<RwLock<WzNode>>();
    match nodes.iter().position(|n| { let p = Arc::as_ptr(n) as usize; a >= p && a < p + size }) { Some(i) => At::Node(i), None => At::Else }
}
struct Job { tid: Arc<AtomicI32>, rx: Receiver<Value>, out: Option<Value> }
impl Job {
    fn start(f: impl FnOnce() -> Value + Send + 'static) -> Job {
        let tid = Arc::new(AtomicI32::new(0));
        let (tx, rx) = channel();
        let t = tid.clone();
        std::thread::spawn(move || {
            t.store(unsafe { gettid() }, Ordering::SeqCst);
            let r = crate::guarded(f).unwrap_or_else(|e| json!({ "panic": e }));
            let _ = tx.send(r);
        });
        Job { tid, rx, out: None }
    }
    fn done(&mut self) -> bool {
        if self.out.is_none() { if let Ok(v) = self.rx.try_recv() { self.out = Some(v); } }
        self.out.is_some()
    }
    fn at(&self, nodes: &[WzNodeArc]) -> At { match self.tid.load(Ordering::SeqCst) { 0 => At::Runs, t => at(t, nodes) } }
}

// ---- operations ----
static GO: AtomicBool = AtomicBool::new(false);
pub struct Tree { root: WzNodeArc, nodes: Vec<WzNodeArc>, ids: Vec<usize> }
fn tree(c: &Value, all: bool) -> Result<Tree, String> {
    let root = open(c)?;
    if all { for i in c["imgs"].as_array().unwrap() { parse_node(&reach(&root, i)?)?; } }
    let (mut nodes, mut ids) = (vec![], vec![]);
    for (i, q) in c["nodes"].as_array().unwrap().iter().enumerate() {
        let mut n = Some(root.clone());
        for s in q["p"].as_array().unwrap() { n = n.and_then(|n| n.read().unwrap().at(&to_name(s))); }
        if let Some(n) = n { if !nodes.iter().any(|m| Arc::ptr_eq(m, &n)) { nodes.push(n); ids.push(i); } }
    }
    Ok(Tree { root, nodes, ids })
}
impl Tree { fn get(&self, i: usize) -> Option<WzNodeArc> { self.ids.iter().position(|x| *x == i).map(|k| self.nodes[k].clone()) } }
fn addr(n: &WzNodeArc) -> Value { json!(Arc::as_ptr(n) as usize) }
/// nodes handed out, kept so that their addresses stay theirs
static KEEP: Mutex<Vec<WzNodeArc>> = Mutex::new(vec![]);
fn found(n: Option<WzNodeArc>) -> Value { match n { Some(n) => { let a = addr(&n); KEEP.lock().unwrap().push(n); json!({ "node": a }) } None => json!("none") } }
/// an operation, as a closure of its own; None: not for this node
fn op(c: &Value, t: &Tree, kind: &str, i: usize) -> Option<Box<dyn FnOnce() -> Value + Send>> {
    let q = &c["nodes"][i];
    let root = t.root.clone();
    let p = join(&q["p"]);
    let n = t.get(i);
    let lnk = c["lnks"].as_array().unwrap().iter().find(|l| l["i"] == json!(i + 1)).cloned();
    Some(match kind {
        "parse" => { let n = n?; Box::new(move || json!(parse_node(&n).is_ok())) }
        "peek" => { let n = n?; Box::new(move || json!(n.read().unwrap().children.len())) }
        "at_path" => { if i == 0 { return None; } Box::new(move || found(root.read().unwrap().at_path(&p))) }
        "at_path_parsed" => { if i == 0 { return None; } Box::new(move || found(root.read().unwrap().at_path_parsed(&p).ok())) }
        "at_direct" => { if i == 0 { return None; } Box::new(move || json!(get_node_without_parse(&root, &p).is_some())) }
        "full" => { let n = n?; Box::new(move || json!(n.read().unwrap().get_full_path())) }
        "fromroot" => { let n = n?; Box::new(move || json!(n.read().unwrap().get_path_from_root())) }
        "fromimg" => { let n = n?; Box::new(move || json!(n.read().unwrap().get_path_from_image())) }
        "image_of" => { let n = n?; Box::new(move || found(n.read().unwrap().get_parent_wz_image())) }
        "base_of" => { let n = n?; Box::new(move || found(n.read().unwrap().get_base_wz_file())) }
        "up" => { let n = n?; Box::new(move || found(n.read().unwrap().at_path_relative("../.."))) }
        "string" => { let n = n?; if q["k"] != "lnk" { return None; } Box::new(move || json!(resolve_string_from_node(&n).ok())) }
        "link" | "linkfree" => {
            let n = n?; let l = lnk?; let v = to_name(&l["v"]); let force = kind == "link"; let inl = l["in"] == true;
            Box::new(move || { let parent = n.read().unwrap().parent.upgrade(); let Some(parent) = parent else { return json!("none") };
                if inl { found(resolve_inlink(&v, &parent)) } else { found(resolve_outlink(&v, &parent, force)) } })
        }
        "image" => { let n = n?; if q["k"] != "canvas" { return None; } Box::new(move || match get_image(&n) { Ok(i) => { let p = pixels(&i, false); json!(if p.len() == 4 { p[2] as i64 } else { -2 }) } Err(_) => json!(-1) }) }
        "walk" => { let n = n?; Box::new(move || { let k = std::cell::Cell::new(0); walk_node(&n, false, &|_| k.set(k.get() + 1)); json!(k.get()) }) }
        "walkparse" => { let n = n?; Box::new(move || { let k = std::cell::Cell::new(0); walk_node(&n, true, &|_| k.set(k.get() + 1)); json!(k.get()) }) }
        // a guard taken, and used a little later
        "hold_full" => { let n = n?; GO.store(false, Ordering::SeqCst); Box::new(move || { let g = n.read().unwrap(); while !GO.load(Ordering::SeqCst) { std::thread::sleep(Duration::from_micros(50)); } json!(g.get_full_path()) }) }
        "uol" => { let n = n?; if q["k"] != "uol" { return None; } Box::new(move || { resolve_uol(&n, None); json!(true) }) }
        _ => return None,
    })
}
const KINDS: [&str; 18] = ["parse", "peek", "at_path", "at_path_parsed", "at_direct", "full", "fromroot", "fromimg", "image_of", "base_of", "up", "string", "link", "linkfree", "image", "walk", "walkparse", "uol"];

// ---- what an operation holds while it waits ----
/// stops one operation at every node lock it takes; edges: (held, wanted)
fn stops(t: &Tree, f: Box<dyn FnOnce() -> Value + Send>, write: bool) -> Result<Vec<(Vec<(usize, bool)>, usize)>, String> {
    let nodes = &t.nodes;
    let mut gates: Vec<Option<Gate>> = vec![];
    for n in nodes { gates.push(Some(close(n, write).ok_or("harness: a node of a fresh tree is locked")?)); }
    let mut job = Job::start(f);
    let mut out = vec![];
    let mut quiet: Option<Instant> = None;
    loop {
        if job.done() { break; }
        let i = match job.at(nodes) {
            At::Node(i) => i,
            _ => { quiet = None; std::hint::spin_loop(); std::thread::yield_now(); continue; }
        };
        if gates[i].is_none() {
            // it waits for a node that nobody else locks
            match quiet { None => quiet = Some(Instant::now()), Some(s) if s.elapsed() > Duration::from_secs(3) => return Err(format!("it waits for a lock it holds itself ('{}')", nodes[i].try_read().map(|n| n.name.to_string()).unwrap_or_default())), _ => {} }
            std::thread::yield_now();
            continue;
        }
        quiet = None;
        let mut held = vec![];
        for j in 0..nodes.len() {
            if j == i { continue; }
            gates[j] = None;
            match lock(&nodes[j]).try_write() {
                Ok(g) => { drop(g); gates[j] = close(&nodes[j], write); }
                Err(_) => {
                    let w = lock(&nodes[j]).try_read().is_err();
                    held.push((t.ids[j], w));
                    if !w && !write { gates[j] = close(&nodes[j], false); }
                }
            }
        }
        out.push((held, t.ids[i]));
        if out.len() > 500 { return Err("it takes more than 500 locks".into()); }
        gates[i] = None;
        // until it has left
        let s = Instant::now();
        while s.elapsed() < Duration::from_secs(5) && !job.done() && matches!(job.at(nodes), At::Node(k) if k == i) && lock(&nodes[i]).try_read().is_ok() { std::thread::yield_now(); }
    }
    Ok(out)
}
/// every operation on every node of this tree, from both states
pub fn locks(c: &Value) -> R {
    let n = c["nodes"].as_array().unwrap().len();
    let mut edges: BTreeMap<(Vec<(usize, bool)>, usize, bool), BTreeSet<String>> = BTreeMap::new();
    for all in [false, true] {
        for kind in KINDS {
            for i in 0..n {
                for write in [true, false] {
                    let t = tree(c, all)?;
                    let Some(f) = op(c, &t, kind, i) else { continue };
                    let what = format!("{kind} of '{}'{}", join(&c["nodes"][i]["p"]), if all { " with all parsed" } else { "" });
                    let st = stops(&t, f, write).map_err(|e| format!("{what}: {e}"))?;
                    for (held, want) in st { edges.entry((held, want, !write)).or_default().insert(kind.into()); }
                    KEEP.lock().unwrap().clear();
                }
            }
        }
    }
    // above[i]: the nodes above i
    let key = |i: usize| join(&c["nodes"][i]["p"]);
    let above: Vec<Vec<usize>> = (0..n).map(|i| (0..n).filter(|j| *j != i && (*j == 0 || key(i).starts_with(&format!("{}/", key(*j))))).collect()).collect();
    let ev: Vec<Value> = edges.into_iter().map(|((h, w, write), ks)| {
        let down = ks.iter().all(|k| matches!(k.as_str(), "at_path" | "at_path_parsed")) && h == [(0, false)];
        let up = h.iter().all(|(j, w1)| !w1 && above[*j].contains(&w)) && !write;
        json!({"held": h.iter().map(|(j, w)| json!([j, w])).collect::<Vec<_>>(), "want": w, "write": write, "known": h.is_empty() || down || up, "ops": ks.into_iter().collect::<Vec<_>>()})
    }).collect();
    crate::record(json!({"names": (0..n).map(key).collect::<Vec<_>>(), "ev": ev}));
    Ok(())
}

// ---- schedules ----
pub fn sched(c: &Value) -> R {
    let loose = c["loose"] == true;
    let t = tree(c, c["all"] == true)?;
    let nodes = t.nodes.clone();
    let before: Vec<usize> = nodes.iter().map(|n| n.read().unwrap().children.len()).collect();
    let mut gates: BTreeMap<usize, Gate> = BTreeMap::new();
    let mut jobs: Vec<(String, usize, Job)> = vec![];
    let settle = |jobs: &mut Vec<(String, usize, Job)>| {
        let s = Instant::now();
        let mut calm = 0;
        while s.elapsed() < Duration::from_millis(400) {
            let all = jobs.iter_mut().all(|(_, _, j)| j.done() || matches!(j.at(&nodes), At::Node(_)));
            let rest = jobs.iter_mut().all(|(_, _, j)| j.done() || !matches!(j.at(&nodes), At::Runs));
            if all { calm += 4; } else if rest { calm += 1; } else { calm = 0; }
            if calm >= 8 { return; }
            std::thread::sleep(Duration::from_micros(if all { 20 } else { 1500 }));
        }
    };
    for e in c["sched"].as_array().unwrap() {
        let i = e["n"].as_u64().unwrap() as usize - 1;
        match e["e"].as_str().unwrap() {
            "close" => { if let Some(k) = t.ids.iter().position(|x| *x == i) { if let std::collections::btree_map::Entry::Vacant(v) = gates.entry(k) { if let Some(g) = close(&nodes[k], e["w"] == true) { v.insert(g); } } } }
            "go" => { GO.store(true, Ordering::SeqCst); settle(&mut jobs); }
            "open" => { if let Some(k) = t.ids.iter().position(|x| *x == i) { gates.remove(&k); } settle(&mut jobs); }
            k => { if let Some(f) = op(c, &t, k, i) { jobs.push((k.to_string(), i, Job::start(f))); settle(&mut jobs); } }
        }
    }
    gates.clear();
    let s = Instant::now();
    loop {
        if jobs.iter_mut().all(|(_, _, j)| j.done()) { break; }
        if s.elapsed() > Duration::from_secs(if c["op"] == "dead" { 2 } else { 8 }) {
            let stuck: Vec<String> = jobs.iter_mut().filter_map(|(k, i, j)| if j.done() { None } else { Some(format!("{k} of '{}'{}", join(&c["nodes"][*i]["p"]), match j.at(&nodes) { At::Node(x) => format!(" waits for '{}'", join(&c["nodes"][t.ids[x]]["p"])), At::Runs => " runs on".into(), At::Else => " waits".into() })) }).collect();
            std::mem::forget((t, nodes));
            return Err(format!("threads never finish: {}", stuck.join("; ")));
        }
        std::thread::sleep(Duration::from_micros(100));
    }
    // the results
    for (k, i, j) in &jobs {
        let got = j.out.as_ref().unwrap();
        let q = &c["nodes"][*i];
        let what = format!("{k} of '{}' next to other threads", join(&q["p"]));
        if let Some(p) = got.get("panic") { return Err(format!("{what} panics: {p}")); }
        let bad = |w: &str| Err(format!("{what} gives {got}, not {w}"));
        let here = |p: &Value| -> Result<Value, String> { Ok(json!({ "node": addr(&reach(&t.root, p)?) })) };
        let base = to_name(&c["name"]);
        let full = if *i == 0 { base.clone() } else { format!("{base}/{}", join(&q["p"])) };
        let same = |g: &Value, p: &Value| -> Result<bool, String> { Ok(if loose { g.get("node").is_some() } else { *g == here(p)? }) };
        match k.as_str() {
            "parse" => if *got != json!(true) { return bad("success"); },
            "peek" => {
                let all = q["n"].as_u64().unwrap(); let x = got.as_u64().unwrap();
                let b = t.ids.iter().position(|x| x == i).map(|x| before[x] as u64).unwrap_or(0);
                if x != all && x != b && !(loose && x == 0) { return bad(&format!("{b} or {all} children")); }
            }
            "at_path_parsed" => if !same(got, &q["p"])? { return bad("the node of that path"); },
            "at_path" => if *got != json!("none") && !same(got, &q["p"])? { return bad("the node of that path, or none"); } else if *got == json!("none") && c["all"] == true && !loose { return bad("the node of that path"); },
            "full" => if *got != json!(full) && !loose { return bad(&full); },
            "fromroot" => if *got != json!(join(&q["p"])) && !loose { return bad("its path"); },
            "image" => {
                let can = c["cans"].as_array().unwrap().iter().find(|x| x["i"] == json!(i + 1)).unwrap();
                if *got != can["pic"] && !(loose && (*got != json!(-2))) { return bad(&format!("picture {}", can["pic"])); }
            }
            "link" => {
                let l = c["lnks"].as_array().unwrap().iter().find(|x| x["i"] == json!(i + 1)).unwrap();
                match l["to"].as_array().unwrap().first() {
                    None => if *got != json!("none") { return bad("nothing"); },
                    Some(p) => if !same(got, p)? && !(loose && *got == json!("none")) { return bad(&format!("'{}'", join(p))); },
                }
            }
            "string" => { let l = c["lnks"].as_array().unwrap().iter().find(|x| x["i"] == json!(i + 1)).unwrap(); if *got != json!(to_name(&l["v"])) { return bad("its text"); } }
            "at_direct" => if !q["img"].as_array().unwrap().is_empty() && *got != json!(true) { return bad("its node"); },
            "image_of" => if !loose && q["img"].as_array().unwrap().first().is_some_and(|p| here(p).ok().as_ref() != Some(got)) { return bad("its image"); },
            _ => {}
        }
    }
    // everything is there once, and nothing stays locked
    for (i, q) in c["nodes"].as_array().unwrap().iter().enumerate() {
        if q["k"] == "bad" { continue; }
        let n = reach(&t.root, &q["p"])?;
        parse_node(&n)?;
        if n.read().unwrap().children.len() as u64 != q["n"].as_u64().unwrap() { return Err(format!("'{}' ends up with {} children, not {}", join(&q["p"]), n.read().unwrap().children.len(), q["n"])); }
        if !loose { if let Some(m) = t.get(i) { if !Arc::ptr_eq(&m, &n) { return Err(format!("'{}' is another node than at the start", join(&q["p"]))); } } }
        let free = n.try_write().is_ok();
        if !free { return Err(format!("'{}' stays locked", join(&q["p"]))); }
    }
    KEEP.lock().unwrap().clear();
    Ok(())
}
