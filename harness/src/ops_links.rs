//! Links between canvases (C09): pictures and targets, from every context.
use crate::dump::to_name;
use crate::keys::{bytes, iv};
use crate::ops_canvas::pixels;
use crate::ops_file::{parse_node, shuffle, write_file};
use crate::ops_tree::join;
use crate::R;
use serde_json::Value;
use std::sync::{Arc, Mutex};
use wz_reader::property::{get_image, WzSubProperty};
use wz_reader::util::node_util::{resolve_inlink, resolve_outlink};
use wz_reader::util::walk::walk_node;
use wz_reader::{WzFile, WzNode, WzNodeArc, WzObjectType};

pub fn open(c: &Value) -> Result<WzNodeArc, String> {
    let path = write_file("links.wz", &bytes(&c["bytes"]))?;
    let f = WzFile::from_file(&path, Some(iv(c["kid"].as_str().unwrap())), Some(95), None).map_err(|e| format!("harness: open: {e}"))?;
    let n = WzNode::from_str(&to_name(&c["name"]), f, None).into_lock();
    parse_node(&n).map_err(|e| format!("harness: parse: {e}"))?;
    Ok(n)
}
/// down a path, parsing what is on the way
pub fn reach(root: &WzNodeArc, p: &Value) -> Result<WzNodeArc, String> {
    let mut n = root.clone();
    for s in p.as_array().unwrap() {
        parse_node(&n)?;
        let k = n.read().unwrap().at(&to_name(s));
        n = k.ok_or_else(|| format!("harness: '{}' is not there", join(p)))?;
    }
    Ok(n)
}
fn judge(q: &Value, n: &WzNodeArc, loose: bool) -> R {
    let (c, pic) = (q["c"].as_i64().unwrap(), q["pic"].as_i64().unwrap());
    let got = match get_image(n) {
        Ok(i) => { let p = pixels(&i, false); if p.len() == 4 && p[0] == 77 && p[1] == 0 && p[3] == 255 { p[2] as i64 } else { -2 } }
        Err(_) => -1,
    };
    if got == pic || (loose && got != -2) { return Ok(()); }
    let say = |x: i64| match x { -1 => "an error".to_string(), -2 => "a picture of no canvas".into(), x if x == c => "its own picture".into(), x => format!("the picture of canvas {x}") };
    Err(format!("canvas {c} '{}' gives {} instead of {}", join(&q["p"]), say(got), say(pic)))
}
fn lead(q: &Value, root: &WzNodeArc, force: bool) -> R {
    let n = reach(root, &q["p"])?;
    let v = to_name(&q["v"]);
    let inl = q["in"] == true;
    let got = if inl { resolve_inlink(&v, &n) } else { resolve_outlink(&v, &n, force) };
    let want = q[if force || inl { "to" } else { "free" }].as_array().unwrap();
    let what = format!("{}link '{v}' of '{}'{}", if inl { "in" } else { "out" }, join(&q["p"]), if force { "" } else { " (without parsing)" });
    match (got, want.first()) {
        (None, None) => Ok(()),
        (None, Some(w)) => Err(format!("{what} leads nowhere, not to '{}'", join(w))),
        (Some(g), None) => Err(format!("{what} leads to '{}', not nowhere", g.read().unwrap().get_full_path())),
        (Some(g), Some(w)) => {
            let t = reach(root, w)?;
            if Arc::ptr_eq(&g, &t) { Ok(()) } else { Err(format!("{what} leads to '{}', not to '{}'", g.read().unwrap().get_full_path(), join(w))) }
        }
    }
}
fn is_canvas(n: &WzNodeArc) -> bool { matches!(n.read().unwrap().object_type, WzObjectType::Property(WzSubProperty::PNG(_))) }

pub fn links(c: &Value) -> R {
    let (cans, lnks) = (c["cans"].as_array().unwrap(), c["lnks"].as_array().unwrap());
    let (dirs, imgs) = (c["dirs"].as_array().unwrap(), c["imgs"].as_array().unwrap());
    let dirs_parsed = |root: &WzNodeArc| -> R { for d in dirs { parse_node(&reach(root, d)?)?; } Ok(()) };
    // each link on a fresh tree, with only its own image (and directories) parsed
    for q in lnks {
        let root = open(c)?;
        dirs_parsed(&root)?;
        parse_node(&reach(&root, &q["own"])?)?;
        if q["in"] != true { lead(q, &root, false)?; }
        lead(q, &root, true)?;
    }
    // each picture on a fresh tree, and once more when its links have been followed
    for q in cans {
        let root = open(c)?;
        let n = reach(&root, &q["p"])?;
        judge(q, &n, false)?;
        judge(q, &n, false).map_err(|e| format!("the second time {e}"))?;
        // nothing stays locked
        for p in dirs.iter().chain(imgs) {
            let n = reach(&root, p)?;
            let free = n.try_write().is_ok();
            if !free { return Err(format!("'{}' stays locked", join(p))); }
        }
    }
    // everything parsed, in some order
    let root = open(c)?;
    dirs_parsed(&root)?;
    for i in imgs { parse_node(&reach(&root, i)?)?; }
    let mut order: Vec<usize> = (0..cans.len()).collect();
    shuffle(&mut order, cans.len() as u64 + 7);
    for i in &order { judge(&cans[*i], &reach(&root, &cans[*i]["p"])?, false).map_err(|e| format!("with all parsed, {e}"))?; }
    // from the callback of a walk
    let root = open(c)?;
    let seen = Mutex::new(0usize);
    let bad = Mutex::new(None);
    let visit = |loose: bool, n: &WzNodeArc| {
        if !is_canvas(n) { return; }
        // a canvas reached through a UOL is still found under its own path
        let path = n.read().unwrap().get_path_from_root();

        match cans.iter().find(|q| join(&q["p"]) == path) {
            Some(q) => { *seen.lock().unwrap() += 1; if let Err(e) = judge(q, n, loose) { bad.lock().unwrap().get_or_insert(e); } }
            None => if !loose { bad.lock().unwrap().get_or_insert(format!("harness: canvas at '{path}'")); },
        }
    };
    walk_node(&root, true, &|n| visit(false, n));
    if let Some(e) = bad.lock().unwrap().take() { return Err(format!("within a walk, {e}")); }
    if *seen.lock().unwrap() < cans.len() { return Err(format!("a walk visits {} canvases of {}", seen.lock().unwrap(), cans.len())); }
    // several threads at once
    let root = open(c)?;
    let errs: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u64).map(|t| { let root = root.clone(); s.spawn(move || -> R {
            let mut order: Vec<usize> = (0..cans.len()).collect();
            shuffle(&mut order, t * 31 + cans.len() as u64);
            for i in order { judge(&cans[i], &reach(&root, &cans[i]["p"])?, false)?; }
            if t == 0 { for q in lnks { lead(q, &root, true)?; } }
            Ok(())
        }) }).collect();
        hs.into_iter().filter_map(|h| match h.join() { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(_) => Some("a thread panics".into()) }).collect()
    });
    if let Some(e) = errs.first() { return Err(format!("in several threads, {e}")); }
    // two walks at once: what one unparses the other may hold, but all return
    let root = open(c)?;
    std::thread::scope(|s| { for _ in 0..2 { s.spawn(|| walk_node(&root, true, &|n| visit(true, n))); } });
    let e = bad.lock().unwrap().take();
    if let Some(e) = e { return Err(format!("in two walks, {e}")); }
    Ok(())
}
