//! A data folder resolved to a tree (C20).
use crate::dump::to_name;
use crate::keys::{bytes, tmp};
use crate::ops_file::parse_node;
use crate::order::ORDER;
use crate::R;
use serde_json::{json, Value};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use wz_reader::property::WzValue;
use wz_reader::util::{resolve_base, resolve_root_wz_file_dir};
use wz_reader::version::WzMapleVersion as V;
use wz_reader::{WzNodeArc, WzObjectType};

fn put(root: &Path, e: &Value, keep: &Path) -> R {
    let ps = e["p"].as_array().unwrap();
    let raw = e["k"].as_str().unwrap().starts_with("raw");
    let mut p = root.to_path_buf();
    for (i, s) in ps.iter().enumerate() {
        if raw && i + 1 == ps.len() { p.push(OsStr::from_bytes(&bytes(s))); } else { p.push(to_name(s)); }
    }
    let dir = e["k"] == "dir" || e["k"] == "rawdir";
    // kept somewhere else, a link is what is in the folder
    if e["ln"] == true && p.symlink_metadata().is_err() {
        let r = std::fs::create_dir_all(p.parent().unwrap())
            .and_then(|_| if dir { std::fs::create_dir_all(keep) } else { std::fs::create_dir_all(keep.parent().unwrap()).and_then(|_| std::fs::write(keep, bytes(&e["b"]))) })
            .and_then(|_| std::os::unix::fs::symlink(keep, &p));
        return r.map_err(|x| format!("harness: link {}: {x}", p.display()));
    }
    let r = if dir { std::fs::create_dir_all(&p) } else { std::fs::create_dir_all(p.parent().unwrap()).and_then(|_| std::fs::write(&p, bytes(&e["b"]))) };
    r.map_err(|x| format!("harness: {}: {x}", p.display()))
}
/// the resolved tree, with what each image holds; every parent link is checked on the way
fn shape(n: &WzNodeArc, up: Option<&WzNodeArc>, path: &str) -> Result<Value, String> {
    let name = n.read().unwrap().name.to_string();
    let path = if path.is_empty() { name.clone() } else { format!("{path}/{name}") };
    let parent = n.read().unwrap().parent.upgrade();
    match (&parent, up) {
        (None, None) => {}
        (Some(a), Some(b)) if Arc::ptr_eq(a, b) => {}
        _ => return Err(format!("the parent of '{path}' is not the node above it")),
    }
    let full = n.read().unwrap().get_full_path();
    if full != path { return Err(format!("'{path}' says its path is '{full}'")); }
    parse_node(n).map_err(|e| format!("parse of '{path}': {e}"))?;
    let r = n.read().unwrap();
    let kind = match &r.object_type { WzObjectType::File(_) => "file", WzObjectType::Directory(_) => "dir", WzObjectType::Image(_) => "image", _ => "other" };
    if kind == "image" {
        let v = r.at("v").and_then(|v| match &v.read().unwrap().object_type { WzObjectType::Value(WzValue::Int(i)) => Some(*i), _ => None });
        return Ok(json!([name, "image", v.unwrap_or(-1)]));
    }
    let mut kids: Vec<(String, WzNodeArc)> = r.children.iter().map(|(k, c)| (k.to_string(), c.clone())).collect();
    drop(r);
    kids.sort_by(|a, b| a.0.cmp(&b.0));
    let mut out = vec![];
    for (k, c) in kids {
        if c.read().unwrap().name.as_str() != k { return Err(format!("'{path}' lists '{}' as '{k}'", c.read().unwrap().name)); }
        out.push(shape(&c, Some(n), &path)?);
    }
    Ok(json!([name, kind, out]))
}
/// the tree is the one described: an image stored in several parts is any of them
fn matches(w: &Value, g: &Value, path: &str) -> R {
    let name = to_name(&w["n"]);
    let path = format!("{path}/{name}");
    if g[0] != name || g[1] != w["k"] { return Err(format!("'{path}' is {} {}, not a {}", g[1], g[0], w["k"])); }
    if w["k"] == "image" {
        let ids = w["ids"].as_array().unwrap();
        return if ids.contains(&g[2]) { Ok(()) } else { Err(format!("'{path}' holds {}, not one of {:?}", g[2], ids)) };
    }
    let mut kids: Vec<&Value> = w["c"].as_array().unwrap().iter().collect();
    kids.sort_by_key(|k| to_name(&k["n"]));
    let got = g[2].as_array().unwrap();
    let names = |v: Vec<String>| v.join(", ");
    let (a, b) = (kids.iter().map(|k| to_name(&k["n"])).collect::<Vec<_>>(), got.iter().map(|k| k[0].as_str().unwrap().to_string()).collect::<Vec<_>>());
    if a != b { return Err(format!("'{path}' has [{}] instead of [{}]", names(b), names(a))); }
    kids.iter().zip(got).try_for_each(|(w, g)| matches(w, g, &path))
}
fn at(root: &Path, p: &Value) -> PathBuf { p.as_array().unwrap().iter().fold(root.to_path_buf(), |r, s| r.join(to_name(s))) }

pub fn folder(c: &Value) -> R {
    let root = tmp().join("data");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).map_err(|e| format!("harness: {e}"))?;
    let kept = tmp().join("kept");
    let _ = std::fs::remove_dir_all(&kept);
    for (i, e) in c["put"].as_array().unwrap().iter().enumerate() { put(&root, e, &kept.join(i.to_string()))?; }
    let r = orders(c, &root);
    ORDER.store(0, Ordering::SeqCst);
    let _ = std::fs::remove_dir_all(&root);
    let _ = std::fs::remove_dir_all(&kept);
    r
}
fn orders(c: &Value, root: &Path) -> R {
    let ver = if c["key"] == true { Some(match c["kid"].as_str().unwrap() { "gms" => V::GMS, "ems" => V::EMS, _ => V::BMS }) } else { None };
    let base = at(root, &c["base"]).join("Base.wz");
    let bad = c["bad"] == true;
    let mut first: Option<Value> = None;
    let seed = c["seed"].as_u64().unwrap();
    for how in [1, 2, seed * 7 + 3, seed * 13 + 5] {
        ORDER.store(how, Ordering::SeqCst);
        let what = match how { 1 => "listed in order".to_string(), 2 => "listed backwards".into(), s => format!("listed in order {s}") };
        let n = match resolve_base(&base, ver) {
            Ok(n) => n,
            Err(e) if bad => { let _ = e; continue; }
            Err(e) => return Err(format!("folder {what}: {e}")),
        };
        if bad { continue; }
        let got = shape(&n, None, "").map_err(|e| format!("folder {what}: {e}"))?;
        matches(&c["want"], &got, "").map_err(|e| format!("folder {what}: {e}"))?;
        match &first { None => first = Some(got), Some(f) => if *f != got { return Err(format!("folder {what}: another tree ({}) than listed in order ({})", crate::dump::show(&got), crate::dump::show(f))); } }
    }
    if bad { return Ok(()); }
    for a in c["alone"].as_array().unwrap() {
        let mut first: Option<Value> = None;
        let p = at(root, &a["p"]);
        for how in [1, 2, seed * 3 + 3] {
            ORDER.store(how, Ordering::SeqCst);
            let say = |e: String| format!("'{}' alone, listed in order {how}: {e}", p.display());
            let n = resolve_root_wz_file_dir(&p, None).map_err(|e| say(e.to_string()))?;
            let got = shape(&n, None, "").map_err(say)?;
            matches(&a["want"], &got, "").map_err(say)?;
            match &first { None => first = Some(got), Some(f) => if *f != got { return Err(say("another tree".into())); } }
        }
        // under another node: the link up is the one given
        let up = wz_reader::WzNode::empty().into_lock();
        let n = resolve_root_wz_file_dir(&p, Some(&up)).map_err(|e| e.to_string())?;
        if !n.read().unwrap().parent.upgrade().is_some_and(|u| Arc::ptr_eq(&u, &up)) { return Err(format!("'{}' under a given parent is not linked to it", p.display())); }
    }
    ORDER.store(seed, Ordering::SeqCst);
    // nothing but the archive's own name in the path
    let home = std::env::current_dir().map_err(|e| format!("harness: {e}"))?;
    let dir = base.parent().unwrap();
    std::env::set_current_dir(dir).map_err(|e| format!("harness: {e}"))?;
    let got = crate::guarded(|| resolve_base("Base.wz", ver).map_err(|e| e.to_string()));
    let _ = std::env::set_current_dir(&home);
    let n = got.and_then(|r| r).map_err(|e| format!("from its own folder: {e}"))?;
    let got = shape(&n, None, "").map_err(|e| format!("from its own folder: {e}"))?;
    matches(&c["want"], &got, "").map_err(|e| format!("from its own folder: {e}"))?;
    // what is not there is an error
    let gone = root.join("gone").join("Base.wz");
    if resolve_base(&gone, ver).is_ok() { return Err("a folder that is not there resolves".into()); }
    if resolve_root_wz_file_dir(root.join("Gone.wz"), None).is_ok() { return Err("an archive that is not there resolves".into()); }
    if resolve_base(root.join("Map.wz"), ver).is_ok() { return Err("an archive of another name is taken for the base".into()); }
    Ok(())
}
