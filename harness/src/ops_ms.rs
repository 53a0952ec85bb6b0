//! .ms packs (C14).
use crate::dump::{diff, dump, sorted, to_name};
use crate::keys::{bytes, tmp};
use crate::ops_file::parse_node;
use crate::R;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;
use wz_reader::{WzNode, WzNodeArc, WzObjectType};

pub fn open(p: &Path, b: &[u8]) -> Result<WzNodeArc, String> {
    std::fs::write(p, b).map_err(|e| format!("harness: {e}"))?;
    let n = WzNode::from_ms_file(p, None).map_err(|e| e.to_string())?.into_lock();
    parse_node(&n).map_err(|e| format!("parse: {e}"))?;
    Ok(n)
}
/// the images of a pack are the ones described, whichever is opened first
fn content(n: &WzNodeArc, es: &[Value], order: usize) -> R {
    let list = |n: &WzNodeArc| -> BTreeMap<String, WzNodeArc> { n.read().unwrap().children.iter().map(|(k, c)| (k.to_string(), c.clone())).collect() };
    let got = list(n);
    let mut want: Vec<String> = es.iter().map(|e| to_name(&e["n"])).collect();
    want.sort();
    let names: Vec<String> = got.keys().cloned().collect();
    if want != names { return Err(format!("the pack lists {names:?} instead of {want:?}")); }
    for i in 0..es.len() {
        let e = &es[(i * order + order) % es.len()];
        let name = to_name(&e["n"]);
        let c = &got[&name];
        if c.read().unwrap().name.as_str() != name { return Err(format!("'{name}' is named '{}'", c.read().unwrap().name)); }
        let b = bytes(&e["b"]);
        {
            let r = c.read().unwrap();
            let WzObjectType::MsImage(im) = &r.object_type else { return Err(format!("'{name}' is not an image")); };
            for _ in 0..2 {
                let im = im.to_wz_image();
                if im.name.as_str() != name { return Err(format!("'{name}' becomes an image named '{}'", im.name)); }
                if im.block_size != b.len() { return Err(format!("'{name}' has {} bytes instead of {}", im.block_size, b.len())); }
                let d = im.reader.get_slice(im.offset..im.offset + im.block_size);
                if let Some(i) = d.iter().zip(&b).position(|(x, y)| x != y) { return Err(format!("'{name}' is wrong from byte {i} of {} on", b.len())); }
            }
        }
        let want = json!({"n": e["n"], "k": "image", "v": [], "c": sorted(&json!({"n": [], "k": "image", "v": [], "c": e["tree"]}))["c"]});
        for k in 0..3 {
            parse_node(c).map_err(|x| format!("parse of '{name}': {x}"))?;
            if let Some(d) = diff(&want, &dump(c), &name) { return Err(d); }
            if k == 1 { c.write().unwrap().unparse(); if !c.read().unwrap().children.is_empty() { return Err(format!("'{name}' keeps children when unparsed")); } }
        }
        match n.read().unwrap().at(&name) { Some(x) if std::sync::Arc::ptr_eq(&x, c) => {} _ => return Err(format!("'{name}' is not found under its name")) }
    }
    parse_node(n).map_err(|e| format!("parse again: {e}"))?;
    let again = list(n);
    if again.len() != got.len() || got.iter().any(|(k, c)| !again.get(k).is_some_and(|x| std::sync::Arc::ptr_eq(x, c))) { return Err("a second parse gives other images".into()); }
    Ok(())
}
pub fn mspack(c: &Value) -> R {
    let dir = tmp().join("ms");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| format!("harness: {e}"))?;
    let r = run(c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn run(c: &Value, dir: &Path) -> R {
    let b = bytes(&c["bytes"]);
    let es = c["es"].as_array().unwrap();
    let name = to_name(&c["f"]);
    let at = |s: &str| dir.join(s);
    let n = open(&at(&name), &b).map_err(|e| format!("'{name}': {e}"))?;
    let stem = name.rsplit_once('.').unwrap().0;
    if n.read().unwrap().name.as_str() != stem { return Err(format!("'{name}' is named '{}'", n.read().unwrap().name)); }
    content(&n, es, 1)?;
    n.write().unwrap().unparse();
    if !n.read().unwrap().children.is_empty() { return Err("the pack keeps its images when unparsed".into()); }
    parse_node(&n).map_err(|e| format!("parse after unparse: {e}"))?;
    content(&n, es, es.len().saturating_sub(1).max(1)).map_err(|e| format!("after unparse: {e}"))?;
    // only the letters count, not their case
    for s in c["same"].as_array().unwrap() {
        let s = to_name(s);
        let n = open(&at(&s), &b).map_err(|e| format!("named '{s}': {e}"))?;
        content(&n, es, 1).map_err(|e| format!("named '{s}': {e}"))?;
    }
    for s in c["wrong"].as_array().unwrap() {
        let s = to_name(s);
        if let Ok(n) = open(&at(&s), &b) { return Err(format!("a pack called '{name}' opens as '{s}', with {} images", n.read().unwrap().children.len())); }
    }
    for f in c["flip"].as_array().unwrap() {
        let (i, x) = (f[0].as_u64().unwrap() as usize, f[1].as_u64().unwrap() as u8);
        let mut b = b.clone();
        b[i] ^= x;
        if let Ok(n) = open(&at(&name), &b) { return Err(format!("a pack with another salt (byte {i} changed by {x}) opens, with {} images", n.read().unwrap().children.len())); }
    }
    Ok(())
}
