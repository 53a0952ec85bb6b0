//! Archives: opening, listing, parsing in any order (C10, C11, C12).
use crate::dump::{diff, dump, sorted, to_name};
use crate::keys::{bytes, iv, tmp};
use crate::ops_image::check_parents;
use crate::R;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use wz_reader::{WzFile, WzNode, WzNodeArc, WzObjectType};

pub fn write_file(name: &str, b: &[u8]) -> Result<PathBuf, String> {
    let p = tmp().join(name);
    let _ = std::fs::remove_file(&p);
    std::fs::write(&p, b).map_err(|e| format!("harness: {e}"))?;
    Ok(p)
}
pub fn parse_node(n: &WzNodeArc) -> Result<(), String> { wz_reader::util::node_util::parse_node(n).map_err(|e| e.to_string()) }

pub fn open(path: &Path, ver: i64, key: &str) -> Result<WzNodeArc, String> {
    let iv = if key.is_empty() { None } else { Some(iv(key)) };
    let ver = if ver == 0 { None } else { Some(ver as i32) };
    let f = WzFile::from_file(path, iv, ver, None).map_err(|e| format!("open: {e}"))?;
    let n = WzNode::from_str("t", f, None).into_lock();
    parse_node(&n).map_err(|e| format!("parse: {e}"))?;
    Ok(n)
}
/// names, kinds, offsets and sizes of everything listed
fn listing(n: &WzNodeArc) -> Value {
    let r = n.read().unwrap();
    let mut v: Vec<(String, Value)> = r.children.iter().map(|(k, c)| {
        let kids = listing(c);
        let cr = c.read().unwrap();
        let e = match &cr.object_type {
            WzObjectType::Directory(d) => json!([k.as_str(), "dir", d.offset, d.block_size, kids]),
            WzObjectType::Image(i) => json!([k.as_str(), "image", i.offset, i.block_size, kids]),
            _ => json!([k.as_str(), "other"]),
        };
        (k.to_string(), e)
    }).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    json!(v.into_iter().map(|x| x.1).collect::<Vec<_>>())
}
fn expected(t: &Value) -> Value {
    let mut v: Vec<(String, Value)> = t.as_array().unwrap().iter().map(|e| {
        let n = to_name(&e["n"]);
        (n.clone(), json!([n, e["k"], e["off"], e["size"], if e["k"] == "dir" { expected(&e["c"]) } else { json!([]) }]))
    }).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    json!(v.into_iter().map(|x| x.1).collect::<Vec<_>>())
}
fn collect(n: &WzNodeArc, t: &Value, out: &mut Vec<(WzNodeArc, Value)>) {
    for e in t.as_array().unwrap() {
        let c = n.read().unwrap().children.get(to_name(&e["n"]).as_str()).cloned().expect("listed");
        if e["k"] == "dir" { collect(&c, &e["c"], out); }
        out.push((c, e.clone()));
    }
}
pub fn shuffle<T>(v: &mut [T], seed: u64) {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for i in (1..v.len()).rev() {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        v.swap(i, (s % (i as u64 + 1)) as usize);
    }
}

/// every directory and image parses to what is stored for it, whatever the order
pub fn check_tree(root: &WzNodeArc, t: &Value, order: u64) -> R {
    let (a, b) = (expected(t), listing(root));
    if a != b { return Err(format!("listing: expected {} got {}", crate::dump::show(&a), crate::dump::show(&b))); }
    let mut all = vec![];
    collect(root, t, &mut all);
    if order > 0 { shuffle(&mut all, order); }
    for (n, e) in &all {
        let name = to_name(&e["n"]);
        parse_node(n).map_err(|x| format!("parse of '{name}': {x}"))?;
        if e["k"] == "image" {
            let want = sorted(&json!({"n": e["n"], "k": "image", "v": [], "c": e["c"]}));
            if let Some(d) = diff(&want, &dump(n), &name) { return Err(format!("content: {d}")); }
        }
    }
    for (n, e) in &all {
        let k = n.read().unwrap().children.len();
        if k != e["c"].as_array().unwrap().len() { return Err(format!("'{}' ends up with {k} children", to_name(&e["n"]))); }
    }
    check_parents(root, "")
}

pub fn pkg1(c: &Value) -> R {
    let b = bytes(&c["bytes"]);
    let p = write_file("t.wz", &b)?;
    guess(&b, &c["ivs"])?;
    for w in c["ways"].as_array().unwrap() {
        let (ver, key) = (w["ver"].as_i64().unwrap(), w["key"].as_str().unwrap());
        let how = format!("archive of version {} and key {} opened with version {} and key {:?}", c["ver"], c["kid"],
                          if ver == 0 { "detected".into() } else { ver.to_string() }, key);
        let r = open(&p, ver, key);
        match (w["want"].as_str().unwrap(), r) {
            ("any", _) => {}
            ("refuse", Err(_)) => {}
            ("refuse", Ok(n)) => return Err(format!("{how} is accepted, as version {:?}", version(&n))),
            (_, Err(e)) => return Err(format!("{how}: {e}")),
            (_, Ok(n)) => {
                let got = version(&n);
                if json!(got.0) != w["v"] || got.1 as i64 != w["hash"].as_i64().unwrap() & 0xffff_ffff { return Err(format!("{how} is read as version {got:?}, not {}", w["v"])); }
                check_tree(&n, &c["tree"], c["order"].as_u64().unwrap()).map_err(|e| format!("{how}: {e}"))?;
            }
        }
    }
    Ok(())
}
/// the free functions that look for an archive's key: [fits, chosen], or nothing where the bytes are no whole archive
fn guess(b: &[u8], ivs: &Value) -> R {
    use wz_reader::version::{guess_iv_from_wz_file, verify_iv_from_wz_file};
    let got = guess_iv_from_wz_file(b);
    let fits: Vec<&str> = ["none", "gms", "ems", "custom"].into_iter().filter(|k| verify_iv_from_wz_file(b, &iv(k)).is_ok()).collect();
    let Some(want) = ivs["fits"].as_array() else { return Ok(()) };
    let mut w: Vec<&str> = want.iter().map(|x| x.as_str().unwrap()).collect();
    let mut f = fits.clone();
    w.sort(); f.sort();
    if w != f { return Err(format!("keys verified for the archive: {f:?}, not {w:?}")); }
    let first = ivs["first"].as_str().unwrap();
    if got != (if first.is_empty() { None } else { Some(iv(first)) }) { return Err(format!("key guessed for the archive: {got:?}, not {first:?}")); }
    Ok(())
}
fn version(n: &WzNodeArc) -> (i32, usize) {
    match &n.read().unwrap().object_type {
        WzObjectType::File(f) => (f.wz_file_meta.patch_version, f.wz_file_meta.hash),
        _ => (0, 0),
    }
}
/// bytes that are no archive are refused by every way in
pub fn notwz(c: &Value) -> R {
    let p = write_file("t.wz", &bytes(&c["bytes"]))?;
    for key in ["", "none", "gms"] {
        for ver in [0, 95] {
            if let Ok(n) = open(&p, ver, key) { return Err(format!("{}: accepted as an archive of version {:?}", c["why"], version(&n))); }
        }
    }
    let f = WzNode::from_wz_file(&p, None);
    if let Ok(n) = f {
        let n = n.into_lock();
        if parse_node(&n).is_ok() { return Err(format!("{}: accepted as an archive", c["why"])); }
    }
    Ok(())
}
#[allow(dead_code)]
pub fn same(a: &WzNodeArc, b: &WzNodeArc) -> bool { Arc::ptr_eq(a, b) }

/// an .img file opened with and without its key
pub fn imgkey(c: &Value) -> R {
    use wz_reader::version::WzMapleVersion as V;
    let p = write_file("t.img", &bytes(&c["bytes"]))?;
    for w in c["ways"].as_array().unwrap() {
        let key = w["key"].as_str().unwrap();
        let mut opened = vec![];
        if key.is_empty() {
            opened.push(("from_img_file", WzNode::from_img_file(&p, None, None)));
        } else {
            opened.push(("from_img_file_with_iv", WzNode::from_img_file_with_iv(&p, iv(key), None)));
            match key {
                "gms" => opened.push(("from_img_file", WzNode::from_img_file(&p, Some(V::GMS), None))),
                "ems" => opened.push(("from_img_file", WzNode::from_img_file(&p, Some(V::EMS), None))),
                "none" => opened.push(("from_img_file", WzNode::from_img_file(&p, Some(V::BMS), None))),
                _ => {}
            }
        }
        for (f, r) in opened {
            let how = format!("{f} of an image of key {} with key {key:?}", c["kid"]);
            match (w["want"].as_str().unwrap(), r) {
                ("refuse", Err(_)) => {}
                ("refuse", Ok(_)) => return Err(format!("{how} is accepted")),
                (_, Err(e)) => return Err(format!("{how}: {e}")),
                (want, Ok(n)) => {
                    let n = n.into_lock();
                    match (want, parse_node(&n)) {
                        ("tree", Ok(())) => {
                            let want = sorted(&json!({"n": [116, 46, 105, 109, 103], "k": "image", "v": [], "c": w["tree"]}));
                            if let Some(d) = diff(&want, &dump(&n), "") { return Err(format!("{how}: {d}")); }
                        }
                        ("tree", Err(e)) => return Err(format!("{how}: parse: {e}")),
                        (_, Err(_)) => {}
                        (_, Ok(())) => return Err(format!("{how}: the damaged image parses as {}", crate::dump::show(&dump(&n)))),
                    }
                }
            }
        }
    }
    Ok(())
}
