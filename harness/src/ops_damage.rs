//! Damaged input (C23): an error, or the properties that are there; never a crash.
use crate::dump::{dump, show, to_name};
use crate::keys::{bytes, iv, shared, tmp};
use crate::ops_file::parse_node;
use crate::{guarded, R};
use serde_json::{json, Value};
use std::sync::Arc;
use wz_reader::property::{get_image, resolve_string_from_node, WzSubProperty, WzValue};
use wz_reader::{WzImage, WzNode, WzNodeArc, WzObjectType, WzReader};

/// everything a user can ask of a tree that was read: values may be errors
pub fn exercise(n: &WzNodeArc, deep: bool) {
    let kids: Vec<WzNodeArc> = n.read().unwrap().children.values().cloned().collect();
    {
        let r = n.read().unwrap();
        match &r.object_type {
            WzObjectType::Property(WzSubProperty::PNG(p)) => { if deep { let _ = p.extract_png(); } }
            WzObjectType::Property(WzSubProperty::Sound(s)) => {
                let _ = s.get_buffer();
                let _ = s.write_to(&mut std::io::Cursor::new(Vec::new()));
            }
            WzObjectType::Value(WzValue::RawData(d)) => { let _ = d.get_buffer().len(); }
            WzObjectType::Value(WzValue::Video(d)) => { let _ = d.get_buffer().len(); }
            WzObjectType::Value(WzValue::Lua(l)) => { let _ = l.extract_lua(); }
            WzObjectType::Value(WzValue::String(s)) => { let _ = s.get_string(); }
            WzObjectType::Value(WzValue::UOL(s)) => { let _ = s.get_string(); }
            _ => {}
        }
    }
    if deep { let _ = get_image(n); let _ = resolve_string_from_node(n); }
    for k in &kids { exercise(k, deep); }
}
/// the tree of the specification, of which names and texts may be unknown, against the one read
pub fn fits(exp: &Value, got: &Value, path: &str) -> R {
    let any = json!([-1]);
    if exp["n"] != any && exp["n"] != got["n"] { return Err(format!("'{path}' is named {} instead of {}", show(&got["n"]), show(&exp["n"]))); }
    if exp["k"] != got["k"] { return Err(format!("'{path}' is a {} instead of a {}", got["k"], exp["k"])); }
    if exp["v"] != any && exp["v"] != got["v"] { return Err(format!("'{path}' ({}) is {} instead of {}", exp["k"], show(&got["v"]), show(&exp["v"]))); }
    let no = vec![];
    let (es, gs) = (exp["c"].as_array().unwrap_or(&no), got["c"].as_array().unwrap_or(&no));
    let wild: Vec<&Value> = es.iter().filter(|e| e["n"] == any).collect();
    let mut named: Vec<&Value> = vec![];
    for e in es.iter().filter(|e| e["n"] != any) { named.retain(|x| x["n"] != e["n"]); named.push(e); }
    for e in &named {
        let p = format!("{path}/{}", to_name(&e["n"]));
        match gs.iter().find(|g| g["n"] == e["n"]) { Some(g) => fits(e, g, &p)?, None => return Err(format!("'{p}' is missing")) }
    }
    for g in gs.iter().filter(|g| !named.iter().any(|e| e["n"] == g["n"])) {
        if !wild.iter().any(|w| fits(w, g, "").is_ok()) { return Err(format!("'{path}/{}' is not in the bytes", to_name(&g["n"]))); }
    }
    if gs.len() > named.len() + wild.len() { return Err(format!("'{path}' has {} children, there are {}", gs.len(), es.len())); }
    Ok(())
}
fn paths(t: &Value, pre: &str, out: &mut Vec<String>) {
    for e in t.as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        let p = if pre.is_empty() { to_name(&e["n"]) } else { format!("{pre}/{}", to_name(&e["n"])) };
        paths(&e["c"], &p, out);
        out.push(p);
    }
}
/// the only node of that path, if it is sure which one that is
fn only<'a>(t: &'a Value, p: &str) -> Option<&'a Value> {
    let mut cs = t;
    let mut at = None;
    for s in p.split('/') {
        let mut hit = None;
        for e in cs.as_array()?.iter() {
            if e["n"] == json!([-1]) { return None; }
            if to_name(&e["n"]) == s { if hit.is_some() { return None; } hit = Some(e); }
        }
        at = Some(hit?);
        cs = &at?["c"];
    }
    at
}
fn one(b: &[u8], off: usize, kid: &str, tree: &Value, want: &Value, probes: &[String], file: bool) -> R {
    let r = Arc::new(WzReader::from_buff(b).with_existing_keys(shared(kid)));
    let img = || WzImage::new(&"t.img".into(), off, b.len().saturating_sub(off), &r);
    let w = want[0].as_i64().unwrap();
    let exp = if w == 1 { tree } else { &want[1] };
    match img().resolve_children(None) {
        Err(_) => {}
        Ok((kids, _)) => {
            if w == 0 { return Err(format!("no image is there, but {} properties are read: {}", kids.len(), show(&json!(kids.iter().map(|k| dump(&k.1)).collect::<Vec<_>>())))); }
            let es = exp.as_array().unwrap();
            if kids.len() != es.len() { return Err(format!("{} properties are read, {} are there", kids.len(), es.len())); }
            for ((n, k), e) in kids.iter().zip(es) { fits(e, &dump(k), n.as_str())?; }
        }
    }
    let node = WzNode::from_str("t.img", img(), None).into_lock();
    match parse_node(&node) {
        Err(_) => {
            if !node.read().unwrap().children.is_empty() { return Err("parse fails but leaves children".into()); }
        }
        Ok(()) => {
            if w == 0 { return Err("no image is there, but it parses".into()); }
            exercise(&node, true);
            let _ = node.read().unwrap().to_simple_json();
            let _ = serde_json::to_value(&*node.read().unwrap());
        }
    }
    for p in probes {
        if let Ok(n) = img().at_path(p) {
            exercise(&n, true);
            if w > 0 { if let Some(e) = only(exp, p) { fits(e, &dump(&n), p).map_err(|e| format!("direct access: {e}"))?; } }
        }
    }
    if file {
        let path = tmp().join("d.img");
        std::fs::write(&path, &b[off.min(b.len())..]).map_err(|e| format!("harness: {e}"))?;
        for n in [WzNode::from_img_file(&path, None, None), WzNode::from_img_file_with_iv(&path, iv(kid), None)].into_iter().flatten() {
            let n = n.into_lock();
            if parse_node(&n).is_ok() {
                if w == 0 && kid == "none" { return Err("no image is there, but the file parses".into()); }
                exercise(&n, false);
            }
        }
    }
    Ok(())
}
pub fn dmgimg(c: &Value) -> R {
    let (b, off, kid) = (bytes(&c["bytes"]), c["off"].as_u64().unwrap() as usize, c["kid"].as_str().unwrap());
    let tree = &c["tree"];
    let mut all = vec![];
    paths(tree, "", &mut all);
    let mut k = 0usize;
    for x in c["cuts"].as_array().unwrap() {
        let n = x[0].as_u64().unwrap() as usize;
        k += 1;
        guarded(|| one(&b[..n], off, kid, tree, &x[1], &all[..all.len().min(4)], k % 9 == 0)).unwrap_or_else(Err).map_err(|e| format!("image cut after {n} of {} bytes: {e}", b.len()))?;
    }
    let mut m = b.clone();
    for x in c["muts"].as_array().unwrap() {
        let (p, v) = (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as u8);
        k += 1;
        m[p] = v;
        let probes: Vec<String> = if all.is_empty() { vec![] } else { (0..2).map(|i| all[(k * 7 + i) % all.len()].clone()).collect() };
        guarded(|| one(&m, off, kid, tree, &x[2], &probes, k % 23 == 0)).unwrap_or_else(Err).map_err(|e| format!("image of {} bytes with byte {p} ({}) changed to {v}: {e}", b.len(), b[p]))?;
        m[p] = b[p];
    }
    Ok(())
}

/// the archive listed, against what the bytes hold; `must`: images the damage is not inside of have to be read
fn fits_dir(n: &WzNodeArc, exp: &Value, path: &str, must: Option<usize>) -> R {
    let any = json!([-1]);
    let kids: Vec<(String, WzNodeArc)> = n.read().unwrap().children.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let es = exp.as_array().unwrap();
    let mut named: Vec<&Value> = vec![];
    for e in es.iter().filter(|e| e["n"] != any) { named.retain(|x| to_name(&x["n"]) != to_name(&e["n"])); named.push(e); }
    let wild: Vec<&Value> = es.iter().filter(|e| e["n"] == any).collect();
    if kids.len() > named.len() + wild.len() { return Err(format!("'{path}' lists {} entries, there are {}", kids.len(), es.len())); }
    for e in &named {
        let nm = to_name(&e["n"]);
        let Some((_, k)) = kids.iter().find(|k| k.0 == nm) else { return Err(format!("'{path}/{nm}' is not listed")) };
        fits_entry(k, e, &format!("{path}/{nm}"), must)?;
    }
    for (nm, k) in kids.iter().filter(|k| !named.iter().any(|e| to_name(&e["n"]) == k.0)) {
        if !wild.iter().any(|w| fits_entry(k, w, nm, None).is_ok()) { return Err(format!("'{path}/{nm}' is listed and not there")); }
    }
    Ok(())
}
fn fits_entry(n: &WzNodeArc, e: &Value, path: &str, must: Option<usize>) -> R {
    let at = match &n.read().unwrap().object_type {
        WzObjectType::Directory(d) => json!(["dir", d.offset, d.block_size]),
        WzObjectType::Image(i) => json!(["image", i.offset, i.block_size]),
        _ => json!(["other", e["off"], e["size"]]),
    };
    if at != json!([e["k"], e["off"], e["size"]]) { return Err(format!("'{path}' is listed as {at} instead of {}", json!([e["k"], e["off"], e["size"]]))); }
    if e["k"] == "dir" { return fits_dir(n, &e["c"], path, must); }
    if e["k"] != "image" { return Ok(()); }
    match parse_node(n) {
        Ok(()) => {
            if e["ok"] != true { return Err(format!("image '{path}' holds no image, but is read")); }
            let no = vec![];
            fits(&json!({"n": e["n"], "k": "image", "v": [], "c": e["c"]}), &dump(n), path)?;
            exercise(n, e["c"].as_array().unwrap_or(&no).len() < 50);
        }
        Err(x) => {
            let (o, s) = (e["off"].as_u64().unwrap() as usize, e["size"].as_u64().unwrap() as usize);
            if let Some(p) = must { if p < o || p >= o + s { return Err(format!("image '{path}' is not read because of damage elsewhere: {x}")); } }
        }
    }
    Ok(())
}
/// nothing is claimed of it but that every part of it can be asked for
fn poke(n: &WzNodeArc) {
    let _ = parse_node(n);
    let kids: Vec<WzNodeArc> = n.read().unwrap().children.values().cloned().collect();
    for k in kids {
        let dir = matches!(k.read().unwrap().object_type, WzObjectType::Directory(_) | WzObjectType::Image(_) | WzObjectType::File(_));
        if dir { poke(&k); } else { exercise(&k, true); }
    }
}
fn pkg_one(b: &[u8], kid: &str, ver: i64, want: &Value, hit: Option<usize>, others: bool) -> R {
    let p = crate::ops_file::write_file("d.wz", b)?;
    match crate::ops_file::open(&p, ver, kid) {
        Err(e) => if hit.is_some() { return Err(format!("the whole archive is refused: {e}")); },
        Ok(n) => {
            if want["ok"] != true { return Err("no archive is there, but it opens".into()); }
            fits_dir(&n, &want["c"], "", hit)?;
        }
    }
    if others {
        for (v, k) in [(0, ""), (ver + 1, ""), (0, "gms")] { if let Ok(n) = crate::ops_file::open(&p, v, k) { poke(&n); } }
        if let Ok(n) = WzNode::from_wz_file(&p, None) { poke(&n.into_lock()); }
    }
    Ok(())
}
pub fn dmgpkg(c: &Value) -> R {
    let (b, kid, ver) = (bytes(&c["bytes"]), c["kid"].as_str().unwrap(), c["ver"].as_i64().unwrap());
    let sure = c["sure"] == true;
    if sure { pkg_one(&b, kid, ver, &json!({"ok": true, "c": c["tree"]}), Some(b.len()), false).map_err(|e| format!("archive as written: {e}"))?; }
    for (i, x) in c["cuts"].as_array().unwrap().iter().enumerate() {
        let n = x[0].as_u64().unwrap() as usize;
        guarded(|| pkg_one(&b[..n], kid, ver, &x[1], None, i % 2 == 0)).unwrap_or_else(Err).map_err(|e| format!("archive cut after {n} of {} bytes: {e}", b.len()))?;
    }
    let mut m = b.clone();
    for (i, x) in c["muts"].as_array().unwrap().iter().enumerate() {
        let (p, v) = (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as u8);
        m[p] = v;
        let hit = if x[2] == true && sure { Some(p) } else { None };
        guarded(|| pkg_one(&m, kid, ver, &x[3], hit, i % 3 == 0)).unwrap_or_else(Err).map_err(|e| format!("archive of {} bytes with byte {p} ({}) changed to {v}: {e}", b.len(), b[p]))?;
        m[p] = b[p];
    }
    Ok(())
}

pub fn dmgpkg2(c: &Value) -> R {
    let b = bytes(&c["bytes"]);
    let key = c["key"].as_str().unwrap();
    let open = |b: &[u8]| {
        crate::ops_pkg2::remember(&c["cache"]);
        let p = crate::ops_file::write_file("d.wz", b)?;
        crate::ops_pkg2::open(&p, key)
    };
    let mut runs: Vec<(String, Vec<u8>, usize, &Value)> = vec![];
    for x in c["cuts"].as_array().unwrap() {
        let n = x[0].as_u64().unwrap() as usize;
        runs.push((format!("cut after {n} of {} bytes", b.len()), b[..n].to_vec(), 0, &x[1]));
    }
    for x in c["muts"].as_array().unwrap() {
        let (p, v) = (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as u8);
        let mut m = b.clone();
        m[p] = v;
        runs.push((format!("of {} bytes with byte {p} ({}) changed to {v}", b.len(), b[p]), m, p, &x[2]));
    }
    for (what, m, p, want) in runs {
        guarded(|| match (want["how"].as_str().unwrap(), if want["how"] == "" { Err(String::new()) } else { open(&m) }) {
            ("", _) => Ok(()),
            ("refuse", Ok(_)) => Err("no archive is there, but it opens".into()),
            ("hit", Err(e)) => Err(format!("the whole archive is refused: {e}")),
            ("hit", Ok(n)) => fits_dir(&n, &want["w"]["c"], "", Some(p)),
            (_, Ok(n)) => { poke(&n); Ok(()) }
            (_, Err(_)) => Ok(()),
        }).unwrap_or_else(Err).map_err(|e| format!("{} {} archive {what}: {e}", c["prof"].as_str().unwrap(), c["form"].as_str().unwrap()))?;
    }
    Ok(())
}

fn ms_one(b: &[u8], p: &std::path::Path, sure: bool, must: &Value, may: &Value, es: &[Value]) -> R {
    let n = match crate::ops_ms::open(p, b) {
        Err(e) => return if sure { Err(format!("the whole pack is refused: {e}")) } else { Ok(()) },
        Ok(n) => n,
    };
    if may["ok"] != true { return Err("no pack is there, but it opens".into()); }
    let data = |nm: &str| -> Option<Vec<u8>> {
        let c = n.read().unwrap().children.get(nm).cloned()?;
        let r = c.read().unwrap();
        let WzObjectType::MsImage(i) = &r.object_type else { return None };
        let i = i.to_wz_image();
        Some(i.reader.get_slice(i.offset..i.offset + i.block_size).to_vec())
    };
    if sure && n.read().unwrap().children.len() != es.len() { return Err(format!("{} images are listed, there are {}", n.read().unwrap().children.len(), es.len())); }
    for i in must.as_array().unwrap() {
        let e = &es[i.as_u64().unwrap() as usize - 1];
        if data(&to_name(&e["n"])) != Some(bytes(&e["b"])) { return Err(format!("image '{}' is not read because of damage elsewhere", to_name(&e["n"]))); }
    }
    if may["known"] == true {
        let k = n.read().unwrap().children.len();
        if k > may["n"].as_u64().unwrap() as usize { return Err(format!("{k} images are listed, there are {}", may["n"])); }
        let mut last: Vec<&Value> = vec![];
        for e in may["es"].as_array().unwrap() { last.retain(|x| x["n"] != e["n"]); last.push(e); }
        for e in last {
            let nm = to_name(&e["n"]);
            match data(&nm) {
                None => return Err(format!("image '{nm}' is not listed")),
                Some(d) => if d != bytes(&e["b"]) { return Err(format!("image '{nm}' is not what the bytes hold")); }
            }
        }
    }
    poke(&n);
    Ok(())
}
pub fn dmgms(c: &Value) -> R {
    let dir = tmp().join("ms");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| format!("harness: {e}"))?;
    let p = dir.join(to_name(&c["f"]));
    let b = bytes(&c["bytes"]);
    let es = c["es"].as_array().unwrap();
    for x in c["cuts"].as_array().unwrap() {
        let n = x[0].as_u64().unwrap() as usize;
        guarded(|| ms_one(&b[..n], &p, x[1] == true, &x[2], &x[3], es)).unwrap_or_else(Err).map_err(|e| format!("pack of generation {} cut after {n} of {} bytes: {e}", c["gen"], b.len()))?;
    }
    let mut m = b.clone();
    for x in c["muts"].as_array().unwrap() {
        let (q, v) = (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as u8);
        m[q] = v;
        guarded(|| ms_one(&m, &p, x[2] == true, &x[3], &x[4], es)).unwrap_or_else(Err).map_err(|e| format!("pack of generation {} of {} bytes with byte {q} ({}) changed to {v}: {e}", c["gen"], b.len(), b[q]))?;
        m[q] = b[q];
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

/// parsed on a thread with the stack that threads have unless asked otherwise
pub fn deep(c: &Value) -> R {
    let b = bytes(&c["bytes"]);
    let levels = c["levels"].as_u64().unwrap();
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || -> R {
        let r = Arc::new(WzReader::from_buff(&b).with_existing_keys(shared("none")));
        let node = WzNode::from_str("t.img", WzImage::new(&"t.img".into(), 0, b.len(), &r), None).into_lock();
        if let Err(e) = parse_node(&node) { return if levels > 100 { Ok(()) } else { Err(format!("parse of {levels} levels: {e}")) }; }
        let mut at = node;
        for i in 0..levels {
            let next = at.read().unwrap().children.get("a").cloned().ok_or(format!("level {i} of {levels} is missing"))?;
            at = next;
        }
        if !at.read().unwrap().children.is_empty() { return Err("there are more levels than written".into()); }
        Ok(())
    }).unwrap().join().unwrap_or_else(|_| Err("panic".into()))
}
