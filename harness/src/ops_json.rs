//! JSON forms of trees (C16, C17).
use crate::dump::{kv, show, to_name};
use crate::keys::bytes;
use crate::ops_file::parse_node;
use crate::ops_image::image_node;
use crate::R;
use serde_json::{json, Map, Number, Value};
use std::sync::Arc;
use wz_reader::property::{Vector2D, WzLua, WzPng, WzRawData, WzSound, WzSoundType, WzString, WzSubProperty, WzValue, WzVideo};
use wz_reader::util::node_util::resolve_childs_parent;
use wz_reader::{MsFile, MsImage, WzDirectory, WzFile, WzImage, WzNode, WzNodeArc, WzObjectType};

fn object(nd: &Value) -> WzObjectType {
    let v = &nd["v"];
    let i = |n: usize| v[n].as_i64().unwrap_or(0) as i32;
    let s = || to_name(v);
    let b8 = || { let b = bytes(v); let mut a = [0; 8]; a.copy_from_slice(&b); a };
    let b4 = || { let b = bytes(v); let mut a = [0; 4]; a.copy_from_slice(&b); a };
    match nd["k"].as_str().unwrap() {
        "null" => WzObjectType::Value(WzValue::Null),
        "short" => (i(0) as i16).into(),
        "int" => i(0).into(),
        "long" => i64::from_le_bytes(b8()).into(),
        "float" | "wfloat" => f32::from_le_bytes(b4()).into(),
        "double" | "wdouble" => f64::from_le_bytes(b8()).into(),
        "str" => WzString::from_str(&s(), [0; 4]).into(),
        "pstr" => WzObjectType::Value(WzValue::ParsedString(s())),
        "uol" => WzObjectType::Value(WzValue::UOL(WzString::from_str(&s(), [0; 4]))),
        "vec" => Vector2D(i(0), i(1)).into(),
        "prop" => WzObjectType::Property(WzSubProperty::Property),
        "convex" => WzObjectType::Property(WzSubProperty::Convex),
        "canvas" => { let mut p = WzPng::default(); p.width = i(0) as u32; p.height = i(1) as u32; p.into() }
        "sound" => {
            let mut p = WzSound::default();
            p.duration = i(0) as u32;
            p.sound_type = [WzSoundType::Mp3, WzSoundType::Wav, WzSoundType::Binary][i(1) as usize].clone();
            p.into()
        }
        "raw" => WzRawData::default().into(),
        "video" => WzVideo::default().into(),
        "lua" => WzLua::default().into(),
        "dir" => WzDirectory::default().into(),
        "image" => WzImage::default().into(),
        "msimage" => MsImage::default().into(),
        "file" => {
            let mut f = WzFile::default();
            let m = &mut f.wz_file_meta;
            m.path = format!("/x/{}", i(5));
            m.patch_version = i(0);
            m.wz_version_header = i(1);
            m.wz_with_encrypt_version_header = i(2) == 1;
            m.hash = i(3) as u32 as usize;
            m.string_decryptor_verified = i(4) == 1;
            f.into()
        }
        "msfile" => {
            let mut f = MsFile::default();
            f.header.key_salt = format!("s{}", i(0));
            f.header.name_with_salt = format!("n{}", i(1));
            f.header.header_hash = i(3);
            f.header.version = i(5) as u8;
            f.header.entry_count = i(1);
            f.header.hstart = i(5) as usize;
            f.header.estart = i(3) as u32 as usize;
            f.header.ms_file_version = i(4) as u8;
            f.into()
        }
        k => panic!("harness: kind {k}"),
    }
}
/// kind and value of a node, files with all they state
fn facts(o: &WzObjectType) -> (String, Value) {
    match o {
        WzObjectType::File(f) => ("file".into(), json!(format!("{:?}", f.wz_file_meta))),
        WzObjectType::MsFile(f) => ("msfile".into(), json!(format!("{:?}", f.header))),
        WzObjectType::Value(WzValue::ParsedString(s)) => ("pstr".into(), json!(s)),
        WzObjectType::Property(WzSubProperty::PNG(p)) => ("canvas".into(), json!([p.width, p.height])),
        WzObjectType::Property(WzSubProperty::Sound(s)) => ("sound".into(), json!([s.duration, format!("{:?}", s.sound_type)])),
        WzObjectType::Value(WzValue::Float(x)) => ("float".into(), json!(x.to_bits())),
        WzObjectType::Value(WzValue::Double(x)) => ("double".into(), json!(x.to_bits())),
        WzObjectType::Value(WzValue::RawData(_) | WzValue::Video(_) | WzValue::Lua(_)) => ("dark".into(), json!(null)),
        o => kv(o),
    }
}
fn near(a: &Value, b: &Value) -> bool {
    match (a.as_u64(), b.as_u64()) { (Some(x), Some(y)) => x.abs_diff(y) <= 1, _ => a == b }
}
/// the node against node number i of the specification
fn same(c: &Value, i: usize, a: &WzNodeArc, path: &str, exact: bool) -> R {
    let nd = &c["nodes"][i - 1];
    let r = a.read().unwrap();
    if r.name.as_str() != to_name(&nd["n"]) { return Err(format!("at '{path}': the name is {:?}", r.name.as_str())); }
    let (got, want) = (facts(&r.object_type), facts(&object(nd)));
    if got.0 != want.0 || !(got.1 == want.1 || (!exact && ["float", "double"].contains(&got.0.as_str()) && near(&got.1, &want.1))) {
        return Err(format!("at '{path}': a {} {} instead of a {} {}", got.0, show(&got.1), want.0, show(&want.1)));
    }
    let kids: Vec<usize> = c["nodes"].as_array().unwrap().iter().enumerate().filter(|(_, n)| n["par"] == json!(i)).map(|(j, _)| j + 1).collect();
    if r.children.len() != kids.len() { return Err(format!("at '{path}': {} children instead of {}", r.children.len(), kids.len())); }
    for k in kids {
        let n = to_name(&c["nodes"][k - 1]["n"]);
        let ch = r.children.get(n.as_str()).ok_or_else(|| format!("at '{path}': child {n:?} is missing"))?;
        same(c, k, ch, &format!("{path}/{n}"), exact)?;
    }
    Ok(())
}
fn build(c: &Value) -> Result<WzNodeArc, String> {
    let nodes = c["nodes"].as_array().unwrap();
    if c["src"].as_str().unwrap().starts_with("image") {
        let n = image_node(c);
        n.write().unwrap().name = to_name(&nodes[0]["n"]).as_str().into();
        parse_node(&n).map_err(|e| format!("harness: parse: {e}"))?;
        return Ok(n);
    }
    let mut made: Vec<WzNodeArc> = Vec::new();
    for nd in nodes {
        let par = nd["par"].as_u64().unwrap() as usize;
        let p = if par == 0 { None } else { Some(made[par - 1].clone()) };
        let n = WzNode::from_str(&to_name(&nd["n"]), object(nd), p.as_ref()).into_lock();
        if let Some(p) = p { p.write().unwrap().add(&n); }
        made.push(n);
    }
    Ok(made[0].clone())
}
fn navigate(c: &Value, root: &WzNodeArc) -> R {
    resolve_childs_parent(root);
    let nodes = c["nodes"].as_array().unwrap();
    for i in 1..=nodes.len() {
        let mut names = Vec::new();
        let mut j = i;
        while j != 0 { names.push(to_name(&nodes[j - 1]["n"])); j = nodes[j - 1]["par"].as_u64().unwrap() as usize; }
        names.reverse();
        let full = names.join("/");
        let mut n = root.clone();
        for s in &names[1..] {
            let k = n.read().unwrap().at(s).ok_or_else(|| format!("'{full}': no child {s:?}"))?;
            let up = k.read().unwrap().parent.upgrade();
            if !up.is_some_and(|u| Arc::ptr_eq(&u, &n)) { return Err(format!("'{full}': {s:?} has another parent than the node it is in")); }
            n = k;
        }
        let got = n.read().unwrap().get_full_path();
        if got != full { return Err(format!("full path of '{full}' is '{got}'")); }
        if i > 1 {
            let a = root.read().unwrap().at_path(&names[1..].join("/"));
            if !a.is_some_and(|a| Arc::ptr_eq(&a, &n)) { return Err(format!("at_path to '{full}' leads elsewhere")); }
            let u = n.read().unwrap().at_relative("..");
            if !u.is_some_and(|u| Arc::ptr_eq(&u, &n.read().unwrap().parent.upgrade().unwrap())) { return Err(format!("'{full}' '..' leads elsewhere")); }
        }
    }
    if root.read().unwrap().parent.upgrade().is_some() { return Err("the root has a parent".into()); }
    Ok(())
}
pub fn jfull(c: &Value) -> R {
    let root = build(c)?;
    same(c, 1, &root, "", true).map_err(|e| format!("harness: the tree before: {e}"))?;
    if c["full"] != json!(true) { let _ = root.read().unwrap().to_json(); return Ok(()); }
    let doc = root.read().unwrap().to_json().map_err(|e| format!("to_json: {e}"))?;
    let back = serde_json::from_value::<WzNode>(doc.clone()).map_err(|e| format!("reading the value back: {e}"))?.into_lock();
    same(c, 1, &back, "", true).map_err(|e| format!("read back from its value: {e}"))?;
    navigate(c, &back).map_err(|e| format!("read back: {e}"))?;
    // a tree put together from parts of others, which have parents there
    let other = serde_json::from_value::<WzNode>(doc.clone()).map_err(|e| format!("reading the value once more: {e}"))?.into_lock();
    for k in back.read().unwrap().children.values() { other.write().unwrap().add(k); }
    navigate(c, &other).map_err(|e| format!("children moved into another tree: {e}"))?;
    let again = back.read().unwrap().to_json().map_err(|e| format!("to_json of the tree read back: {e}"))?;
    if again != doc { return Err("the tree read back has another JSON form".into()); }
    let text = serde_json::to_string(&*root.read().unwrap()).map_err(|e| format!("to text: {e}"))?;
    let back = serde_json::from_str::<WzNode>(&text).map_err(|e| format!("reading the text back: {e}"))?.into_lock();
    same(c, 1, &back, "", false).map_err(|e| format!("read back from its text: {e}"))?;
    same(c, 1, &root, "", true).map_err(|e| format!("the tree after: {e}"))
}
fn jvalue(j: &Value) -> Value {
    match j["j"].as_str().unwrap() {
        "int" => { let b = bytes(&j["b"]); let mut a = [0; 8]; a.copy_from_slice(&b); json!(i64::from_le_bytes(a)) }
        "f32" => { let b = bytes(&j["b"]); Value::Number(Number::from_f64(f32::from_le_bytes([b[0], b[1], b[2], b[3]]) as f64).unwrap()) }
        "f64" => { let b = bytes(&j["b"]); let mut a = [0; 8]; a.copy_from_slice(&b); Value::Number(Number::from_f64(f64::from_le_bytes(a)).unwrap()) }
        "str" => json!(to_name(&j["u"])),
        "obj" => Value::Object(j["m"].as_array().map(|m| m.iter().map(|e| (to_name(&e["k"]), jvalue(&e["v"]))).collect()).unwrap_or_else(Map::new)),
        _ => Value::Null,
    }
}
fn jdiff(w: &Value, g: &Value, path: &str) -> Option<String> {
    if let (Value::Object(a), Value::Object(b)) = (w, g) {
        for (k, v) in a {
            match b.get(k) {
                None => return Some(format!("at '{path}': no entry {k:?}")),
                Some(x) => if let Some(d) = jdiff(v, x, &format!("{path}/{k}")) { return Some(d); },
            }
        }
        return b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("at '{path}': an entry {k:?} that is no child"));
    }
    if w == g { None } else { Some(format!("at '{path}': {} instead of {}", show(g), show(w))) }
}
pub fn jsimple(c: &Value) -> R {
    let root = build(c)?;
    let got = root.read().unwrap().to_simple_json().map_err(|e| format!("to_simple_json: {e}"))?;
    if let Some(d) = jdiff(&jvalue(&c["simple"]), &got, "") { return Err(format!("simple form: {d}")); }
    Ok(())
}
