//! Projection of real nodes onto the abstract nodes [n, k, v, c] of the specification.
use serde_json::{json, Value};
use wz_reader::property::{WzSoundType, WzSubProperty, WzValue};
use wz_reader::{WzNode, WzNodeArc, WzNodeCast, WzObjectType};

pub fn units(s: &str) -> Value { json!(s.encode_utf16().collect::<Vec<u16>>()) }
pub fn to_name(v: &Value) -> String {
    let u: Vec<u16> = v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap_or(0) as u16).collect()).unwrap_or_default();
    String::from_utf16_lossy(&u)
}

pub fn kv(ot: &WzObjectType) -> (String, Value) {
    let b = |x: &[u8]| json!(x);
    match ot {
        WzObjectType::File(_) => ("file".into(), json!([])),
        WzObjectType::MsFile(_) => ("msfile".into(), json!([])),
        WzObjectType::Image(_) => ("image".into(), json!([])),
        WzObjectType::MsImage(_) => ("msimage".into(), json!([])),
        WzObjectType::Directory(_) => ("dir".into(), json!([])),
        WzObjectType::Property(p) => match p {
            WzSubProperty::Convex => ("convex".into(), json!([])),
            WzSubProperty::Property => ("prop".into(), json!([])),
            WzSubProperty::PNG(p) => ("canvas".into(), json!([p.width as i32, p.height as i32, p.pages])),
            WzSubProperty::Sound(s) => {
                let buf = s.get_buffer();
                let raw = if s.sound_type == WzSoundType::Wav { buf[44..].to_vec() } else { buf };
                let mut v: Vec<i64> = vec![s.duration as i32 as i64];
                v.extend(raw.iter().map(|x| *x as i64));
                ("sound".into(), json!(v))
            }
        },
        WzObjectType::Value(v) => match v {
            WzValue::Null => ("null".into(), json!([])),
            WzValue::RawData(r) => ("raw".into(), b(r.get_buffer())),
            WzValue::Video(r) => ("video".into(), b(r.get_buffer())),
            WzValue::Lua(_) => ("lua".into(), json!([])),
            WzValue::Short(x) => ("short".into(), json!([x])),
            WzValue::Int(x) => ("int".into(), json!([x])),
            WzValue::Long(x) => ("long".into(), b(&x.to_le_bytes())),
            WzValue::Float(x) => ("float".into(), b(&x.to_le_bytes())),
            WzValue::Double(x) => ("double".into(), b(&x.to_le_bytes())),
            WzValue::Vector(v) => ("vec".into(), json!([v.0, v.1])),
            WzValue::UOL(s) => ("uol".into(), s.get_string().map(|s| units(&s)).unwrap_or(json!("unreadable"))),
            WzValue::String(s) => ("str".into(), s.get_string().map(|s| units(&s)).unwrap_or(json!("unreadable"))),
            WzValue::ParsedString(s) => ("str".into(), units(s)),
        },
    }
}

/// what the node answers to when asked for one kind after another
fn answers(n: &WzNode) -> Vec<(&'static str, Value)> {
    let mut a: Vec<(&'static str, Value)> = vec![];
    let none = || json!([]);
    if n.try_as_file().is_some() { a.push(("file", none())); }
    if n.try_as_directory().is_some() { a.push(("dir", none())); }
    if n.try_as_image().is_some() { a.push(("image", none())); }
    if n.try_as_sub_property().is_some() { a.push(("some property", none())); }
    if n.try_as_value().is_some() { a.push(("some value", none())); }
    if let Some(p) = n.try_as_png() { a.push(("canvas", json!([p.width as i32, p.height as i32, p.pages]))); }
    if let Some(s) = n.try_as_sound() { a.push(("sound", json!([s.duration as i32]))); }
    if let Some(s) = n.try_as_string() { a.push(("some text", s.get_string().map(|s| units(&s)).unwrap_or(json!("unreadable")))); }
    if n.is_sub_property() { a.push(("prop", none())); }
    if n.is_convex() { a.push(("convex", none())); }
    if n.try_as_lua().is_some() { a.push(("lua", none())); }
    if let Some(r) = n.try_as_raw_data() { a.push(("raw", json!(r.get_buffer()))); }
    if let Some(r) = n.try_as_video() { a.push(("video", json!(r.get_buffer()))); }
    if n.is_null() { a.push(("null", none())); }
    if let Some(v) = n.try_as_vector2d() { a.push(("vec", json!([v.0, v.1]))); }
    if let Some(x) = n.try_as_short() { a.push(("short", json!([x]))); }
    if let Some(x) = n.try_as_int() { a.push(("int", json!([x]))); }
    if let Some(x) = n.try_as_long() { a.push(("long", json!(x.to_le_bytes()))); }
    if let Some(x) = n.try_as_float() { a.push(("float", json!(x.to_le_bytes()))); }
    if let Some(x) = n.try_as_double() { a.push(("double", json!(x.to_le_bytes()))); }
    if let Some(s) = n.try_as_uol() { a.push(("uol", s.get_string().map(|s| units(&s)).unwrap_or(json!("unreadable")))); }
    a
}
/// a node answers to its own kind, with its own value, and to no other
fn misanswers(n: &WzNode, k: &str, v: &Value) -> Option<String> {
    let a = answers(n);
    let mut want: Vec<&str> = match k {
        "prop" | "convex" | "canvas" | "sound" => vec!["some property"],
        "file" | "dir" | "image" | "msfile" | "msimage" => vec![],
        _ => vec!["some value"],
    };
    if !(k == "msfile" || k == "msimage" || k == "str") { want.push(k); }
    let parsed = matches!(n.object_type, WzObjectType::Value(WzValue::ParsedString(_)));
    if k == "uol" || k == "str" && !parsed { want.push("some text"); }
    let mut got: Vec<&str> = a.iter().map(|x| x.0).collect();
    got.sort(); want.sort();
    if got != want { return Some(format!("{k} answering to {got:?}")); }
    for (c, x) in &a {
        let x0 = if *c == "sound" { &v[0] == &x[0] } else if c.starts_with("some p") || c.starts_with("some v") { true } else { x == v };
        if !x0 { return Some(format!("{k} giving {} as {c}", show(x))); }
    }
    None
}

/// children sorted by name (the map has no order)
pub fn dump(node: &WzNodeArc) -> Value {
    let n = node.read().unwrap();
    let (mut k, v) = kv(&n.object_type);
    if let Some(w) = misanswers(&n, &k, &v) { k = w; }
    let mut kids: Vec<(String, Value)> = n.children.iter().map(|(k, c)| (k.to_string(), dump(c))).collect();
    kids.sort_by(|a, b| a.0.cmp(&b.0));
    json!({"n": units(n.name.as_str()), "k": k, "v": v, "c": kids.into_iter().map(|x| x.1).collect::<Vec<_>>()})
}

/// the specification's node with children sorted the same way
pub fn sorted(e: &Value) -> Value {
    let mut kids: Vec<(String, Value)> = e["c"].as_array().map(|a| a.iter().map(|c| (to_name(&c["n"]), sorted(c))).collect()).unwrap_or_default();
    kids.sort_by(|a, b| a.0.cmp(&b.0));
    json!({"n": e["n"].as_array().cloned().unwrap_or_default(), "k": e["k"], "v": e["v"].as_array().cloned().unwrap_or_default(),
           "c": kids.into_iter().map(|x| x.1).collect::<Vec<_>>()})
}

pub fn show(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s }
}

/// first difference between two dumps
pub fn diff(exp: &Value, got: &Value, path: &str) -> Option<String> {
    for f in ["n", "k", "v"] {
        if exp[f] != got[f] {
            return Some(format!("at '{path}': {f} expected {} got {}", show(&exp[f]), show(&got[f])));
        }
    }
    let (a, b) = (exp["c"].as_array().unwrap(), got["c"].as_array().unwrap());
    for (i, x) in a.iter().enumerate() {
        match b.get(i) {
            Some(y) if x["n"] == y["n"] => {
                if let Some(d) = diff(x, y, &format!("{path}/{}", to_name(&x["n"]))) { return Some(d); }
            }
            _ => return Some(format!("at '{path}': child {} missing", to_name(&x["n"]))),
        }
    }
    if b.len() > a.len() { return Some(format!("at '{path}': {} unexpected children", b.len() - a.len())); }
    None
}
