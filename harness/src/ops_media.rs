//! Sounds, raw data and videos (C21); scripts and text images (C22).
use crate::dump::{kv, show, to_name};
use crate::keys::{bytes, reader, tmp};
use crate::ops_file::parse_node;
use crate::ops_image::{image_node, wz_image};
use crate::R;
use serde_json::{json, Value};
use wz_reader::property::{WzSoundType, WzSubProperty, WzValue};
use wz_reader::{WzImage, WzNode, WzNodeArc, WzNodeCast, WzObjectType};

fn payload(want: &Value, n: &WzNodeArc, p: &str) -> R {
    let t = want["t"].as_str().unwrap();
    let buf = bytes(&want["buf"]);
    let r = n.read().unwrap();
    let same = |what: &str, got: &[u8]| -> R {
        if got == &buf[..] { return Ok(()); }
        let at = (0..got.len().min(buf.len())).find(|i| got[*i] != buf[*i]).unwrap_or(got.len().min(buf.len()));
        Err(format!("{what} of '{p}' ({t}) gives {} bytes, not {}, and differs at {at}: {} for {}", got.len(), buf.len(),
            show(&json!(&got[at.min(got.len())..got.len().min(at + 8)])), show(&json!(&buf[at.min(buf.len())..buf.len().min(at + 8)]))))
    };
    match (&r.object_type, t) {
        (WzObjectType::Value(WzValue::RawData(d)), "raw") => same("get_buffer", d.get_buffer()),
        (WzObjectType::Value(WzValue::Video(d)), "video") => same("get_buffer", d.get_buffer()),
        (WzObjectType::Property(WzSubProperty::Sound(s)), "wav" | "mp3" | "bin") => {
            let st = match s.sound_type { WzSoundType::Wav => "wav", WzSoundType::Mp3 => "mp3", WzSoundType::Binary => "bin" };
            if st != t { return Err(format!("'{p}' is a {st} sound, not {t}")); }
            if s.duration as i64 != want["dur"].as_i64().unwrap() { return Err(format!("'{p}' lasts {}, not {}", s.duration, want["dur"])); }
            same("get_buffer", &s.get_buffer())?;
            let mut w = std::io::Cursor::new(Vec::new());
            s.write_to(&mut w).map_err(|e| format!("write_to of '{p}': {e}"))?;
            same("write_to", w.get_ref())?;
            let dir = tmp().join("snd");
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).map_err(|e| format!("harness: {e}"))?;
            s.save(dir.join("x")).map_err(|e| format!("save of '{p}': {e}"))?;
            let f = dir.join(match t { "wav" => "x.wav", "mp3" => "x.mp3", _ => "x" });
            let got = std::fs::read(&f).map_err(|_| format!("save of '{p}' ({t}) writes no {}", f.file_name().unwrap().to_string_lossy()))?;
            same("save", &got)
        }
        (o, _) => Err(format!("'{p}' is a {}, not {t}", kv(o).0)),
    }
}
pub fn sound(c: &Value) -> R {
    let node = image_node(c);
    for q in c["want"].as_array().unwrap() {
        let p: Vec<String> = q["p"].as_array().unwrap().iter().map(to_name).collect();
        let p = p.join("/");
        payload(q, &wz_image(c).at_path(&p).map_err(|e| format!("at_path('{p}'): {e}"))?, &p)?;
    }
    parse_node(&node).map_err(|e| format!("parse: {e}"))?;
    for q in c["want"].as_array().unwrap() {
        let p: Vec<String> = q["p"].as_array().unwrap().iter().map(to_name).collect();
        let p = p.join("/");
        let n = node.read().unwrap().at_path(&p).ok_or_else(|| format!("'{p}' is missing"))?;
        payload(q, &n, &p)?;
    }
    Ok(())
}

fn script_child(c: &Value, kids: Vec<(String, WzNodeArc)>) -> R {
    let want = c["want"].as_str().unwrap();
    let name = if want == "text" { "text.txt" } else { "Script" };
    let names: Vec<&str> = kids.iter().map(|k| k.0.as_str()).collect();
    if names != [name] { return Err(format!("the children are {names:?}, not [{name:?}]")); }
    let n = kids[0].1.read().unwrap();
    if n.name.as_str() != name { return Err(format!("'{name}' is named {}", n.name)); }
    let body = bytes(&c["body"]);
    match (want, &n.object_type) {
        ("text", WzObjectType::Value(WzValue::RawData(d))) => {
            if d.get_buffer() != &body[..] { return Err(format!("the text is {} bytes, not the {} stored", d.get_buffer().len(), body.len())); }
        }
        (_, WzObjectType::Value(WzValue::Lua(l))) => match (want, l.extract_lua()) {
            ("lua", Ok(s)) => if s.as_bytes() != &body[..] { return Err(format!("the script reads {:?}, not {:?}", s.chars().take(60).collect::<String>(), String::from_utf8_lossy(&body).chars().take(60).collect::<String>())); },
            ("lua", Err(e)) => return Err(format!("extract_lua of {} bytes fails: {e}", body.len())),
            ("nolua", Ok(_)) => return Err("a script of no known key is extracted".into()),
            _ => {}
        },
        (_, o) => return Err(format!("the child is a {}", kv(o).0)),
    }
    Ok(())
}
pub fn script(c: &Value) -> R {
    let (off, size) = (c["off"].as_u64().unwrap() as usize, c["size"].as_u64().unwrap() as usize);
    let name = to_name(&c["name"]);
    let mk = || WzImage::new(&name.as_str().into(), off, size, &reader(c));
    let want = c["want"].as_str().unwrap();
    let ctx = |what: &str, e: String| format!("{what} of '{name}' ({want}, {size} bytes at {off}): {e}");
    let list = mk().resolve_children(None);
    let node = WzNode::from_str(&name, mk(), None).into_lock();
    let parsed = parse_node(&node);
    let kids = || node.read().unwrap().children.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Vec<_>>();
    if want == "refuse" {
        if list.is_ok() { return Err(ctx("resolve_children", "accepted".into())); }
        if parsed.is_ok() { return Err(ctx("parse", "accepted".into())); }
        if mk().at_path("x").is_ok() { return Err(ctx("at_path", "found".into())); }
        if !kids().is_empty() || node.read().unwrap().try_as_image().unwrap().is_parsed { return Err(ctx("parse", "it fails but leaves the image changed".into())); }
        return Ok(());
    }
    match list {
        Ok((l, _)) => script_child(c, l.into_iter().map(|(k, v)| (k.to_string(), v)).collect()).map_err(|e| ctx("resolve_children", e))?,
        Err(_) if want == "nolua" => {}
        Err(e) => return Err(ctx("resolve_children", e.to_string())),
    }
    match parsed {
        Ok(()) => script_child(c, kids()).map_err(|e| ctx("parse", e))?,
        Err(_) if want == "nolua" => {}
        Err(e) => return Err(ctx("parse", e)),
    }
    let p = if want == "text" { "text.txt" } else { "Script" };
    match mk().at_path(p) {
        Ok(n) => script_child(c, vec![(p.to_string(), n)]).map_err(|e| ctx("at_path", e))?,
        Err(_) if want == "nolua" => {}
        Err(e) => return Err(ctx("at_path", e.to_string())),
    }
    if mk().at_path("x").is_ok() { return Err(ctx("at_path('x')", "found".into())); }
    Ok(())
}
