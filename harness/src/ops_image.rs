//! Image parsing (C01) and direct access (C02).
use crate::dump::{diff, dump, sorted, to_name};
use crate::keys::reader;
use crate::R;
use serde_json::{json, Value};
use std::sync::Arc;
use wz_reader::{util, wz_image, WzImage, WzNode, WzNodeArc, WzNodeCast};

pub fn wz_image(c: &Value) -> WzImage {
    let r = reader(c);
    let off = c["off"].as_u64().unwrap_or(0) as usize;
    let len = c["bytes"].as_array().map(|a| a.len()).unwrap_or(0) - off;
    WzImage::new(&"t.img".into(), off, len, &r)
}
pub fn image_node(c: &Value) -> WzNodeArc { WzNode::from_str("t.img", wz_image(c), None).into_lock() }

pub fn check_parents(node: &WzNodeArc, path: &str) -> R {
    let n = node.read().unwrap();
    for (k, c) in n.children.iter() {
        let cr = c.read().unwrap();
        match cr.parent.upgrade() {
            Some(p) if Arc::ptr_eq(&p, node) => {}
            Some(_) => return Err(format!("parent of '{path}/{k}' is another node")),
            None => return Err(format!("parent of '{path}/{k}' is missing")),
        }
        if cr.name.as_str() != k.as_str() { return Err(format!("'{path}/{k}' is named {}", cr.name)); }
        drop(cr);
        check_parents(c, &format!("{path}/{k}"))?;
    }
    Ok(())
}
/// with the indexmap feature the children of every node are in file order
#[cfg(feature = "alt")]
fn check_order(node: &WzNodeArc, want: &Value, path: &str) -> R {
    let n = node.read().unwrap();
    let got: Vec<String> = n.children.keys().map(|k| k.to_string()).collect();
    let names: Vec<String> = want.as_array().unwrap().iter().map(|x| to_name(&x["n"])).collect();
    if got != names { return Err(format!("order of children of '{path}': expected {names:?} got {got:?}")); }
    for (c, w) in n.children.values().zip(want.as_array().unwrap()) { check_order(c, &w["c"], &format!("{path}/{}", to_name(&w["n"])))?; }
    Ok(())
}
#[cfg(not(feature = "alt"))]
fn check_order(_: &WzNodeArc, _: &Value, _: &str) -> R { Ok(()) }
pub fn root_of(tree: &Value) -> Value { sorted(&json!({"n": [116, 46, 105, 109, 103], "k": "image", "v": [], "c": tree})) }

pub fn image(c: &Value) -> R {
    let exp = root_of(&c["tree"]);
    // the ordered form
    let img = wz_image(c);
    let (kids, uols) = img.resolve_children(None).map_err(|e| format!("resolve_children: {e}"))?;
    let want: Vec<String> = c["tree"].as_array().unwrap().iter().map(|x| to_name(&x["n"])).collect();
    let got: Vec<String> = kids.iter().map(|x| x.0.to_string()).collect();
    if want != got { return Err(format!("order of children: expected {want:?} got {got:?}")); }
    for (i, (_, k)) in kids.iter().enumerate() {
        if let Some(d) = diff(&sorted(&c["tree"][i]), &dump(k), &want[i]) { return Err(format!("resolve_children: {d}")); }
    }
    fn count(v: &Value) -> usize {
        v.as_array().map(|a| a.iter().map(|x| (x["k"] == "uol") as usize + count(&x["c"])).sum()).unwrap_or(0)
    }
    if uols.len() != count(&c["tree"]) { return Err(format!("{} UOL nodes reported, {} written", uols.len(), count(&c["tree"]))); }
    // the tree form
    let node = image_node(c);
    util::node_util::parse_node(&node).map_err(|e| format!("parse: {e}"))?;
    if let Some(d) = diff(&exp, &dump(&node), "") { return Err(format!("parse: {d}")); }
    if !node.read().unwrap().try_as_image().unwrap().is_parsed { return Err("image not marked parsed".into()); }
    check_parents(&node, "")?;
    check_order(&node, &c["tree"], "")?;
    // the same bytes as an .img file
    if c["kid"] == "none" && c["off"] == 0 {
        let path = crate::keys::tmp().join("t.img");
        std::fs::write(&path, crate::keys::bytes(&c["bytes"])).map_err(|e| format!("harness: {e}"))?;
        let node = WzNode::from_img_file_with_iv(&path, [0; 4], None).map_err(|e| format!("from_img_file_with_iv: {e}"))?.into_lock();
        util::node_util::parse_node(&node).map_err(|e| format!("parse of the .img file: {e}"))?;
        if let Some(d) = diff(&exp, &dump(&node), "") { return Err(format!("parse of the .img file: {d}")); }
        check_parents(&node, "")?;
    }
    Ok(())
}

/// {paths: [{p: [name..], r: null | node}]}
pub fn direct(c: &Value) -> R {
    for q in c["paths"].as_array().unwrap() {
        let p: Vec<String> = q["p"].as_array().unwrap().iter().map(to_name).collect();
        let path = p.join("/");
        let found = !q["r"].as_array().map(|a| a.is_empty()).unwrap_or(true);
        // direct
        let node = image_node(c);
        let got = node.read().unwrap().try_as_image().unwrap().at_path(&path);
        match (found, got) {
            (true, Ok(n)) => if let Some(d) = diff(&sorted(&q["r"][0]), &dump(&n), &path) { return Err(format!("direct access: {d}")); },
            (true, Err(e)) => return Err(format!("direct access to '{path}' fails: {e}")),
            (false, Ok(n)) => return Err(format!("direct access to absent '{path}' gives a node named {}", n.read().unwrap().name)),
            (false, Err(wz_image::Error::ParsePropertyListError(util::WzPropertyParseError::NodeNotFound))) => {}
            (false, Err(e)) => return Err(format!("direct access to absent '{path}' reports {e:?} instead of NodeNotFound")),
        }
        {
            let r = node.read().unwrap();
            if !r.children.is_empty() || r.try_as_image().unwrap().is_parsed { return Err("direct access parsed the image".into()); }
        }
        // through the tree, unparsed then parsed
        let root = WzNode::from_str("root", 1, None).into_lock();
        let node = WzNode::from_str("t.img", image_node(c).read().unwrap().try_as_image().unwrap().clone(), Some(&root)).into_lock();
        root.write().unwrap().add(&node);
        for parsed in [false, true] {
            if parsed { util::node_util::parse_node(&node).map_err(|e| format!("parse: {e}"))?; }
            let full = format!("t.img/{path}");
            let got = util::node_util::get_node_without_parse(&root, &full);
            match (found, got) {
                (true, Some(n)) => if let Some(d) = diff(&sorted(&q["r"][0]), &dump(&n), &path) { return Err(format!("get_node_without_parse (parsed={parsed}): {d}")); },
                (true, None) => return Err(format!("get_node_without_parse (parsed={parsed}) misses '{path}'")),
                (false, Some(_)) => return Err(format!("get_node_without_parse (parsed={parsed}) finds absent '{path}'")),
                (false, None) => {}
            }
            if node.read().unwrap().try_as_image().unwrap().is_parsed != parsed { return Err("lookup changed the parsed state".into()); }
        }
    }
    Ok(())
}
