//! UOL links (C08): after parsing, every slot holds a node the specification allows.
use crate::dump::{kv, show, to_name};
use crate::ops_file::parse_node;
use crate::ops_image::image_node;
use crate::ops_tree::{join, World};
use crate::R;
use serde_json::{json, Value};
use std::sync::Arc;
use wz_reader::util::node_util;
use wz_reader::WzNodeArc;

/// nodes in their own slots get their identities; slots of UOLs are left for later
fn bind(w: &mut World, e: &Value, a: &WzNodeArc, path: &str) -> R {
    if !w.same(e["i"].as_i64().unwrap(), a) { return Err(format!("'{path}' is another entry's node")); }
    let r = a.read().unwrap();
    let kids = e["c"].as_array().unwrap();
    if r.children.len() != kids.len() { return Err(format!("'{path}' has {} entries, not {}", r.children.len(), kids.len())); }
    for c in kids {
        let n = to_name(&c["n"]);
        let p = format!("{path}/{n}");
        let x = r.children.get(n.as_str()).ok_or_else(|| format!("'{p}' is missing"))?;
        let xr = x.read().unwrap();
        let (k, v) = kv(&xr.object_type);
        if c["k"] == "uol" {
            // bound only when it is the UOL itself: same name, same parent, same path
            if k == "uol" && xr.name.as_str() == n && xr.parent.upgrade().map_or(false, |y| Arc::ptr_eq(&y, a)) {
                if v != c["v"] && !(v == json!([]) && c["v"].as_array().map_or(true, |x| x.is_empty())) { return Err(format!("'{p}' reads {}, not {}", show(&v), show(&c["v"]))); }
                drop(xr);
                if !w.same(c["i"].as_i64().unwrap(), x) { return Err(format!("'{p}' is another entry's node")); }
            }
            continue;
        }
        if xr.name.as_str() != n { return Err(format!("'{p}' is named '{}'", xr.name.as_str())); }
        if k != c["k"] || (k != "canvas" && v != c["v"]) { return Err(format!("'{p}' is a {k} {} not a {} {}", show(&v), c["k"], show(&c["v"]))); }
        match xr.parent.upgrade() {
            Some(y) if Arc::ptr_eq(&y, a) => {}
            _ => return Err(format!("'{p}' has another parent")),
        }
        drop(xr);
        bind(w, c, x, &p)?;
    }
    Ok(())
}
fn gone(w: &World, e: &Value, x: &WzNodeArc) -> Option<i64> {
    let r = x.read().unwrap();
    let (k, v) = kv(&r.object_type);
    for c in e["c"].as_array().unwrap() {
        if c["k"] != "uol" {
            if let Some(id) = gone(w, c, x) { return Some(id); }
        } else if k == "uol" && (v == c["v"] || c["v"].as_array().map_or(true, |x| x.is_empty())) && r.name.as_str() == to_name(&c["n"])
            && w.node(&e["i"]).map_or(false, |p| r.parent.upgrade().map_or(false, |y| Arc::ptr_eq(&p, &y))) {
            return c["i"].as_i64();
        }
    }
    None
}
fn slots(w: &World, all: &Value, e: &Value, a: &WzNodeArc, path: &str, left: &mut Vec<WzNodeArc>) -> R {
    let r = a.read().unwrap();
    for c in e["c"].as_array().unwrap() {
        let n = to_name(&c["n"]);
        let p = format!("{path}/{n}");
        let x = r.children.get(n.as_str()).unwrap();
        if c["k"] != "uol" { slots(w, all, c, x, &p, left)?; continue; }
        let id = match w.id(x) {
            Some(id) => id,
            // a UOL whose own slot already stands for something else
            None => gone(w, all, x).ok_or_else(|| format!("UOL '{p}' stands for a node that is no entry of the image"))?,
        };
        if !c["ok"].as_array().unwrap().contains(&json!(id)) {
            let to = join(&json!([c["v"]]));
            return Err(if json!(id) == c["i"] { format!("UOL '{p}' -> '{to}' stays unresolved") }
                       else { format!("UOL '{p}' -> '{to}' stands for '{}'", x.read().unwrap().get_full_path()) });
        }
        if json!(id) == c["i"] { left.push(x.clone()); }
    }
    Ok(())
}
fn acyclic(a: &WzNodeArc, up: &mut Vec<WzNodeArc>, n: &mut usize) -> R {
    *n += 1;
    if *n > 20000 { return Ok(()); }
    if up.iter().any(|x| Arc::ptr_eq(x, a)) { return Err(format!("'{}' is inside of itself", a.read().unwrap().get_full_path())); }
    up.push(a.clone());
    let kids: Vec<_> = a.read().unwrap().children.values().cloned().collect();
    for k in &kids { acyclic(k, up, n)?; }
    up.pop();
    Ok(())
}
fn check(c: &Value, node: &WzNodeArc) -> Result<Vec<WzNodeArc>, String> {
    let mut w = World::new();
    let mut left = vec![];
    bind(&mut w, &c["tree"], node, "")?;
    slots(&w, &c["tree"], &c["tree"], node, "", &mut left)?;
    acyclic(node, &mut vec![], &mut 0)?;
    Ok(left)
}

pub fn uol(c: &Value) -> R {
    for q in c["paths"].as_array().unwrap() {
        let (p, u, r) = (join(&q["p"]), join(&q["u"]), join(&q["r"]));
        let g = node_util::get_resolved_uol_path(&p, &u);
        if g != r { return Err(format!("get_resolved_uol_path('{p}', '{u}') is '{g}', not '{r}'")); }
    }
    let node = image_node(c);
    for round in ["", "after unparsing and parsing again: ", "when resolved once more: "] {
        if round.starts_with("after") { node.write().unwrap().unparse(); }
        if round.starts_with("when") {
            for x in check(c, &node)? { node_util::resolve_uol(&x, None); }
        } else {
            parse_node(&node).map_err(|e| format!("{round}parse: {e}"))?;
        }
        check(c, &node).map_err(|e| format!("{round}{e}"))?;
        // every part of the tree can be locked again
        drop(node.try_write().map_err(|_| "the image stays locked".to_string())?);
    }
    Ok(())
}
