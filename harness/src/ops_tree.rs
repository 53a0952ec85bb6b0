//! Histories of one program on a tree of nodes (C05, C07, C18, C19).
use crate::dump::{kv, show, to_name};
use crate::keys::bytes;
use crate::ops_file::{parse_node, write_file};
use crate::R;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};
use wz_reader::property::{WzSubProperty, WzValue};
use wz_reader::util::node_util;
use wz_reader::util::walk::walk_node;
use wz_reader::{WzDirectory, WzFile, WzImage, WzNode, WzNodeArc, WzObjectType};

pub struct World { ids: HashMap<i64, WzNodeArc>, ptrs: HashMap<usize, i64> }

pub fn join(p: &Value) -> String { p.as_array().unwrap().iter().map(to_name).collect::<Vec<_>>().join("/") }
fn at(a: &WzNodeArc) -> usize { Arc::as_ptr(a) as *const u8 as usize }
fn parsed(ot: &WzObjectType) -> Option<bool> {
    match ot {
        WzObjectType::File(f) => Some(f.is_parsed),
        WzObjectType::Image(i) => Some(i.is_parsed),
        WzObjectType::MsFile(f) => Some(f.is_parsed),
        _ => None,
    }
}

impl World {
    pub fn new() -> World { World { ids: HashMap::new(), ptrs: HashMap::new() } }
    /// the node with this identity; a first sight binds it
    pub fn same(&mut self, id: i64, a: &WzNodeArc) -> bool {
        match (self.ids.get(&id), self.ptrs.get(&at(a))) {
            (None, None) => { self.ids.insert(id, a.clone()); self.ptrs.insert(at(a), id); true }
            (Some(x), Some(y)) => at(x) == at(a) && *y == id,
            _ => false,
        }
    }
    pub fn id(&self, a: &WzNodeArc) -> Option<i64> { self.ptrs.get(&at(a)).copied() }
    pub fn node(&self, id: &Value) -> Result<WzNodeArc, String> {
        self.ids.get(&id.as_i64().unwrap()).cloned().ok_or_else(|| format!("harness: node {id} was never seen"))
    }
    fn check(&mut self, e: &Value, a: &WzNodeArc, path: &str) -> R {
        let id = e["i"].as_i64().unwrap();
        if !self.same(id, a) {
            return Err(match self.ptrs.get(&at(a)) {
                Some(_) => format!("'{path}' is another, older node"),
                None => format!("'{path}' is a new node where the old one should be"),
            });
        }
        let r = a.read().unwrap();
        let (k, v) = kv(&r.object_type);
        if r.name.as_str() != to_name(&e["n"]) { return Err(format!("'{path}' is named '{}'", r.name.as_str())); }
        let ev = e["v"].as_array().cloned().map(Value::from).unwrap_or(json!([]));
        if json!(k) != e["k"] || v != ev { return Err(format!("'{path}' is a {k} {} not a {} {}", show(&v), e["k"], show(&ev))); }
        if let Some(p) = parsed(&r.object_type) {
            if json!(p) != e["p"] { return Err(format!("'{path}' parsed: {p}, expected {}", e["p"])); }
        }
        let par = r.parent.upgrade();
        let ep = e["par"].as_i64().unwrap();
        match (&par, ep) {
            (None, 0) => {}
            (Some(x), p) if p != 0 && self.ids.get(&p).map(at) == Some(at(x)) => {}
            (None, _) => return Err(format!("'{path}' has no parent")),
            (Some(x), _) => return Err(format!("the parent of '{path}' is '{}'", if at(x) == at(a) { "itself".to_string() } else { x.try_read().map(|x| x.get_full_path()).unwrap_or_default() })),
        }
        let kids = e["c"].as_array().unwrap();
        for c in kids {
            let n = to_name(&c["n"]);
            match r.children.get(n.as_str()) {
                Some(x) => self.check(c, x, &format!("{path}/{n}"))?,
                None => return Err(format!("'{path}' has no child '{n}'")),
            }
        }
        if r.children.len() != kids.len() { return Err(format!("'{path}' has {} children, expected {}", r.children.len(), kids.len())); }
        Ok(())
    }
    pub fn snap(&mut self, s: &Value) -> R {
        for e in s.as_array().unwrap() {
            let n = self.node(&e["i"])?;
            self.check(e, &n, &to_name(&e["n"]))?;
        }
        Ok(())
    }
    fn want(&mut self, what: &str, id: &Value, got: Option<WzNodeArc>) -> R {
        match (id.as_i64().unwrap(), got) {
            (0, None) => Ok(()),
            (0, Some(g)) => Err(format!("{what} gives '{}', nothing expected", g.read().unwrap().get_full_path())),
            (_, None) => Err(format!("{what} gives nothing")),
            (i, Some(g)) => if self.same(i, &g) { Ok(()) } else { Err(format!("{what} gives another node '{}'", g.read().unwrap().get_full_path())) },
        }
    }
    fn ask(&mut self, s: &Value) -> R {
        let a = self.node(&s["id"])?;
        let n = a.read().unwrap();
        for (f, e, g) in [("get_full_path", &s["full"], n.get_full_path()), ("get_path_from_root", &s["root"], n.get_path_from_root()), ("get_path_from_image", &s["img"], n.get_path_from_image())] {
            if join(e) != g { return Err(format!("{f} gives '{g}' expected '{}'", join(e))); }
        }
        self.want("get_parent_wz_image", &s["image"], n.get_parent_wz_image())?;
        self.want("get_base_wz_file", &s["base"], n.get_base_wz_file())?;
        let me = n.get_full_path();
        for q in s["qs"].as_array().unwrap() {
            let p = join(&q["p"]);
            let first = to_name(&q["p"][0]);
            match q["m"].as_str().unwrap() {
                "at" => self.want(&format!("at '{first}' of '{me}'"), &q["to"], n.at(&first))?,
                "rel" => self.want(&format!("at_relative '{first}' of '{me}'"), &q["to"], n.at_relative(&first))?,
                "path" => self.want(&format!("at_path '{p}' of '{me}'"), &q["to"], n.at_path(&p))?,
                "prel" => self.want(&format!("at_path_relative '{p}' of '{me}'"), &q["to"], n.at_path_relative(&p))?,
                "img" => {
                    let g = node_util::get_image_node_from_path(&a, &p);
                    if let Some((_, r)) = &g {
                        if *r != join(&q["rest"]) { return Err(format!("get_image_node_from_path '{p}' of '{me}' leaves '{r}', not '{}'", join(&q["rest"]))); }
                    }
                    // a path that ends at the image may or may not count
                    if g.is_none() && q["rest"] == json!([]) { continue; }
                    self.want(&format!("get_image_node_from_path '{p}' of '{me}'"), &q["to"], g.map(|x| x.0))?
                }
                m => return Err(format!("harness: question {m}")),
            }
        }
        Ok(())
    }
    fn walk(&mut self, s: &Value) -> R {
        let a = self.node(&s["id"])?;
        let got: Mutex<Vec<(String, usize)>> = Mutex::new(vec![]);
        let bad: Mutex<Option<String>> = Mutex::new(None);
        walk_node(&a, s["force"].as_bool().unwrap(), &|x| {
            // the callback may do what any user of the node does
            if at(x) != at(&a) {
                if let Some(p) = x.read().unwrap().parent.upgrade() {
                    if p.try_read().is_err() || p.try_write().is_err() { *bad.lock().unwrap() = Some(format!("the parent of '{}' is locked while the callback runs", x.read().unwrap().name.as_str())); }
                }
            }
            let _ = x.read().unwrap().get_parent_wz_image();
            let _ = x.read().unwrap().at_path_relative("../..");
            match x.try_write() { Ok(_) => {} Err(_) => { *bad.lock().unwrap() = Some("the node is locked while the callback runs".into()); } }
            let r = x.read().unwrap();
            let _ = kv(&r.object_type);
            got.lock().unwrap().push((r.get_full_path(), r.children.len()));
        });
        if let Some(b) = bad.into_inner().unwrap() { return Err(format!("walk: {b}")); }
        let got = got.into_inner().unwrap();
        for (i, (p, _)) in got.iter().enumerate() {
            if i > 0 {
                let up = p.rsplit_once('/').map(|x| x.0).unwrap_or("");
                if !got[..i].iter().any(|x| x.0 == up) { return Err(format!("walk: '{p}' comes before what it is in")); }
            }
        }
        let mut want: Vec<(String, usize)> = s["visits"].as_array().unwrap().iter().map(|v| (join(&v["p"]), v["c"].as_u64().unwrap() as usize)).collect();
        let mut got = got;
        want.sort(); got.sort();
        if want != got {
            let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(4).collect();
            let more: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(4).collect();
            return Err(format!("walk: {} visits, expected {}; missing {miss:?}, unexpected {more:?} (path, children)", got.len(), want.len()));
        }
        Ok(())
    }
}

fn make(kind: &str) -> WzObjectType {
    match kind {
        "int" => 7.into(),
        "prop" => WzObjectType::Property(WzSubProperty::Property),
        "str" => WzObjectType::Value(WzValue::ParsedString("h".into())),
        "dir" => WzDirectory::default().into(),
        "image" => WzImage::default().into(),
        "file" => WzFile::default().into(),
        _ => unreachable!(),
    }
}

pub fn tree(c: &Value) -> R {
    let p = write_file("t.wz", &bytes(&c["bytes"]))?;
    let mut disk = std::fs::OpenOptions::new().write(true).open(&p).map_err(|e| format!("harness: {e}"))?;
    let ver = if c["ver"] == 0 { None } else { Some(c["ver"].as_i64().unwrap() as i32) };
    let f = WzFile::from_file(&p, Some(crate::keys::iv(c["kid"].as_str().unwrap())), ver, None).map_err(|e| format!("open: {e}"))?;
    let mut w = World::new();
    w.same(1, &WzNode::from_str(&to_name(&c["name"]), f, None).into_lock());
    history(&mut w, c, &mut disk)
}
/// the same on a .ms pack
pub fn mstree(c: &Value) -> R {
    let p = write_file(&to_name(&c["f"]), &bytes(&c["bytes"]))?;
    let mut disk = std::fs::OpenOptions::new().write(true).open(&p).map_err(|e| format!("harness: {e}"))?;
    let n = WzNode::from_ms_file(&p, None).map_err(|e| format!("open: {e}"))?.into_lock();
    let mut w = World::new();
    w.same(1, &n);
    let r = history(&mut w, c, &mut disk);
    let _ = std::fs::remove_file(&p);
    r
}
fn history(w: &mut World, c: &Value, disk: &mut std::fs::File) -> R {
    for (i, s) in c["steps"].as_array().unwrap().iter().enumerate() {
        step(w, s, disk).map_err(|e| {
            let mut t = s.clone(); t.as_object_mut().unwrap().remove("snap");
            if e.starts_with("harness:") { format!("{e}, step {}", i + 1) } else { format!("step {} {}: {e}", i + 1, show(&t)) }
        })?;
    }
    Ok(())
}

fn step(w: &mut World, s: &Value, disk: &mut std::fs::File) -> R {
    match s["op"].as_str().unwrap() {
        "nop" => {}
        "poke" => {
            disk.seek(SeekFrom::Start(s["at"].as_u64().unwrap())).and_then(|_| disk.write_all(&[s["val"].as_u64().unwrap() as u8])).map_err(|e| format!("harness: {e}"))?;
        }
        "pokes" => for x in s["at"].as_array().unwrap() {
            disk.seek(SeekFrom::Start(x[0].as_u64().unwrap())).and_then(|_| disk.write_all(&[x[1].as_u64().unwrap() as u8])).map_err(|e| format!("harness: {e}"))?;
        },
        "parse" => {
            let r = parse_node(&w.node(&s["id"])?);
            if json!(r.is_ok()) != s["ok"] { return Err(format!("parse gives {r:?}")); }
        }
        "unparse" => w.node(&s["id"])?.write().unwrap().unparse(),
        "force" => {
            let n = w.node(&s["id"])?;
            let r = n.read().unwrap().at_path_parsed(&join(&s["path"]));
            w.want(&format!("at_path_parsed '{}'", join(&s["path"])), &s["to"], r.ok())?;
        }
        "walk" => w.walk(s)?,
        "new" => {
            let pid = s["par"].as_i64().unwrap();
            let par = if pid == 0 { None } else { Some(w.node(&s["par"])?) };
            let n = WzNode::from_str(&to_name(&s["name"]), make(s["kind"].as_str().unwrap()), par.as_ref()).into_lock();
            if let Some(p) = par { p.write().unwrap().add(&n); }
            w.same(s["id"].as_i64().unwrap(), &n);
        }
        "attach" => {
            let (n, p) = (w.node(&s["id"])?, w.node(&s["par"])?);
            p.write().unwrap().add(&n);
            if s["set"] != false { node_util::resolve_childs_parent(&p); }
        }
        "move" => {
            let (n, f, p) = (w.node(&s["id"])?, w.node(&s["from"])?, w.node(&s["par"])?);
            let name = n.read().unwrap().name.clone();
            f.write().unwrap().children.retain(|k, _| *k != name);
            p.write().unwrap().add(&n);
            node_util::resolve_childs_parent(&p);
        }
        "merge" => {
            let (x, y) = (w.node(&s["from"])?, w.node(&s["to"])?);
            x.write().unwrap().transfer_childs(&y);
        }
        "ask" => w.ask(s)?,
        o => return Err(format!("harness: step {o}")),
    }
    if s.get("snap").is_some() { w.snap(&s["snap"])?; }
    Ok(())
}

/// one long way down; every question is asked far from where its answer is
pub fn deepnav(c: &Value) -> R {
    let names: Vec<String> = c["all"].as_array().unwrap().iter().map(to_name).collect();
    let (base, image) = (c["base"].as_u64().unwrap() as usize, c["image"].as_u64().unwrap() as usize);
    let b = bytes(&c["bytes"]);
    let r = Arc::new(wz_reader::WzReader::from_buff(&b).with_existing_keys(crate::keys::shared("none")));
    let mut way: Vec<WzNodeArc> = vec![];
    for (i, name) in names[..image].iter().enumerate() {
        let j = i + 1;
        let what: WzObjectType = if j == base { WzFile::default().into() } else if j == image { WzImage::new(&"t.img".into(), 0, b.len(), &r).into() } else { WzDirectory::default().into() };
        let n = WzNode::from_str(name, what, way.last()).into_lock();
        if let Some(up) = way.last() { up.write().unwrap().add(&n); }
        way.push(n);
    }
    let img = way[image - 1].clone();
    img.write().unwrap().parse(&img).map_err(|e| format!("parse of {} levels: {e}", names.len() - image))?;
    for (i, name) in names[image..].iter().enumerate() {
        let n = { let up = way.last().unwrap().read().unwrap(); up.children.get(name.as_str()).cloned() };
        way.push(n.ok_or(format!("level {} is missing", i + 1))?);
    }
    let same = |what: &str, j: usize, got: Option<WzNodeArc>, want: Option<&WzNodeArc>| -> R {
        match (&got, want) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) if Arc::ptr_eq(g, w) => Ok(()),
            _ => Err(format!("{what} asked {j} levels down: {} instead of {}", got.map_or("nothing".to_string(), |g| g.read().unwrap().get_full_path()), want.map_or("nothing".to_string(), |w| w.read().unwrap().get_full_path()))),
        }
    };
    let node = |v: &Value| match v.as_u64().unwrap() { 0 => None, i => Some(&way[i as usize - 1]) };
    let join = |v: &Value| v.as_array().unwrap().iter().map(to_name).collect::<Vec<_>>().join("/");
    let part = c["part"].as_str().unwrap();
    if part == "straight" {
        // what is walked over is not parsed
        let fresh = WzImage::new(&"t.img".into(), 0, b.len(), &r);
        for a in c["asks"].as_array().unwrap() {
            let j = a["j"].as_u64().unwrap() as usize;
            if j <= image { continue; }
            let x = fresh.at_path(&join(&a["img"])).map_err(|e| format!("straight to level {}: {e}", j - image))?;
            let (x, w) = (x.read().unwrap(), way[j - 1].read().unwrap());
            if x.name != w.name { return Err(format!("straight to level {}: '{}'", j - image, x.name)); }
            let v = |n: &WzNode| n.at("v").and_then(|v| match &v.read().unwrap().object_type { WzObjectType::Value(WzValue::Int(i)) => Some(*i as usize), _ => None });
            if v(&x) != Some(j - image) { return Err(format!("straight to level {}: it holds {:?}", j - image, v(&x))); }
        }
        return Ok(());
    }
    if part == "nav" { for a in c["asks"].as_array().unwrap() {
        let j = a["j"].as_u64().unwrap() as usize;
        let n = way[j - 1].read().unwrap();
        for (f, e, g) in [("get_full_path", &a["full"], n.get_full_path()), ("get_path_from_root", &a["root"], n.get_path_from_root()), ("get_path_from_image", &a["img"], n.get_path_from_image())] {
            if join(e) != g { return Err(format!("{f} {j} levels down: '{g}' instead of '{}'", join(e))); }
        }
        same("get_parent_wz_image", j, n.get_parent_wz_image(), node(&a["image"]))?;
        same("get_base_wz_file", j, n.get_base_wz_file(), node(&a["base"]))?;
        let rel = join(&a["rel"]);
        if !rel.is_empty() { same("at_path_relative", j, n.at_path_relative(&rel), node(&a["t"]))?; }
        if j > 1 {
            let root = join(&a["root"]);
            drop(n);
            let top = way[0].read().unwrap();
            same("at_path from the top", j, top.at_path(&root), Some(&way[j - 1]))?;
        }
        if j > image {
            let rest = join(&a["img"]);
            let r = img.read().unwrap();
            same("at_path_parsed", j, r.at_path_parsed(&rest).ok(), Some(&way[j - 1]))?;
        }
    } return Ok(()); }
    // the link at the end
    let last = way.last().unwrap().read().unwrap().at("l").ok_or("the link is missing")?;
    let want = c["to"].as_i64().unwrap();
    let got = match &last.read().unwrap().object_type { WzObjectType::Value(wz_reader::property::WzValue::Int(i)) => Some(*i as i64), _ => None };
    if got != Some(want) { return Err(format!("the link far up leads to {got:?} instead of {want}")); }
    Ok(())
}
