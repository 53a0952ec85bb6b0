//! Key streams (C04) and encrypted strings (C03).
use crate::keys::{bytes, shared};
use crate::{record, R};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex, RwLock};
use wz_reader::property::{resolve_string_from_node, WzString, WzStringMeta, WzStringType};
use wz_reader::reader::get_decrypt_slice;
use wz_reader::util::string_decryptor::{DecrypterType, Decryptor, EcbDecryptor, Pkg2Decryptor, GLOBAL_STRING_DECRYPTOR};
use wz_reader::version::WzMapleVersion;
use wz_reader::{Reader, SharedWzStringDecryptor, WzNode, WzReader};

const USER_KEY: [(usize, u8); 8] = [(0, 19), (4, 8), (8, 6), (12, 180), (16, 27), (20, 15), (24, 51), (28, 82)];
fn arr4(v: &Value) -> [u8; 4] { let b = bytes(v); [b[0], b[1], b[2], b[3]] }
fn subject(kind: &str, iv: [u8; 4]) -> SharedWzStringDecryptor {
    match kind {
        "new" => { let mut k = [0u8; 32]; for (i, x) in USER_KEY { k[i] = x; } Arc::new(RwLock::new(EcbDecryptor::new(iv, k))) }
        "global" | "reader" => GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv(iv),
        "lua" => Arc::new(RwLock::new(EcbDecryptor::new_lua())),
        "kms" => GLOBAL_STRING_DECRYPTOR.get_decryptor(DecrypterType::KMS),
        "gmsver" => GLOBAL_STRING_DECRYPTOR.get_decryptor_by_version(WzMapleVersion::GMS),
        _ => Arc::new(RwLock::new(EcbDecryptor::from_iv(iv))),
    }
}
fn decode(keys: &SharedWzStringDecryptor, enc: &[u8], wide: bool) -> Result<String, String> {
    let r = Arc::new(WzReader::from_buff(enc).with_existing_keys(Arc::clone(keys)));
    let m = if wide { WzStringMeta::new_unicode(0, enc.len() as u32) } else { WzStringMeta::new_ascii(0, enc.len() as u32) };
    WzString::from_meta(m, &r).get_string().map_err(|e| e.to_string())
}
fn diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) { Some(i) => format!("differs at byte {i} of {}: {} expected {}", a.len(), a[i], b[i]), None => format!("{} bytes expected {}", a.len(), b.len()) }
}

pub fn keys(c: &Value) -> R {
    let d = subject(c["subj"].as_str().unwrap(), arr4(&c["iv"]));
    for (i, l) in c["log"].as_array().unwrap().iter().enumerate() {
        let (o, n) = (l["o"].as_str().unwrap(), l["n"].as_u64().unwrap() as usize);
        let bad = |m: String| format!("request {i} ({o} {n}): {m}");
        match o {
            "ensure" => d.write().unwrap().ensure_key_size(n).map_err(bad)?,
            "at" => { let v = *d.write().unwrap().at(n); if json!(v) != l["v"] { return Err(bad(format!("{v} expected {}", l["v"]))); } }
            "try" => {
                let v = d.read().unwrap().try_at(n).copied();
                match v { Some(x) => if json!(x) != l["v"] { return Err(bad(format!("{x} expected {}", l["v"]))); }, None => if l["must"] == true { return Err(bad("absent".into())); } }
            }
            "slice" => {
                let (data, exp) = (bytes(&l["d"]), bytes(&l["v"]));
                let g = get_decrypt_slice(&data, n, &d).map_err(|e| bad(e.to_string()))?;
                if g != exp { return Err(bad(diff(&g, &exp))); }
                let mut g = data.clone();
                { let mut w = d.write().unwrap(); w.ensure_key_size(n).map_err(bad)?; w.decrypt_slice(&mut g); }
                if g != exp { return Err(bad(diff(&g, &exp))); }
            }
            "narrow" => {
                let exp: String = (1..=n).map(|j| (65 + (j % 26) as u8) as char).collect();
                let g = decode(&d, &bytes(&l["v"]), false).map_err(bad)?;
                if g != exp { return Err(bad(diff(g.as_bytes(), exp.as_bytes()))); }
            }
            "wide" => {
                let exp: Vec<u16> = (0..n / 2).map(|j| 768 + 65 + ((2 * j + 1) % 26) as u16).collect();
                let g = decode(&d, &bytes(&l["v"]), true).map_err(bad)?;
                if g.encode_utf16().collect::<Vec<_>>() != exp { return Err(bad("the decoded text differs".into())); }
            }
            "enough" => if l["must"] == true && !d.read().unwrap().is_enough(n) { return Err(bad("not enough".into())); },
            "iv" => d.write().unwrap().set_iv(u32::from_le_bytes(arr4(&l["iv"])) as u64, DecrypterType::Unknown),
            _ => return Err(format!("harness: {o}")),
        }
    }
    Ok(())
}

/// a decryptor that extends slowly, a few bytes at a time, and records what is asked of it
#[derive(Debug)]
struct Slow { full: Vec<u8>, keys: Vec<u8>, ev: Arc<Mutex<Vec<Value>>>, ids: Arc<Mutex<Vec<std::thread::ThreadId>>> }
impl Slow {
    fn t(&self) -> usize {
        let mut g = self.ids.lock().unwrap(); let id = std::thread::current().id();
        g.iter().position(|x| *x == id).unwrap_or_else(|| { g.push(id); g.len() - 1 }) + 1
    }
    fn log(&self, k: &str, n: usize, a: usize) { let t = self.t(); self.ev.lock().unwrap().push(json!({"k": k, "n": n, "a": a, "t": t})); }
}
impl Decryptor for Slow {
    fn get_iv_hash(&self) -> u64 { 1 }
    fn set_iv(&mut self, _: u64, _: DecrypterType) {}
    fn is_enough(&self, size: usize) -> bool { let e = self.keys.len() >= size; self.log("enough", size, e as usize); e }
    fn is_pkg2(&self) -> bool { false }
    fn at(&mut self, i: usize) -> &u8 { self.ensure_key_size(i + 1).unwrap(); &self.keys[i] }
    fn try_at(&self, i: usize) -> Option<&u8> { self.log("try", i, 0); self.keys.get(i) }
    fn decrypt_slice(&self, data: &mut [u8]) {
        self.log("dec", data.len(), 0);
        for (i, b) in data.iter_mut().enumerate() { *b ^= *self.keys.get(i).expect("decrypting beyond the materialised key"); }
    }
    fn ensure_key_size(&mut self, size: usize) -> Result<(), String> {
        self.log("ext0", size, self.keys.len());
        while self.keys.len() < size {
            let n = self.keys.len();
            self.keys.extend_from_slice(&self.full[n..(n + 256).min(self.full.len())]);
            std::thread::sleep(std::time::Duration::from_micros(30));
        }
        self.log("ext1", size, self.keys.len());
        Ok(())
    }
    fn get_enc_type(&self) -> DecrypterType { DecrypterType::Custom }
}

fn run_threads(d: &SharedWzStringDecryptor, stream: &[u8], plans: &[Vec<usize>]) -> R {
    let bar = Arc::new(Barrier::new(plans.len()));
    let err: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let n = Arc::new(AtomicUsize::new(0));
    let r = Arc::new(WzReader::from_buff(&[stream, &stream[..]].concat()).with_existing_keys(Arc::clone(d)));
    std::thread::scope(|s| {
        for (t, p) in plans.iter().enumerate() {
            let (bar, err, n, r, d) = (Arc::clone(&bar), Arc::clone(&err), Arc::clone(&n), Arc::clone(&r), Arc::clone(d));
            s.spawn(move || {
                bar.wait();
                for (i, &len) in p.iter().enumerate() {
                    let res = crate::guarded(|| {
                        if (t + i) % 2 == 0 {
                            let zeros = vec![0u8; len];
                            get_decrypt_slice(&zeros, len, &d).map_err(|e| e.to_string()).map(|g| (g != stream[..len]).then(|| diff(&g, &stream[..len])))
                        } else {
                            // the buffer is the stream itself: it decodes to the bare masks
                            let len = len & !1;
                            let g = r.resolve_wz_string_meta(&WzStringType::Unicode, if i % 3 == 0 { 0 } else { stream.len() }, len).map_err(|e| e.to_string());
                            g.map(|g| { let e: Vec<u16> = (0..len / 2).map(|i| (0xAAAAusize + i) as u16).collect(); (g != String::from_utf16_lossy(&e)).then(|| "the decoded text differs".to_string()) })
                        }
                    });
                    let m = match res { Ok(Ok(None)) => { n.fetch_add(1, Ordering::Relaxed); continue } Ok(Ok(Some(m))) | Ok(Err(m)) | Err(m) => m };
                    *err.lock().unwrap() = Some(format!("thread {t}, request {i} ({len} bytes): {m}"));
                    return;
                }
            });
        }
    });
    let e = err.lock().unwrap().take();
    match e { Some(m) => Err(m), None => Ok(()) }
}
pub fn mt(c: &Value) -> R {
    let stream = bytes(&c["stream"]);
    let plans: Vec<Vec<usize>> = c["threads"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()).collect();
    let iv = arr4(&c["iv"]);
    for _ in 0..4 { run_threads(&subject(c["subj"].as_str().unwrap(), iv), &stream, &plans)?; }
    for _ in 0..4 { run_threads(&subject("from_iv", iv), &stream, &plans)?; }
    let ev = Arc::new(Mutex::new(vec![]));
    let slow: SharedWzStringDecryptor = Arc::new(RwLock::new(Slow { full: stream.clone(), keys: vec![], ev: Arc::clone(&ev), ids: Arc::default() }));
    let r = run_threads(&slow, &stream, &plans);
    record(json!({"ev": *ev.lock().unwrap()}));
    r
}

fn text(v: &Value) -> Result<String, String> {
    let u: Vec<u16> = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
    String::from_utf16(&u).map_err(|_| "harness: not text".to_string())
}
fn same(what: &str, got: Result<String, String>, exp: &str) -> R {
    match got { Ok(g) if g == exp => Ok(()), Ok(g) => Err(format!("{what}: {:?} expected {:?}", cut(&g), cut(exp))), Err(e) => Err(format!("{what}: {e}")) }
}
fn cut(s: &str) -> String { s.chars().take(60).collect() }

pub fn string(c: &Value) -> R {
    let kid = c["kid"].as_str().unwrap();
    let s = text(&c["u"])?;
    let (raw, rawwide) = (bytes(&c["raw"]), bytes(&c["rawwide"]));
    let ascii = c["ascii"].as_bool().unwrap();
    let keys = shared(kid);
    let rd = Arc::new(WzReader::from_buff(&bytes(&c["bytes"])).with_existing_keys(Arc::clone(&keys)));
    let base = c["base"].as_u64().unwrap() as usize;
    let wide = c["wide"].as_bool().unwrap();
    // stored in a file
    let sl = rd.create_slice_reader();
    for form in ["str", "inl", "ref"] {
        let (at, end) = (c["at"][form].as_u64().unwrap() as usize, c["end"][form].as_u64().unwrap() as usize);
        let x = |e: wz_reader::reader::Error| e.to_string();
        sl.seek(at);
        let g = if form == "str" { sl.read_wz_string() } else { sl.read_wz_string_block(base) }.map_err(x);
        same(form, g, &s)?;
        if sl.pos.get() != end { return Err(format!("{form}: position {} expected {end}", sl.pos.get())); }
        sl.seek(at);
        let m = if form == "str" { sl.read_wz_string_meta() } else { sl.read_wz_string_block_meta(base) }.map_err(x)?;
        if sl.pos.get() != end { return Err(format!("{form} meta: position {} expected {end}", sl.pos.get())); }
        let ty = if s.is_empty() { m.string_type.clone() } else if wide { WzStringType::Unicode } else { WzStringType::Ascii };
        if m.string_type != ty { return Err(format!("{form}: kept as {:?}, stored as {ty:?}", m.string_type)); }
        let w = WzString::from_meta(m, &rd);
        same("kept string", w.get_string().map_err(|e| e.to_string()), &s)?;
        let node = WzNode::from_str("n", w.clone(), None).into_lock();
        same("string of a node", resolve_string_from_node(&node).map_err(|e| e.to_string()), &s)?;
        if kid == "none" {
            let g = if form == "str" { wz_reader::reader::read_wz_string(&bytes(&c["bytes"])[at..]) } else { continue }.map_err(x);
            same("free reader", g, &s)?;
        }
    }
    // a value built from text
    let ty = if s.is_empty() { WzStringType::Empty } else if ascii { WzStringType::Ascii } else { WzStringType::Unicode };
    let enc = rd.encrypt_str(&s, &ty);
    if enc != raw { return Err(format!("encrypt_str {ty:?}: {}", diff(&enc, &raw))); }
    let enc = rd.encrypt_str(&s, &WzStringType::Unicode);
    if enc != rawwide { return Err(format!("encrypt_str wide: {}", diff(&enc, &rawwide))); }
    same("wide form", decode(&keys, &rawwide, true), &s)?;
    if ascii { same("narrow form", decode(&keys, &raw, false), &s)?; }
    if kid != "affine" {
        let w = WzString::from_str(&s, crate::keys::iv(kid));
        if w.string_type != ty { return Err(format!("from_str picks {:?} expected {ty:?}", w.string_type)); }
        same("from_str", w.get_string().map_err(|e| e.to_string()), &s)?;
        same("clone", w.clone().get_string().map_err(|e| e.to_string()), &s)?;
        let j = serde_json::to_value(&w).map_err(|e| e.to_string())?;
        if j != json!(s) { return Err(format!("as JSON {}", cut(&j.to_string()))); }
        let b: WzString = serde_json::from_value(j).map_err(|e| e.to_string())?;
        same("from JSON", b.get_string().map_err(|e| e.to_string()), &s)?;
    }
    Ok(())
}

pub fn dirname(c: &Value) -> R {
    let s = text(&c["u"])?;
    let raw = bytes(&c["raw"]);
    let k = bytes(&c["key"]);
    let key = u64::from_le_bytes(k.clone().try_into().map_err(|_| "harness: key")?);
    let t = match c["t"].as_str().unwrap() { "kmst1198" => DecrypterType::KMST1198, "kmst1199" => DecrypterType::KMST1199, _ => DecrypterType::KMST1202 };
    let mk = || -> SharedWzStringDecryptor { Arc::new(RwLock::new(Pkg2Decryptor::new_with_key(key, t))) };
    let mut ks = vec![mk()];
    let d2: SharedWzStringDecryptor = Arc::new(RwLock::new(Pkg2Decryptor::default()));
    d2.write().unwrap().set_iv(key, t);
    ks.push(d2);
    if t == DecrypterType::KMST1198 { ks.push(GLOBAL_STRING_DECRYPTOR.get_decryptor(t)); ks.push(GLOBAL_STRING_DECRYPTOR.get_decryptor_by_version(WzMapleVersion::KMST1198)); }
    for d in ks {
        let mut rd = WzReader::from_buff(&bytes(&c["bytes"]));
        rd.pkg2_keys = Arc::clone(&d);
        let sl = rd.create_slice_reader();
        let wlen = c["wlen"].as_bool().unwrap();
        if !wlen {
            same("directory name", sl.read_wz_string_pkg2_dir().map_err(|e| e.to_string()), &s)?;
            if sl.pos.get() != 1 + raw.len() { return Err(format!("position {}", sl.pos.get())); }
            sl.seek(0);
        }
        let m = if wlen { sl.read_wz_string_pkg2_u64_dir_meta() } else { sl.read_wz_string_pkg2_dir_meta() }.map_err(|e| e.to_string())?;
        if sl.pos.get() != raw.len() + if wlen { 2 } else { 1 } { return Err(format!("position {}", sl.pos.get())); }
        same("kept name", rd.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize).map_err(|e| e.to_string()), &s)?;
        let e = rd.encrypt_str(&s, &WzStringType::Pkg2Dir);
        if e != raw { return Err(format!("encrypt_str: {}", diff(&e, &raw))); }
        let mut dec = raw.clone();
        d.read().unwrap().decrypt_slice(&mut dec);
        let u: Vec<u8> = s.encode_utf16().flat_map(|x| x.to_le_bytes()).collect();
        if dec != u { return Err(format!("decrypt_slice: {}", diff(&dec, &u))); }
        for i in 0..raw.len() {
            let x = *d.write().unwrap().at(i);
            if raw[i] ^ x != u[i] || d.read().unwrap().try_at(i) != Some(&x) { return Err(format!("key byte {i}")); }
        }
    }
    let w = WzString::from_str_pkg2_dir(&s);
    same("from_str_pkg2_dir", w.get_string().map_err(|e| e.to_string()), &s)
}

/// a string of `len` zero bytes (pairs): its length, its end, and sampled units
pub fn strlong(c: &Value) -> R {
    let (pad, len, wide) = (c["pad"].as_u64().unwrap() as usize, c["len"].as_u64().unwrap() as usize, c["wide"] == true);
    let n = if wide { 2 * len } else { len };
    let mut b = vec![0u8; pad];
    b.extend(bytes(&c["head"]));
    let start = b.len();
    b.resize(start + n, 0);
    b.push(0x5a);
    let r = WzReader::from_buff(&b).with_existing_keys(shared(c["kid"].as_str().unwrap()));
    let sr = r.create_slice_reader();
    sr.seek(pad);
    let m = sr.read_wz_string_meta().map_err(|e| format!("read_wz_string_meta: {e}"))?;
    if m.length as usize != n || m.offset != start { return Err(format!("meta of a string of {n} bytes: offset {} length {}", m.offset, m.length)); }
    let end = c["end"].as_u64().unwrap() as usize;
    if sr.pos.get() != end || sr.read_u8().ok() != Some(0x5a) { return Err(format!("position after the string: {} expected {end}", sr.pos.get())); }
    let units: Vec<u16> = if wide { sr.resolve_unicode_raw(start, n).map_err(|e| e.to_string())? }
        else { sr.resolve_ascii_raw(start, n).map_err(|e| e.to_string())?.into_iter().map(|x| x as u16).collect() };
    if units.len() != len { return Err(format!("{} units instead of {len}", units.len())); }
    for (k, v) in c["at"].as_object().ok_or("harness: at")? {
        let i: usize = k.parse().map_err(|_| "harness: index")?;
        if units[i] as u64 != v.as_u64().unwrap() { return Err(format!("unit {i} is {} expected {v}", units[i])); }
    }
    sr.seek(pad);
    sr.read_wz_string().map_err(|e| format!("read_wz_string: {e}"))?;
    if sr.pos.get() != end { return Err(format!("position after read_wz_string: {} expected {end}", sr.pos.get())); }
    Ok(())
}
