//! Second-generation archives and the generators of their version keys (C13).
use crate::keys::{bytes, iv};
use crate::ops_file::{check_tree, parse_node, write_file};
use crate::R;
use serde_json::{json, Value};
use std::path::Path;
use wz_reader::util::profile::{get_all_pkg2_profiles, Pkg2Profile, WzProfile, PKG2_PROFILE_CACHE};
use wz_reader::util::string_decryptor::{DecrypterType, GLOBAL_STRING_DECRYPTOR};
use wz_reader::util::version::pkg2::{Pkg2VersionGen, VersionGen};
use wz_reader::{WzFile, WzNode, WzNodeArc, WzObjectType};

fn word(v: &Value) -> u64 {
    let mut b = bytes(v);
    b.resize(8, 0);
    u64::from_le_bytes(b.try_into().unwrap())
}
fn profile(name: &str) -> WzProfile {
    get_all_pkg2_profiles().into_iter().find(|p| p.name.to_string() == name).unwrap_or_else(|| panic!("no profile {name}"))
}
pub fn open(path: &Path, hint: &str) -> Result<WzNodeArc, String> {
    let f = match hint {
        "" => WzFile::from_file(path, None, None, None),
        "kmst1198" => WzFile::from_file(path, None, None, Some(&GLOBAL_STRING_DECRYPTOR.get_decryptor(DecrypterType::KMST1198))),
        k => WzFile::from_file(path, Some(iv(k)), None, None),
    }.map_err(|e| format!("open: {e}"))?;
    let n = WzNode::from_str("t", f, None).into_lock();
    parse_node(&n).map_err(|e| format!("parse: {e}"))?;
    Ok(n)
}

/// what earlier openings of archives have left to try first
pub fn remember(rs: &Value) {
    let mut cache = PKG2_PROFILE_CACHE.write().unwrap_or_else(|e| e.into_inner());
    cache.clear();
    for r in rs.as_array().unwrap() { cache.push(Pkg2Profile::new(profile(r["profile"].as_str().unwrap()), word(&r["hash"]))); }
}
pub fn pkg2(c: &Value) -> R {
    remember(&c["cache"]);
    for (i, a) in c["archives"].as_array().unwrap().iter().enumerate() {
        let p = write_file("t.wz", &bytes(&a["bytes"]))?;
        for w in a["ways"].as_array().unwrap() {
            let key = w.as_str().unwrap();
            let how = format!("archive {i} ({} {} key {}) opened with key {key:?} and {} profiles remembered", a["profile"], a["form"], a["kid"], c["cache"].as_array().unwrap().len());
            let n = open(&p, key).map_err(|e| format!("{how}: {e}"))?;
            if let WzObjectType::File(f) = &n.read().unwrap().object_type {
                if f.wz_file_meta.hash as u64 != word(&a["hash"]) { return Err(format!("{how} is read with version key {:x} instead of {:x}", f.wz_file_meta.hash, word(&a["hash"]))); }
            }
            check_tree(&n, &a["tree"], a["order"].as_u64().unwrap()).map_err(|e| format!("{how}: {e}"))?;
        }
    }
    Ok(())
}

fn gen_of(g: u64) -> Pkg2VersionGen {
    match g { 1 => Pkg2VersionGen::V1, 2 => Pkg2VersionGen::V2, 3 => Pkg2VersionGen::V3, 4 => Pkg2VersionGen::V4, 5 => Pkg2VersionGen::V5, _ => Pkg2VersionGen::V6 }
}
/// the keys enumerated for a header: the one it was made with is there, and every one gives the header
pub fn vgen(c: &Value) -> R {
    let g = c["gen"].as_u64().unwrap();
    let (h1, h2, t) = (word(&c["h1"]), word(&c["h2"]), word(&c["t"]));
    let p = get_all_pkg2_profiles().into_iter().find(|p| p.version_gen as u32 == gen_of(g) as u32).expect("profile of the generator");
    let le = |x: u64| -> Vec<u8> { x.to_le_bytes()[..if g == 6 { 8 } else { 4 }].to_vec() };
    for (x, want) in [(t, true), (word(&c["t2"]), c["fits2"].as_bool().unwrap())] {
        if Pkg2Profile::new(p.clone(), x).verify_hash(h1, h2) != want { return Err(format!("generator {g}: key {x:x} {} for the header {h1:x} {h2:x}", if want { "is refused" } else { "is accepted" })); }
    }
    if g >= 4 && g < 6 && !c["all"].as_bool().unwrap() { return Ok(()); }
    let got: Vec<u64> = p.get_hash_iter(h1, h2).collect();
    if !got.contains(&t) { return Err(format!("generator {g} does not enumerate {t:x} for the header {h1:x} {h2:x}, only {:x?}", &got[..got.len().min(20)])); }
    let mut s = got.clone();
    s.sort(); s.dedup();
    if s.len() != got.len() { return Err(format!("generator {g} enumerates a key twice for the header {h1:x} {h2:x}")); }
    if g <= 3 {
        // the generator over all three has what each has
        let all: Vec<u64> = VersionGen::new(h1 as u32, h2 as u32).map(|x| x as u64).collect();
        if let Some(x) = got.iter().find(|x| !all.contains(x)) { return Err(format!("the combined generator misses {x:x} of generator {g} for the header {h1:x} {h2:x}")); }
    }
    crate::record(json!({"ev": got.iter().take(300).map(|x| json!({"gen": g, "h1": le(h1), "h2": le(h2), "t": le(*x)})).collect::<Vec<_>>()}));
    Ok(())
}
