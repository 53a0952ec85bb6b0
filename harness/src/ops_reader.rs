//! Primitive reads (C24): a recorded client of the reader specification.
use crate::dump::units;
use crate::keys::{bytes, reader};
use crate::R;
use serde_json::{json, Value};
use wz_reader::property::{WzStringMeta, WzStringType};
use wz_reader::reader as free;
use wz_reader::util::string_decryptor::{DecrypterType, GLOBAL_STRING_DECRYPTOR};
use wz_reader::{Reader, WzSliceReader};

fn meta(m: WzStringMeta) -> Value {
    let t = match m.string_type { WzStringType::Empty => return json!([0]), WzStringType::Ascii => 1, WzStringType::Unicode => 2, WzStringType::Pkg2Dir => 3 };
    if m.length == 0 { return json!([0]); }
    json!([t, m.offset, m.length])
}
/// strings whose units are not valid text decode lossily: only the position is compared
fn lossy(v: &Value, narrow: bool) -> bool {
    let u: Vec<u16> = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
    String::from_utf16(&u).is_err() || (narrow && u.iter().any(|x| *x > 127))
}
type E = String;
fn e<T>(r: Result<T, free::Error>) -> Result<T, E> { r.map_err(|x| x.to_string()) }

fn at<T: Reader>(r: &T, o: &str, a: usize) -> Result<Value, E> {
    Ok(match o {
        "u8_at" => json!(e(r.read_u8_at(a))?.to_le_bytes()), "i8_at" => json!(e(r.read_i8_at(a))?.to_le_bytes()),
        "u16_at" => json!(e(r.read_u16_at(a))?.to_le_bytes()), "i16_at" => json!(e(r.read_i16_at(a))?.to_le_bytes()),
        "u32_at" => json!(e(r.read_u32_at(a))?.to_le_bytes()), "i32_at" => json!(e(r.read_i32_at(a))?.to_le_bytes()),
        "u64_at" => json!(e(r.read_u64_at(a))?.to_le_bytes()), "i64_at" => json!(e(r.read_i64_at(a))?.to_le_bytes()),
        "f32_at" => json!(e(r.read_float_at(a))?.to_le_bytes()), "f64_at" => json!(e(r.read_double_at(a))?.to_le_bytes()),
        _ => return Err("harness: op".into()),
    })
}
fn free_at(b: &[u8], o: &str, a: usize, kid: &str, base: usize) -> Option<Result<Value, E>> {
    Some((|| Ok(match o {
        "u8_at" => json!(e(free::read_u8_at(b, a))?.to_le_bytes()), "i8_at" => json!(e(free::read_i8_at(b, a))?.to_le_bytes()),
        "u16_at" => json!(e(free::read_u16_at(b, a))?.to_le_bytes()), "i16_at" => json!(e(free::read_i16_at(b, a))?.to_le_bytes()),
        "u32_at" => json!(e(free::read_u32_at(b, a))?.to_le_bytes()), "i32_at" => json!(e(free::read_i32_at(b, a))?.to_le_bytes()),
        "u64_at" => json!(e(free::read_u64_at(b, a))?.to_le_bytes()), "i64_at" => json!(e(free::read_i64_at(b, a))?.to_le_bytes()),
        "int" => json!([e(free::read_wz_int(b, Some(a)))?]),
        "int64" => {
            let x = e(free::read_wz_int64(b, Some(a)));
            if x != e(free::read_wz_long(b, Some(a))) { return Err("read_wz_long differs".into()); }
            json!(x?.to_le_bytes())
        }
        // the buffer starts at the block; what lies before it cannot be referred to
        "block" if kid == "none" && a < b.len() => {
            if matches!(b[a], 1 | 0x1B) {
                let Some(r) = b.get(a + 1..a + 5) else { return Err("skip".into()) };
                if (base as i64) + (i32::from_le_bytes(r.try_into().unwrap()) as i64) < a as i64 { return Err("skip".into()); }
            }
            units(&e(free::read_wz_string_block(&b[a..], base.wrapping_sub(a)))?)
        }
        "str" if kid == "none" => units(&e(free::read_wz_string(b.get(a..).unwrap_or(&[])))?),
        _ => return Err("skip".into()),
    }))()).filter(|r: &Result<Value, E>| !matches!(r, Err(s) if s == "skip"))
}
fn seq(r: &WzSliceReader, o: &str, base: usize) -> Result<Value, E> {
    Ok(match o {
        "u8" => json!(e(r.read_u8())?.to_le_bytes()), "i8" => json!(e(r.read_i8())?.to_le_bytes()),
        "u16" => json!(e(r.read_u16())?.to_le_bytes()), "i16" => json!(e(r.read_i16())?.to_le_bytes()),
        "u32" => json!(e(r.read_u32())?.to_le_bytes()), "i32" => json!(e(r.read_i32())?.to_le_bytes()),
        "u64" => json!(e(r.read_u64())?.to_le_bytes()), "i64" => json!(e(r.read_i64())?.to_le_bytes()),
        "f32" => json!(e(r.read_float())?.to_le_bytes()), "f64" => json!(e(r.read_double())?.to_le_bytes()),
        "int" => json!([e(r.read_wz_int())?]),
        "int64" => {
            let p = r.pos.get();
            let x = e(r.read_wz_long());
            r.seek(p);
            let y = e(r.read_wz_int64());
            if x != y { return Err("read_wz_long differs".into()); }
            json!(y?.to_le_bytes())
        }
        "str" => units(&e(r.read_wz_string())?),
        "strmeta" => meta(e(r.read_wz_string_meta())?),
        "block" => units(&e(r.read_wz_string_block(base))?),
        "blockmeta" => meta(e(r.read_wz_string_block_meta(base))?),
        "dir" => units(&e(r.read_wz_string_pkg2_dir())?),
        "dirmeta" => meta(e(r.read_wz_string_pkg2_dir_meta())?),
        "dir16meta" => meta(e(r.read_wz_string_pkg2_u64_dir_meta())?),
        o => return Err(format!("harness: op {o}")),
    })
}

pub fn run(c: &Value) -> R {
    let kid = c["kid"].as_str().unwrap();
    let buf = bytes(&c["bytes"]);
    let mut base_reader = std::sync::Arc::try_unwrap(reader(c)).map_err(|_| "harness: shared reader")?;
    base_reader.pkg2_keys = GLOBAL_STRING_DECRYPTOR.get_decryptor(DecrypterType::KMST1198);
    let base = c["base"].as_u64().unwrap() as usize;
    if base_reader.get_size() != buf.len().max(1) { return Err("reader size".into()); }
    let r = base_reader.create_slice_reader();
    for (i, l) in c["log"].as_array().unwrap().iter().enumerate() {
        let o = l["o"].as_str().unwrap();
        let a = l["a"].as_i64().unwrap();
        let ok = l["ok"].as_bool().unwrap();
        let wide = l["w"].as_bool().unwrap_or(true);
        let exp = if l["v"].as_array().is_none() { json!([]) } else { l["v"].clone() };
        let step = |m: String| format!("step {i} {o} at {a}: {m}");
        let fixed_at = o.ends_with("_at") && !o.starts_with("str");
        let got = match o {
            "skip" => { r.skip(a as usize); Ok(json!([])) }
            "save" => { r.save_pos(); Ok(json!([])) }
            "restore" => { r.restore_pos(); Ok(json!([])) }
            "str_at" => e(r.read_wz_string_at_offset(a as usize)).map(|s| units(&s)),
            "strmeta_at" => e(r.read_wz_string_meta_at(a as usize)).map(meta),
            "slice" => {
                let n = exp[0].as_u64().unwrap() as usize;
                let a = a as usize;
                let g = e(base_reader.get_slice_or_error(a..a + n).map(|s| s.to_vec()));
                if g != e(r.get_slice_or_error(a..a + n).map(|s| s.to_vec())) { return Err(step("the two readers differ".into())); }
                if ok && g.as_ref().unwrap() != &base_reader.get_ref_slice()[a..a + n] { return Err(step("get_ref_slice differs".into())); }
                if ok && g.as_ref().unwrap() != r.get_slice(a..a + n) { return Err(step("the slice reader's get_slice differs".into())); }
                if ok && String::from_utf8_lossy(g.as_ref().unwrap()) != free::read_string_by_len(&buf, n, Some(a)) { return Err(step("read_string_by_len differs".into())); }
                if ok && a == 0 && String::from_utf8_lossy(g.as_ref().unwrap()) != free::read_string_by_len(&buf, n, None) { return Err(step("read_string_by_len without an offset differs".into())); }
                if ok && g.as_ref().unwrap() != base_reader.get_slice(a..a + n) { return Err(step("get_slice differs".into())); }
                g.map(|s| { let mut v = vec![json!(n)]; v.extend(s.into_iter().map(|x| json!(x))); json!(v) })
            }
            _ if fixed_at => {
                let x = at(&r, o, a as usize);
                let y = at(&base_reader, o, a as usize);
                if x != y { return Err(step(format!("slice reader {x:?}, owning reader {y:?}"))); }
                x
            }
            _ => {
                if a >= 0 { r.seek(a as usize); }
                seq(&r, o, base)
            }
        };
        let is_meta = o.contains("meta");
        if !ok && is_meta && l["p"] == -1 { continue; }
        let text = matches!(o, "str" | "block" | "dir" | "str_at");
        match (&got, ok) {
            (Ok(g), true) => {
                let same = *g == exp || (text && lossy(&exp, !wide));
                if !same { return Err(step(format!("expected {} got {}", crate::dump::show(&exp), crate::dump::show(g)))); }
            }
            (Err(m), true) => return Err(step(format!("fails: {m}"))),
            (Ok(g), false) => if o != "slice" && !is_meta { return Err(step(format!("reads {} out of the bytes it has not", crate::dump::show(g)))) },
            (Err(_), false) => {}
        }
        let p = l["p"].as_i64().unwrap();
        if p >= 0 && r.pos.get() as i64 != p { return Err(step(format!("position {} expected {p}", r.pos.get()))); }
        if p >= 0 && p as usize <= buf.len() {
            if !r.is_valid_pos(p as usize) || r.available() != r.get_size() - p as usize { return Err(step("available/is_valid_pos".into())); }
            let n = (r.get_size() - p as usize).min(5);
            if r.get_slice_from_current(n) != &r.buf[p as usize..p as usize + n] { return Err(step("get_slice_from_current".into())); }
        }
        // the free functions over a buffer
        if a >= 0 {
            if let Some(f) = free_at(&buf, o, a as usize, kid, base) {
                match (f, ok) {
                    (Ok(g), true) => if g != exp && !(text && lossy(&exp, !wide)) { return Err(step(format!("free function: expected {} got {}", crate::dump::show(&exp), crate::dump::show(&g)))); },
                    (Err(m), true) => return Err(step(format!("free function fails: {m}"))),
                    (Ok(g), false) => if !(text && g == json!([])) { return Err(step(format!("free function reads {} out of the bytes it has not", crate::dump::show(&g)))) },
                    (Err(_), false) => {}
                }
            }
        }
    }
    Ok(())
}
