//! Canvas pixels (C15), and links between canvases (C09).
use crate::ops_file::parse_node;
use crate::ops_image::{image_node, wz_image};
use crate::R;
use image::DynamicImage;
use serde_json::Value;
use wz_reader::property::png::WzPngParseError;
use wz_reader::property::{get_image, WzSubProperty};
use wz_reader::WzObjectType;

pub fn pixels(i: &DynamicImage, deep: bool) -> Vec<u16> {
    if deep { i.to_rgba16().into_raw() } else { i.to_rgba8().into_raw().into_iter().map(|x| x as u16).collect() }
}
fn judge(c: &Value, what: &str, r: Result<DynamicImage, WzPngParseError>) -> R {
    let exp = c["exp"].as_str().unwrap();
    let (w, h) = (c["w"].as_i64().unwrap() as u32, c["h"].as_i64().unwrap() as u32);
    let i = match (r, exp) {
        (Err(e), "image") => return Err(format!("{what} fails: {e}")),
        (Err(_), _) => return Ok(()),
        (Ok(i), "error") => return Err(format!("{what} gives a picture of {}x{} instead of an error ({} {w}x{h})", i.width(), i.height(), c["note"])),
        (Ok(i), _) => i,
    };
    if (i.width(), i.height()) != (w, h) { return Err(format!("{what} gives {}x{} instead of {w}x{h}", i.width(), i.height())); }
    if exp == "image" {
        let want: Vec<u16> = c["px"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
        let got = pixels(&i, c["deep"].as_bool().unwrap());
        if want.len() != got.len() { return Err(format!("{what}: {} samples instead of {}", got.len(), want.len())); }
        if let Some(k) = (0..want.len()).find(|k| want[*k] != got[*k]) {
            let p = k / 4;
            return Err(format!("{what}: pixel ({}, {}) of {w}x{h} is {:?} instead of {:?}", p as u32 % w, p as u32 / w, &got[p * 4..p * 4 + 4], &want[p * 4..p * 4 + 4]));
        }
    }
    Ok(())
}
pub fn canvas(c: &Value) -> R {
    // straight out of the unparsed image
    let lone = wz_image(c).at_path("c").map_err(|e| format!("at_path: {e}"))?;
    judge(c, "get_image of the fetched canvas", get_image(&lone))?;
    let node = image_node(c);
    parse_node(&node).map_err(|e| format!("parse: {e}"))?;
    let cv = node.read().unwrap().at("c").ok_or("the canvas is missing")?;
    judge(c, "get_image", get_image(&cv))?;
    let png = match &cv.read().unwrap().object_type { WzObjectType::Property(WzSubProperty::PNG(p)) => p.clone(), _ => return Err("'c' is no canvas".into()) };
    judge(c, "extract_png", png.extract_png())?;
    judge(c, "extract_png again", png.extract_png())?;
    if node.read().unwrap().at("b").is_none() || node.read().unwrap().at("y").is_none() { return Err("a sibling is missing".into()); }
    Ok(())
}
