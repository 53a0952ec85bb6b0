//! Key streams of the specification, as decryptors of the real crate.
use serde_json::Value;
use std::sync::{Arc, RwLock};
use wz_reader::util::string_decryptor::{DecrypterType, Decryptor, EcbDecryptor};
use wz_reader::{SharedWzStringDecryptor, WzReader};

/// The "affine" stream of WzFormat.tla: K(i) = (31 i + 17) mod 256.
#[derive(Debug, Default)]
pub struct Affine {
    pub keys: Vec<u8>,
}
impl Decryptor for Affine {
    fn get_iv_hash(&self) -> u64 { 0x11 }
    fn set_iv(&mut self, _: u64, _: DecrypterType) {}
    fn is_enough(&self, size: usize) -> bool { self.keys.len() >= size }
    fn is_pkg2(&self) -> bool { false }
    fn at(&mut self, i: usize) -> &u8 { self.ensure_key_size(i + 1).unwrap(); &self.keys[i] }
    fn try_at(&self, i: usize) -> Option<&u8> { self.keys.get(i) }
    fn decrypt_slice(&self, data: &mut [u8]) {
        for (i, b) in data.iter_mut().enumerate() { *b ^= self.keys[i]; }
    }
    fn ensure_key_size(&mut self, size: usize) -> Result<(), String> {
        while self.keys.len() < size { self.keys.push((self.keys.len() * 31 + 17) as u8); }
        Ok(())
    }
    fn get_enc_type(&self) -> DecrypterType { DecrypterType::Custom }
}

pub fn shared(kid: &str) -> SharedWzStringDecryptor {
    match kid {
        "affine" => Arc::new(RwLock::new(Affine::default())),
        "none" => Arc::new(RwLock::new(EcbDecryptor::from_iv([0; 4]))),
        k => Arc::new(RwLock::new(EcbDecryptor::from_iv(iv(k)))),
    }
}
pub fn iv(kid: &str) -> [u8; 4] {
    match kid {
        "gms" => [0x4D, 0x23, 0xC7, 0x2B],
        "ems" => [0xB9, 0x7D, 0x63, 0xE9],
        "custom" => [0x11, 0x22, 0x33, 0x44],
        _ => [0; 4],
    }
}
pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap_or(0) as u8).collect()).unwrap_or_default()
}
pub fn reader(c: &Value) -> Arc<WzReader> {
    let kid = c["kid"].as_str().unwrap_or("none");
    Arc::new(WzReader::from_buff(&bytes(&c["bytes"])).with_existing_keys(shared(kid)))
}
/// the scratch directory of this run
pub fn tmp() -> std::path::PathBuf {
    let p = std::env::var("WZH_TMP").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir().join("wzh"));
    let _ = std::fs::create_dir_all(&p);
    p
}
