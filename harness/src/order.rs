//! The order in which the system lists a folder, chosen by the case (libc's readdir64, interposed).
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub static ORDER: AtomicU64 = AtomicU64::new(0);       // 0: as the system lists it
extern "C" { fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void; }
const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;
type Read = unsafe extern "C" fn(*mut c_void) -> *mut u8;
type Close = unsafe extern "C" fn(*mut c_void) -> c_int;
static OPEN: Mutex<Option<HashMap<usize, (usize, Vec<Box<[u8]>>)>>> = Mutex::new(None);

fn real(name: &'static [u8]) -> *mut c_void { unsafe { dlsym(RTLD_NEXT, name.as_ptr() as *const c_char) } }
/// # Safety
/// as readdir64
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut u8 {
    let read: Read = std::mem::transmute(real(b"readdir64\0"));
    let how = ORDER.load(Ordering::SeqCst);
    if how == 0 { return read(d); }
    let mut g = OPEN.lock().unwrap_or_else(|e| e.into_inner());
    let all = g.get_or_insert_with(HashMap::new).entry(d as usize).or_insert_with(|| {
        let mut v: Vec<Box<[u8]>> = vec![];
        loop {
            let e = read(d);
            if e.is_null() { break; }
            let len = *(e.add(16) as *const u16) as usize;      // d_reclen
            v.push(std::slice::from_raw_parts(e, len).into());
        }
        v.sort_by(|a, b| a[19..].cmp(&b[19..]));
        match how { 1 => {} 2 => v.reverse(), s => crate::ops_file::shuffle(&mut v, s) }
        (0, v)
    });
    let i = all.0;
    all.0 += 1;
    match all.1.get_mut(i) { Some(e) => e.as_mut_ptr(), None => std::ptr::null_mut() }
}
/// # Safety
/// as closedir
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let close: Close = std::mem::transmute(real(b"closedir\0"));
    if let Ok(mut g) = OPEN.lock() { if let Some(m) = g.as_mut() { m.remove(&(d as usize)); } }
    close(d)
}
