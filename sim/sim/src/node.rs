//! The loaded builds of the library.
use proto::*;
use std::ffi::CString;
use std::sync::OnceLock;

pub const DEF: u8 = 0;
pub const PERF: u8 = 1;
pub const ALLOC: u8 = 2;
pub const STD: u8 = 3;
pub const WASM: u8 = 4;
/// builds that count steps
pub const SDEF: u8 = 5;
pub const SPERF: u8 = 6;
pub const SALLOC: u8 = 7;
pub const NAMES: [&str; 8] = ["def", "perf", "alloc", "std", "wasm", "sdef", "sperf", "salloc"];

struct Node {
    call: NodeCall,
    free: NodeFree,
    info: u64,
    live: Option<extern "C" fn() -> i64>,
    steps: Option<extern "C" fn() -> u64>,
}
static NODES: OnceLock<Vec<Option<Node>>> = OnceLock::new();

unsafe fn open(path: &str) -> Option<Node> {
    let p = CString::new(path).unwrap();
    let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
    if h.is_null() {
        let e = std::ffi::CStr::from_ptr(libc::dlerror());
        eprintln!("cannot load {path}: {e:?}");
        return None;
    }
    let sym = |n: &str| {
        let n = CString::new(n).unwrap();
        let s = libc::dlsym(h, n.as_ptr());
        assert!(!s.is_null(), "missing symbol in {path}");
        s
    };
    let info: NodeInfo = std::mem::transmute(sym("node_info"));
    let live = libc::dlsym(h, c"node_live".as_ptr());
    let live = if live.is_null() { None } else { Some(std::mem::transmute::<*mut libc::c_void, extern "C" fn() -> i64>(live)) };
    let steps = libc::dlsym(h, c"node_steps".as_ptr());
    let steps = if steps.is_null() { None } else { Some(std::mem::transmute::<*mut libc::c_void, extern "C" fn() -> u64>(steps)) };
    Some(Node { steps, live, call: std::mem::transmute(sym("node_call")), free: std::mem::transmute(sym("node_free")), info: info() })
}

/// Loads `dir/<name>/release/lib{node,wnode}.so` for the given node indices.
pub fn load(dir: &str, which: &[u8]) -> Result<(), String> {
    let mut v = Vec::new();
    for (i, n) in NAMES.iter().enumerate() {
        if which.contains(&(i as u8)) {
            let so = if i as u8 == WASM { "libwnode.so" } else { "libnode.so" };
            let node = unsafe { open(&format!("{dir}/{n}/release/{so}")) };
            if node.is_none() {
                return Err(format!("node {n} did not load"));
            }
            v.push(node);
        } else {
            v.push(None);
        }
    }
    NODES.set(v).map_err(|_| "loaded twice".to_string())
}

/// Bytes in use in all loaded builds together.
pub fn live() -> i64 {
    NODES.get().unwrap().iter().flatten().filter_map(|n| n.live).map(|f| f()).sum()
}

/// What the last call took; only in builds that count.
pub fn steps(n: u8) -> u64 {
    NODES.get().unwrap()[n as usize].as_ref().and_then(|n| n.steps).map_or(0, |f| f())
}

pub fn info(n: u8) -> u64 {
    NODES.get().unwrap()[n as usize].as_ref().map_or(0, |n| n.info)
}
pub fn has_io(n: u8) -> bool {
    n != WASM && info(n) & INFO_STD != 0
}
/// Does the node have this encode entry point?
pub fn can_encode(n: u8, api: EncApi, o: &Opts) -> bool {
    match n {
        WASM => api == EncApi::ToString && o.delim != 1 && !o.fold && o.indent == 2,
        ALLOC | SALLOC => matches!(api, EncApi::ToString | EncApi::SerStreaming),
        STD => matches!(api, EncApi::ToString | EncApi::SerStreaming | EncApi::ToWriter | EncApi::SerWriterStreaming),
        _ => true,
    }
}

/// # Safety
/// `op` must be what the host function expects.
pub unsafe fn call(n: u8, host: &Host, op: usize, flags: u64, req: &[u8]) -> Resp {
    let node = NODES.get().unwrap()[n as usize].as_ref().unwrap_or_else(|| panic!("node {} is not loaded", NAMES[n as usize]));
    let mut b = Buf { ptr: std::ptr::null_mut(), len: 0, cap: 0 };
    (node.call)(host, op, flags, req.as_ptr(), req.len(), &mut b);
    let r = Resp::from_bytes(std::slice::from_raw_parts(b.ptr, b.len));
    (node.free)(&mut b);
    r
}
