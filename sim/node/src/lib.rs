//! One node of the simulated fleet: a build of the real library behind a small
//! C interface. Everything the library gets from outside (writers, readers,
//! Serialize and Deserialize implementations, memory) goes to the simulator.

use proto::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Once;

mod de;
mod ser;
mod steps;

pub struct Ctx {
    pub host: Host,
    pub op: usize,
    pub flags: u64,
    pub ids: HashMap<*const V, u64>,
    pub de_calls: Cell<u64>,
    allocs: Cell<u64>,
    live: Cell<i64>,
    peak: Cell<i64>,
    total: Cell<u64>,
}

impl Ctx {
    pub fn event(&self, kind: u32, a: u64, buf: *mut u8, len: usize, aux: &mut u64) -> i64 {
        let saved = ARMED.with(|c| c.replace(std::ptr::null()));
        let r = (self.host.event)(self.op, kind, a, buf, len, aux);
        ARMED.with(|c| c.set(saved));
        r
    }
}

pub fn unarmed<T>(f: impl FnOnce() -> T) -> T {
    let saved = ARMED.with(|c| c.replace(std::ptr::null()));
    let r = f();
    ARMED.with(|c| c.set(saved));
    r
}

pub fn sim_panic(id: u64) -> ! {
    std::panic::panic_any(format!("simulated-panic-{id}"))
}

thread_local! {
    static ARMED: Cell<*const Ctx> = const { Cell::new(std::ptr::null()) };
    pub static DE: RefCell<Vec<(*const Ctx, *const V)>> = const { RefCell::new(Vec::new()) };
}

struct SimAlloc;

/// Bytes in use in this build of the library, whoever asked for them.
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
#[no_mangle]
pub extern "C" fn node_live() -> i64 {
    LIVE.load(std::sync::atomic::Ordering::Relaxed)
}

/// true: let the request through
fn on_alloc(size: usize) -> bool {
    let Ok(p) = ARMED.try_with(|c| c.get()) else { return true };
    if p.is_null() {
        return true;
    }
    let c = unsafe { &*p };
    c.allocs.set(c.allocs.get() + 1);
    c.total.set(c.total.get() + size as u64);
    if c.flags & F_ALLOC_EVENTS != 0 {
        let mut aux = 0;
        let act = c.event(EV_ALLOC, size as u64, std::ptr::null_mut(), 0, &mut aux);
        if act != ACT_OK {
            return false;
        }
    }
    true
}
fn on_live(delta: i64) {
    LIVE.fetch_add(delta, std::sync::atomic::Ordering::Relaxed);
    let Ok(p) = ARMED.try_with(|c| c.get()) else { return };
    if p.is_null() {
        return;
    }
    let c = unsafe { &*p };
    c.live.set(c.live.get() + delta);
    if c.live.get() > c.peak.get() {
        c.peak.set(c.live.get());
    }
}

/// How fast bytes are searched depends on where they lie: always the same there
/// where steps are counted.
fn placed(l: Layout) -> Layout {
    if cfg!(feature = "steps") {
        l.align_to(64).unwrap_or(l)
    } else {
        l
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        steps::add(16);
        let p = System.alloc(placed(l));
        if !p.is_null() {
            on_live(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, placed(l));
        on_live(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !on_alloc(n) {
            return std::ptr::null_mut();
        }
        steps::add(l.size() >> 3);
        let q = System.realloc(p, placed(l), n);
        if !q.is_null() {
            on_live(n as i64 - l.size() as i64);
        }
        q
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

pub fn options(o: &Opts) -> toon_rs::Options {
    toon_rs::Options {
        delimiter: match o.delim {
            0 => toon_rs::Delimiter::Comma,
            1 => toon_rs::Delimiter::Tab,
            _ => toon_rs::Delimiter::Pipe,
        },
        strict: o.strict,
        indent: o.indent as usize,
        key_folding: if o.fold { toon_rs::KeyFolding::Safe } else { toon_rs::KeyFolding::Off },
        flatten_depth: if o.flatten < 0 { None } else { Some(o.flatten as usize) },
        expand_paths: if o.expand { toon_rs::ExpandPaths::Safe } else { toon_rs::ExpandPaths::Off },
    }
}

fn fail(e: toon_rs::Error) -> Res {
    #[cfg(feature = "std")]
    if let toon_rs::Error::Io(io) = &e {
        return Res::ErrIo(
            format!("{:?}", io.kind()),
            io.raw_os_error().map_or(-1, |x| x as i64),
            io.to_string(),
        );
    }
    Res::Err(e.to_string())
}

#[cfg(feature = "std")]
mod io_seam {
    use super::*;
    pub struct SimWriter<'a>(pub &'a Ctx);
    impl std::io::Write for SimWriter<'_> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let mut aux = 0;
            let r = self.0.event(EV_WRITE, 0, b.as_ptr() as *mut u8, b.len(), &mut aux);
            match r {
                ACT_ERR => Err(make_io_error(aux & 0xffff, aux >> 16)),
                ACT_PANIC => sim_panic(aux),
                n => Ok(n as usize),
            }
        }
        fn flush(&mut self) -> std::io::Result<()> {
            let mut aux = 0;
            match self.0.event(EV_FLUSH, 0, std::ptr::null_mut(), 0, &mut aux) {
                ACT_ERR => Err(make_io_error(aux & 0xffff, aux >> 16)),
                ACT_PANIC => sim_panic(aux),
                _ => Ok(()),
            }
        }
    }
    pub struct SimReader<'a>(pub &'a Ctx);
    impl std::io::Read for SimReader<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let mut aux = 0;
            let r = self.0.event(EV_READ, 0, b.as_mut_ptr(), b.len(), &mut aux);
            match r {
                ACT_ERR => Err(make_io_error(aux & 0xffff, aux >> 16)),
                ACT_PANIC => sim_panic(aux),
                n => Ok(n as usize),
            }
        }
    }
}

fn encode(ctx: &Ctx, api: EncApi, o: &toon_rs::Options, v: &V) -> Res {
    let s = ser::S { v, ctx };
    let text = |r: toon_rs::Result<String>| match r {
        Ok(t) => Res::Ok(Out::Text(t)),
        Err(e) => fail(e),
    };
    #[cfg(feature = "std")]
    let unit = |r: toon_rs::Result<()>| match r {
        Ok(()) => Res::Ok(Out::Unit),
        Err(e) => fail(e),
    };
    match api {
        EncApi::ToString => text(toon_rs::encode_to_string(&s, o)),
        EncApi::SerStreaming => text(toon_rs::ser::to_string_streaming(&s, o)),
        #[cfg(feature = "json")]
        EncApi::SerToString => text(toon_rs::ser::to_string(&s, o)),
        #[cfg(feature = "json")]
        EncApi::EncodeValue => {
            let j = match serde_json::to_value(&s) {
                Ok(j) => j,
                Err(e) => return Res::Err(e.to_string()),
            };
            text(toon_rs::encode::encode_value_to_string(&j, o))
        }
        #[cfg(feature = "std")]
        EncApi::ToWriter => {
            if ctx.op & 1 == 0 {
                unit(toon_rs::encode_to_writer(io_seam::SimWriter(ctx), &s, o))
            } else {
                unit(toon_rs::encode_to_writer(&mut io_seam::SimWriter(ctx), &s, o))
            }
        }
        #[cfg(feature = "std")]
        EncApi::SerWriterStreaming => {
            unit(toon_rs::ser::to_writer_streaming(&mut io_seam::SimWriter(ctx), &s, o))
        }
        #[cfg(feature = "json")]
        EncApi::SerToWriter => unit(toon_rs::ser::to_writer(io_seam::SimWriter(ctx), &s, o)),
        #[allow(unreachable_patterns)]
        _ => Res::Unsupported,
    }
}

fn dec_one<T: serde::de::DeserializeOwned + 'static>(
    ctx: &Ctx,
    o: &toon_rs::Options,
    doc: Option<&[u8]>,
    conv: fn(T) -> J,
) -> Res {
    let r: toon_rs::Result<T> = match doc {
        Some(d) => match std::str::from_utf8(d) {
            Ok(s) => toon_rs::decode_from_str(s, o),
            Err(_) => return Res::Err("not UTF-8 (caller)".into()),
        },
        None => {
            #[cfg(feature = "std")]
            {
                toon_rs::decode_from_reader(io_seam::SimReader(ctx), o)
            }
            #[cfg(not(feature = "std"))]
            {
                let _ = ctx;
                return Res::Unsupported;
            }
        }
    };
    match r {
        Ok(t) => Res::Ok(Out::Val(conv(t))),
        Err(e) => fail(e),
    }
}

fn decode(ctx: &Ctx, target: Target, o: &toon_rs::Options, doc: Option<&[u8]>) -> Res {
    match target {
        Target::Json => {
            #[cfg(feature = "json")]
            {
                dec_one::<serde_json::Value>(ctx, o, doc, de::from_json)
            }
            #[cfg(not(feature = "json"))]
            {
                dec_one::<de::AnyT>(ctx, o, doc, |x| x.0)
            }
        }
        Target::Parse => {
            let Some(d) = doc else { return Res::Unsupported };
            let Ok(s) = std::str::from_utf8(d) else { return Res::Err("not UTF-8 (caller)".into()) };
            match toon_rs::decode::parser::parse_to_value_with_strict(s, o.strict) {
                Ok(v) => Res::Ok(Out::Val(de::from_value(v))),
                Err(e) => fail(e),
            }
        }
        #[cfg(feature = "json")]
        Target::Lax => {
            let Some(Ok(s)) = doc.as_ref().map(|d| std::str::from_utf8(d)) else { return Res::Unsupported };
            Res::Ok(Out::Val(de::from_json(toon_rs::decode::parser::parse_to_value(s))))
        }
        #[cfg(not(feature = "json"))]
        Target::Lax => Res::Unsupported,
        Target::Any => dec_one::<de::AnyT>(ctx, o, doc, |x| x.0),
        Target::Typed => dec_one::<de::TypedT>(ctx, o, doc, |x| x.0),
    }
}

static HOOK: Once = Once::new();

/// # Safety
/// Called by the simulator with pointers valid for the call.
#[no_mangle]
pub unsafe extern "C" fn node_call(
    host: *const Host,
    op: usize,
    flags: u64,
    req: *const u8,
    len: usize,
    out: *mut Buf,
) {
    HOOK.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    let saved = ARMED.with(|c| c.replace(std::ptr::null()));
    let req = Req::from_bytes(std::slice::from_raw_parts(req, len));
    let mut ctx = Ctx {
        host: *host,
        op,
        flags,
        ids: HashMap::new(),
        de_calls: Cell::new(0),
        allocs: Cell::new(0),
        live: Cell::new(0),
        peak: Cell::new(0),
        total: Cell::new(0),
    };
    let depth = DE.with(|d| d.borrow().len());
    let res = {
        if let Req::Enc { v, .. } = &req {
            if flags & F_SER_EVENTS != 0 {
                ser::number(v, &mut ctx.ids);
            }
        }
        let ctx = &ctx;
        let begun = steps::now();
        let r = catch_unwind(AssertUnwindSafe(|| match &req {
            Req::Enc { api, opts, v } => {
                let o = options(opts);
                ARMED.with(|c| c.set(ctx));
                encode(ctx, *api, &o, v)
            }
            Req::Dec { target, opts, doc, shape } => {
                let o = options(opts);
                DE.with(|d| d.borrow_mut().push((ctx, shape)));
                ARMED.with(|c| c.set(ctx));
                decode(ctx, *target, &o, doc.as_deref())
            }
        }));
        ARMED.with(|c| c.set(std::ptr::null()));
        steps::taken(begun);
        match r {
            Ok(r) => r,
            Err(p) => Res::Panic(
                p.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into()),
            ),
        }
    };
    DE.with(|d| d.borrow_mut().truncate(depth));
    let resp = Resp {
        res,
        allocs: ctx.allocs.get(),
        peak: ctx.peak.get().max(0) as u64,
        total: ctx.total.get(),
    };
    let mut b = std::mem::ManuallyDrop::new(resp.to_bytes());
    *out = Buf { ptr: b.as_mut_ptr(), len: b.len(), cap: b.capacity() };
    ARMED.with(|c| c.set(saved));
}

/// # Safety
/// `b` came from node_call.
#[no_mangle]
pub unsafe extern "C" fn node_free(b: *mut Buf) {
    let b = &*b;
    let saved = ARMED.with(|c| c.replace(std::ptr::null()));
    drop(Vec::from_raw_parts(b.ptr, b.len, b.cap));
    ARMED.with(|c| c.set(saved));
}

#[no_mangle]
pub extern "C" fn node_info() -> u64 {
    let mut f = 0;
    if cfg!(feature = "std") {
        f |= INFO_STD
    }
    if cfg!(feature = "json") {
        f |= INFO_JSON
    }
    if cfg!(feature = "direct") {
        f |= INFO_DIRECT
    }
    f
}
