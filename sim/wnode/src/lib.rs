//! A node that runs the wasm bindings (compiled natively): JSON text in, TOON
//! text out and back.
use proto::*;
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Once;

fn to_json(v: &V) -> Value {
    let fields =
        |m: &Vec<(String, V)>| Value::Object(m.iter().map(|(k, v)| (k.clone(), to_json(v))).collect());
    let arr = |a: &Vec<V>| Value::Array(a.iter().map(to_json).collect());
    let tag = |n: &String, v: Value| Value::Object([(n.clone(), v)].into_iter().collect());
    match v {
        V::Unit | V::None | V::UnitStruct => Value::Null,
        V::Bool(b) => (*b).into(),
        V::I8(x) => (*x).into(),
        V::I16(x) => (*x).into(),
        V::I32(x) => (*x).into(),
        V::I64(x) => (*x).into(),
        V::U8(x) => (*x).into(),
        V::U16(x) => (*x).into(),
        V::U32(x) => (*x).into(),
        V::U64(x) => (*x).into(),
        V::F32(x) => (f32::from_bits(*x) as f64).into(),
        V::F64(x) => f64::from_bits(*x).into(),
        V::Char(c) => c.to_string().into(),
        V::Str(s) | V::Disp(s) | V::UnitVar(s) => s.clone().into(),
        V::Bytes(b) => b.clone().into(),
        V::Some(x) | V::NtStruct(x) => to_json(x),
        V::NtVar(n, x) => tag(n, to_json(x)),
        V::Seq(_, a) | V::Tuple(a) | V::TStruct(a) => arr(a),
        V::TVar(n, a) => tag(n, arr(a)),
        V::Map(_, m) => Value::Object(m.iter().map(|(k, v)| (key_text(k), to_json(v))).collect()),
        V::Struct(m) => fields(m),
        V::SVar(n, m) => tag(n, fields(m)),
    }
}

fn from_json(v: Value) -> J {
    match v {
        Value::Null => J::Null,
        Value::Bool(b) => J::Bool(b),
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                J::Int(i as i128)
            } else if let Some(u) = n.as_u64() {
                J::Int(u as i128)
            } else {
                J::Float(n.as_f64().unwrap())
            }
        }
        Value::String(s) => J::Str(s),
        Value::Array(a) => J::Arr(a.into_iter().map(from_json).collect()),
        Value::Object(m) => J::Obj(m.into_iter().map(|(k, v)| (k, from_json(v))).collect()),
    }
}

fn deep(t: &str) -> Result<serde_json::Value, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_str(t);
    d.disable_recursion_limit();
    let v = serde::Deserialize::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}

fn run(req: &Req) -> Res {
    match req {
        Req::Enc { api: EncApi::ToString, opts, v } if opts.delim != 1 && !opts.fold && opts.indent == 2 => {
            if bad_key(v) {
                return Res::Unsupported;
            }
            let j = to_json(v).to_string();
            match toon_wasm::json_to_toon(&j, opts.delim == 2, opts.strict) {
                Ok(t) => Res::Ok(Out::Text(t)),
                Err(e) => Res::Err(e),
            }
        }
        Req::Dec { target: Target::Json, opts, doc: Some(d), .. } if !opts.expand && opts.indent == 2 => {
            let Ok(s) = std::str::from_utf8(d) else { return Res::Err("not UTF-8 (caller)".into()) };
            match toon_wasm::toon_to_json(s, opts.strict, s.len() % 2 == 0) {
                Ok(t) => match deep(&t) {
                    Ok(v) => Res::Ok(Out::Val(from_json(v))),
                    Err(e) => Res::Err(format!("bindings returned bad JSON: {e}")),
                },
                Err(e) => Res::Err(e),
            }
        }
        _ => Res::Unsupported,
    }
}

static HOOK: Once = Once::new();

/// # Safety
/// Called by the simulator with pointers valid for the call.
#[no_mangle]
pub unsafe extern "C" fn node_call(_h: *const Host, _op: usize, _f: u64, req: *const u8, len: usize, out: *mut Buf) {
    HOOK.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    let req = Req::from_bytes(std::slice::from_raw_parts(req, len));
    let res = catch_unwind(AssertUnwindSafe(|| run(&req))).unwrap_or_else(|p| {
        Res::Panic(p.downcast_ref::<String>().cloned().unwrap_or_else(|| "?".into()))
    });
    let mut b = std::mem::ManuallyDrop::new(Resp { res, allocs: 0, peak: 0, total: 0 }.to_bytes());
    *out = Buf { ptr: b.as_mut_ptr(), len: b.len(), cap: b.capacity() };
}
/// # Safety
/// `b` came from node_call.
#[no_mangle]
pub unsafe extern "C" fn node_free(b: *mut Buf) {
    let b = &*b;
    drop(Vec::from_raw_parts(b.ptr, b.len, b.cap));
}
#[no_mangle]
pub extern "C" fn node_info() -> u64 {
    INFO_WASM | INFO_JSON | INFO_STD
}
