//! What crosses the boundary between the simulator and a node (a build of the
//! real library): values, requests, responses and the seam events.

#[cfg(feature = "plan")]
use serde::{Deserialize, Serialize};

/// Length hint a Serialize implementation gives.
#[derive(Clone, Copy, Debug, PartialEq)]
#[cfg_attr(feature = "plan", derive(Serialize, Deserialize))]
pub enum Hint {
    Exact,
    Unknown,
    Lie(u64),
}

/// Everything serde can hand to a Serializer.
#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "plan", derive(Serialize, Deserialize))]
pub enum V {
    Unit,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Disp(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<V>),
    UnitStruct,
    UnitVar(String),
    NtStruct(Box<V>),
    NtVar(String, Box<V>),
    Seq(Hint, Vec<V>),
    Tuple(Vec<V>),
    TStruct(Vec<V>),
    TVar(String, Vec<V>),
    Map(Hint, Vec<(V, V)>),
    Struct(Vec<(String, V)>),
    SVar(String, Vec<(String, V)>),
}

/// The neutral data model a document denotes.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    /// A 32-bit float that was sent: read back, it must match as f32.
    F32(f32),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
#[cfg_attr(feature = "plan", derive(Serialize, Deserialize))]
pub struct Opts {
    /// 0 comma, 1 tab, 2 pipe
    pub delim: u8,
    pub strict: bool,
    pub indent: u8,
    pub fold: bool,
    /// -1: unlimited
    pub flatten: i8,
    pub expand: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { delim: 0, strict: true, indent: 2, fold: false, flatten: -1, expand: false }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[cfg_attr(feature = "plan", derive(Serialize, Deserialize))]
pub enum EncApi {
    ToString,
    SerToString,
    SerStreaming,
    EncodeValue,
    ToWriter,
    SerToWriter,
    SerWriterStreaming,
}
pub const ENC_APIS: [EncApi; 7] = [
    EncApi::ToString,
    EncApi::SerToString,
    EncApi::SerStreaming,
    EncApi::EncodeValue,
    EncApi::ToWriter,
    EncApi::SerToWriter,
    EncApi::SerWriterStreaming,
];
impl EncApi {
    pub fn is_writer(self) -> bool {
        matches!(self, EncApi::ToWriter | EncApi::SerToWriter | EncApi::SerWriterStreaming)
    }
    /// Goes through serde_json::Value before it reaches the library.
    pub fn to_string_twin(self) -> EncApi {
        match self {
            EncApi::ToWriter => EncApi::ToString,
            EncApi::SerToWriter => EncApi::SerToString,
            EncApi::SerWriterStreaming => EncApi::SerStreaming,
            a => a,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[cfg_attr(feature = "plan", derive(Serialize, Deserialize))]
pub enum Target {
    /// serde_json::Value
    Json,
    /// a Deserialize implementation that takes whatever comes
    Any,
    /// a Deserialize implementation that asks for the shape of a given value
    Typed,
    /// the parser itself, below the checks of the decoder
    Parse,
    /// the parser's public entry point that has no way to report an error
    Lax,
}

/// What a node is asked to do.
#[derive(Clone, Debug, PartialEq)]
pub enum Req {
    Enc { api: EncApi, opts: Opts, v: V },
    /// `doc` is None: read from the reader seam
    Dec { target: Target, opts: Opts, doc: Option<Vec<u8>>, shape: V },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Text(String),
    Val(J),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Out),
    /// kind (Debug of io::ErrorKind), raw os error or -1, text
    ErrIo(String, i64, String),
    Err(String),
    Panic(String),
    /// the node's build does not have this entry point
    Unsupported,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Resp {
    pub res: Res,
    pub allocs: u64,
    pub peak: u64,
    pub total: u64,
}

// ---- seam events -------------------------------------------------------
pub const EV_WRITE: u32 = 1;
pub const EV_FLUSH: u32 = 2;
pub const EV_READ: u32 = 3;
pub const EV_SER: u32 = 4;
pub const EV_DE: u32 = 5;
pub const EV_ALLOC: u32 = 6;

/// Returned by the simulator at an event.
pub const ACT_OK: i64 = 0;
pub const ACT_ERR: i64 = -1;
pub const ACT_PANIC: i64 = -2;
/// consumer: stop reading this container early
pub const ACT_STOP: i64 = -3;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Host {
    /// (op, kind, a, buf, len, aux) -> action
    pub event: extern "C" fn(usize, u32, u64, *mut u8, usize, *mut u64) -> i64,
}

pub const F_ALLOC_EVENTS: u64 = 1;
pub const F_SER_EVENTS: u64 = 2;
pub const F_DE_EVENTS: u64 = 4;

#[repr(C)]
pub struct Buf {
    pub ptr: *mut u8,
    pub len: usize,
    pub cap: usize,
}

pub type NodeCall = unsafe extern "C" fn(*const Host, usize, u64, *const u8, usize, *mut Buf);
pub type NodeFree = unsafe extern "C" fn(*mut Buf);
pub type NodeInfo = unsafe extern "C" fn() -> u64;

pub const INFO_STD: u64 = 1;
pub const INFO_JSON: u64 = 2;
pub const INFO_DIRECT: u64 = 4;
pub const INFO_WASM: u64 = 8;

// io error codes carried in aux
pub const IO_CODES: [(u64, &str); 10] = [
    (1, "Other"),
    (2, "BrokenPipe"),
    (3, "ENOSPC"),
    (4, "EIO"),
    (5, "WouldBlock"),
    (6, "TimedOut"),
    (7, "PermissionDenied"),
    (8, "UnexpectedEof"),
    (9, "EDQUOT"),
    (10, "ConnectionReset"),
];
pub const IO_INTERRUPTED: u64 = 100;

/// The text of an injected failure: short, long, several lines, awkward characters.
pub const FAILURE_STYLES: u64 = 6;
pub fn failure_text(what: &str, id: u64, style: u64) -> String {
    let t = format!("simulated-{what}-failure-{id}");
    match style {
        1 => format!("{t}: {}", "the reason is given at length, ".repeat(3 + (id as usize * 7) % 9)),
        2 => format!("{}{t}", "details, ".repeat(8 + (id as usize * 5) % 40)),
        3 => format!("l\u{ed}nea 1: {{}} %s {{0}}\n  \"l\u{ed}nea\" 2\\n\t{t} \u{65e5}\u{672c}: io error: x"),
        4 => format!("line 3: column 4: invalid value: {t}\n"),
        5 => format!("\u{e9}{}{t}\u{1F600}", "\u{e9}\u{65e5}".repeat(20 + (id as usize) % 20)),
        _ => t,
    }
}

pub fn make_io_error(code: u64, id: u64) -> std::io::Error {
    let (code, style) = (code & 0xff, code >> 8);
    use std::io::{Error, ErrorKind};
    let k = match code {
        IO_INTERRUPTED => ErrorKind::Interrupted,
        2 => ErrorKind::BrokenPipe,
        3 => return Error::from_raw_os_error(28),
        4 => return Error::from_raw_os_error(5),
        5 => ErrorKind::WouldBlock,
        6 => ErrorKind::TimedOut,
        7 => ErrorKind::PermissionDenied,
        8 => ErrorKind::UnexpectedEof,
        9 => return Error::from_raw_os_error(122),
        10 => ErrorKind::ConnectionReset,
        _ => ErrorKind::Other,
    };
    Error::new(k, failure_text("io", id, style))
}

// ---- codec ---------------------------------------------------------------
#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(&mut self, x: u8) {
        self.0.push(x)
    }
    pub fn u64(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes())
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u64(b.len() as u64);
        self.0.extend_from_slice(b)
    }
    pub fn str(&mut self, s: &str) {
        self.bytes(s.as_bytes())
    }
}
pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    pub fn u8(&mut self) -> u8 {
        let x = self.0[0];
        self.0 = &self.0[1..];
        x
    }
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn bytes(&mut self) -> &'a [u8] {
        let n = self.u64() as usize;
        self.take(n)
    }
    pub fn str(&mut self) -> String {
        String::from_utf8(self.bytes().to_vec()).expect("utf8")
    }
}

pub trait Codec: Sized {
    fn put(&self, w: &mut W);
    fn get(r: &mut R) -> Self;
    fn to_bytes(&self) -> Vec<u8> {
        let mut w = W::default();
        self.put(&mut w);
        w.0
    }
    fn from_bytes(b: &[u8]) -> Self {
        Self::get(&mut R(b))
    }
}
impl<T: Codec> Codec for Vec<T> {
    fn put(&self, w: &mut W) {
        w.u64(self.len() as u64);
        for x in self {
            x.put(w)
        }
    }
    fn get(r: &mut R) -> Self {
        let n = r.u64();
        (0..n).map(|_| T::get(r)).collect()
    }
}
impl<A: Codec, B: Codec> Codec for (A, B) {
    fn put(&self, w: &mut W) {
        self.0.put(w);
        self.1.put(w)
    }
    fn get(r: &mut R) -> Self {
        let a = A::get(r);
        let b = B::get(r);
        (a, b)
    }
}
impl Codec for String {
    fn put(&self, w: &mut W) {
        w.str(self)
    }
    fn get(r: &mut R) -> Self {
        r.str()
    }
}
impl Codec for Hint {
    fn put(&self, w: &mut W) {
        match self {
            Hint::Exact => w.u8(0),
            Hint::Unknown => w.u8(1),
            Hint::Lie(n) => {
                w.u8(2);
                w.u64(*n)
            }
        }
    }
    fn get(r: &mut R) -> Self {
        match r.u8() {
            0 => Hint::Exact,
            1 => Hint::Unknown,
            _ => Hint::Lie(r.u64()),
        }
    }
}
impl Codec for V {
    fn put(&self, w: &mut W) {
        match self {
            V::Unit => w.u8(0),
            V::Bool(b) => {
                w.u8(1);
                w.u8(*b as u8)
            }
            V::I8(x) => {
                w.u8(2);
                w.u64(*x as i64 as u64)
            }
            V::I16(x) => {
                w.u8(3);
                w.u64(*x as i64 as u64)
            }
            V::I32(x) => {
                w.u8(4);
                w.u64(*x as i64 as u64)
            }
            V::I64(x) => {
                w.u8(5);
                w.u64(*x as u64)
            }
            V::U8(x) => {
                w.u8(6);
                w.u64(*x as u64)
            }
            V::U16(x) => {
                w.u8(7);
                w.u64(*x as u64)
            }
            V::U32(x) => {
                w.u8(8);
                w.u64(*x as u64)
            }
            V::U64(x) => {
                w.u8(9);
                w.u64(*x)
            }
            V::F32(x) => {
                w.u8(10);
                w.u64(*x as u64)
            }
            V::F64(x) => {
                w.u8(11);
                w.u64(*x)
            }
            V::Char(c) => {
                w.u8(12);
                w.u64(*c as u64)
            }
            V::Str(s) => {
                w.u8(13);
                w.str(s)
            }
            V::Disp(s) => {
                w.u8(14);
                w.str(s)
            }
            V::Bytes(b) => {
                w.u8(15);
                w.bytes(b)
            }
            V::None => w.u8(16),
            V::Some(v) => {
                w.u8(17);
                v.put(w)
            }
            V::UnitStruct => w.u8(18),
            V::UnitVar(s) => {
                w.u8(19);
                w.str(s)
            }
            V::NtStruct(v) => {
                w.u8(20);
                v.put(w)
            }
            V::NtVar(s, v) => {
                w.u8(21);
                w.str(s);
                v.put(w)
            }
            V::Seq(h, a) => {
                w.u8(22);
                h.put(w);
                a.put(w)
            }
            V::Tuple(a) => {
                w.u8(23);
                a.put(w)
            }
            V::TStruct(a) => {
                w.u8(24);
                a.put(w)
            }
            V::TVar(s, a) => {
                w.u8(25);
                w.str(s);
                a.put(w)
            }
            V::Map(h, m) => {
                w.u8(26);
                h.put(w);
                m.put(w)
            }
            V::Struct(m) => {
                w.u8(27);
                m.put(w)
            }
            V::SVar(s, m) => {
                w.u8(28);
                w.str(s);
                m.put(w)
            }
        }
    }
    fn get(r: &mut R) -> Self {
        match r.u8() {
            0 => V::Unit,
            1 => V::Bool(r.u8() != 0),
            2 => V::I8(r.u64() as i8),
            3 => V::I16(r.u64() as i16),
            4 => V::I32(r.u64() as i32),
            5 => V::I64(r.u64() as i64),
            6 => V::U8(r.u64() as u8),
            7 => V::U16(r.u64() as u16),
            8 => V::U32(r.u64() as u32),
            9 => V::U64(r.u64()),
            10 => V::F32(r.u64() as u32),
            11 => V::F64(r.u64()),
            12 => V::Char(char::from_u32(r.u64() as u32).unwrap()),
            13 => V::Str(r.str()),
            14 => V::Disp(r.str()),
            15 => V::Bytes(r.bytes().to_vec()),
            16 => V::None,
            17 => V::Some(Box::new(V::get(r))),
            18 => V::UnitStruct,
            19 => V::UnitVar(r.str()),
            20 => V::NtStruct(Box::new(V::get(r))),
            21 => {
                let s = r.str();
                V::NtVar(s, Box::new(V::get(r)))
            }
            22 => {
                let h = Hint::get(r);
                V::Seq(h, Vec::get(r))
            }
            23 => V::Tuple(Vec::get(r)),
            24 => V::TStruct(Vec::get(r)),
            25 => {
                let s = r.str();
                V::TVar(s, Vec::get(r))
            }
            26 => {
                let h = Hint::get(r);
                V::Map(h, Vec::get(r))
            }
            27 => V::Struct(Vec::get(r)),
            28 => {
                let s = r.str();
                V::SVar(s, Vec::get(r))
            }
            t => panic!("bad V tag {t}"),
        }
    }
}
impl Codec for J {
    fn put(&self, w: &mut W) {
        match self {
            J::Null => w.u8(0),
            J::Bool(b) => {
                w.u8(1);
                w.u8(*b as u8)
            }
            J::Int(i) => {
                w.u8(2);
                w.0.extend_from_slice(&i.to_le_bytes())
            }
            J::Float(f) => {
                w.u8(3);
                w.u64(f.to_bits())
            }
            J::Str(s) => {
                w.u8(4);
                w.str(s)
            }
            J::Arr(a) => {
                w.u8(5);
                a.put(w)
            }
            J::Obj(m) => {
                w.u8(6);
                m.put(w)
            }
            J::F32(f) => {
                w.u8(7);
                w.u64(f.to_bits() as u64)
            }
        }
    }
    fn get(r: &mut R) -> Self {
        match r.u8() {
            0 => J::Null,
            1 => J::Bool(r.u8() != 0),
            2 => J::Int(i128::from_le_bytes(r.take(16).try_into().unwrap())),
            3 => J::Float(f64::from_bits(r.u64())),
            4 => J::Str(r.str()),
            5 => J::Arr(Vec::get(r)),
            6 => J::Obj(Vec::get(r)),
            7 => J::F32(f32::from_bits(r.u64() as u32)),
            t => panic!("bad J tag {t}"),
        }
    }
}
impl Codec for Opts {
    fn put(&self, w: &mut W) {
        w.u8(self.delim);
        w.u8(self.strict as u8);
        w.u8(self.indent);
        w.u8(self.fold as u8);
        w.u8(self.flatten as u8);
        w.u8(self.expand as u8);
    }
    fn get(r: &mut R) -> Self {
        Opts {
            delim: r.u8(),
            strict: r.u8() != 0,
            indent: r.u8(),
            fold: r.u8() != 0,
            flatten: r.u8() as i8,
            expand: r.u8() != 0,
        }
    }
}
impl Codec for Req {
    fn put(&self, w: &mut W) {
        match self {
            Req::Enc { api, opts, v } => {
                w.u8(0);
                w.u8(ENC_APIS.iter().position(|a| a == api).unwrap() as u8);
                opts.put(w);
                v.put(w)
            }
            Req::Dec { target, opts, doc, shape } => {
                w.u8(1);
                w.u8(*target as u8);
                opts.put(w);
                match doc {
                    None => w.u8(0),
                    Some(d) => {
                        w.u8(1);
                        w.bytes(d)
                    }
                }
                shape.put(w)
            }
        }
    }
    fn get(r: &mut R) -> Self {
        match r.u8() {
            0 => Req::Enc { api: ENC_APIS[r.u8() as usize], opts: Opts::get(r), v: V::get(r) },
            _ => Req::Dec {
                target: [Target::Json, Target::Any, Target::Typed, Target::Parse, Target::Lax][r.u8() as usize],
                opts: Opts::get(r),
                doc: if r.u8() == 0 { None } else { Some(r.bytes().to_vec()) },
                shape: V::get(r),
            },
        }
    }
}
impl Codec for Resp {
    fn put(&self, w: &mut W) {
        match &self.res {
            Res::Ok(Out::Unit) => w.u8(0),
            Res::Ok(Out::Text(s)) => {
                w.u8(1);
                w.str(s)
            }
            Res::Ok(Out::Val(j)) => {
                w.u8(2);
                j.put(w)
            }
            Res::ErrIo(k, n, s) => {
                w.u8(3);
                w.str(k);
                w.u64(*n as u64);
                w.str(s)
            }
            Res::Err(s) => {
                w.u8(4);
                w.str(s)
            }
            Res::Panic(s) => {
                w.u8(5);
                w.str(s)
            }
            Res::Unsupported => w.u8(6),
        }
        w.u64(self.allocs);
        w.u64(self.peak);
        w.u64(self.total);
    }
    fn get(r: &mut R) -> Self {
        let res = match r.u8() {
            0 => Res::Ok(Out::Unit),
            1 => Res::Ok(Out::Text(r.str())),
            2 => Res::Ok(Out::Val(J::get(r))),
            3 => {
                let k = r.str();
                let n = r.u64() as i64;
                Res::ErrIo(k, n, r.str())
            }
            4 => Res::Err(r.str()),
            5 => Res::Panic(r.str()),
            _ => Res::Unsupported,
        };
        Resp { res, allocs: r.u64(), peak: r.u64(), total: r.u64() }
    }
}

/// The text of a map key.
pub fn key_text(k: &V) -> String {
    let float = |f: f64| {
        if !f.is_finite() {
            "null".to_string()
        } else if f == 0.0 {
            "0".to_string()
        } else {
            f.to_string()
        }
    };
    match k {
        V::Str(s) | V::Disp(s) | V::UnitVar(s) => s.clone(),
        V::Char(c) => c.to_string(),
        V::Bool(b) => b.to_string(),
        V::I8(x) => x.to_string(),
        V::I16(x) => x.to_string(),
        V::I32(x) => x.to_string(),
        V::I64(x) => x.to_string(),
        V::U8(x) => x.to_string(),
        V::U16(x) => x.to_string(),
        V::U32(x) => x.to_string(),
        V::U64(x) => x.to_string(),
        V::F32(b) => float(f32::from_bits(*b) as f64),
        V::F64(b) => float(f64::from_bits(*b)),
        V::Unit | V::UnitStruct | V::None => "null".to_string(),
        V::Some(x) | V::NtStruct(x) => key_text(x),
        // never a key in any document
        _ => "?".to_string(),
    }
}

/// Could this be a key of a map in a document?
pub fn key_fits(k: &V) -> bool {
    match k {
        V::Bytes(_) | V::NtVar(..) | V::Seq(..) | V::Tuple(_) | V::TStruct(_) | V::TVar(..) => false,
        V::Map(..) | V::Struct(_) | V::SVar(..) => false,
        V::Some(x) | V::NtStruct(x) => key_fits(x),
        _ => true,
    }
}

/// Is there a key that no document can have?
pub fn bad_key(v: &V) -> bool {
    any_part(v, &|x| matches!(x, V::Map(_, m) if m.iter().any(|(k, _)| !key_fits(k))))
}
pub fn any_part(v: &V, f: &dyn Fn(&V) -> bool) -> bool {
    f(v) || match v {
        V::Some(x) | V::NtStruct(x) | V::NtVar(_, x) => any_part(x, f),
        V::Seq(_, a) | V::Tuple(a) | V::TStruct(a) | V::TVar(_, a) => a.iter().any(|x| any_part(x, f)),
        V::Map(_, m) => m.iter().any(|(_, x)| any_part(x, f)),
        V::Struct(m) | V::SVar(_, m) => m.iter().any(|x| any_part(&x.1, f)),
        _ => false,
    }
}
