//! Workload generation. Every run draws its own mix (swarm style).
use crate::plan::*;
use crate::rng::Rng;
use proto::*;
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub depth: u64,
    pub width: u64,
    pub odd_str: u64,
    pub odd_key: u64,
    pub odd_num: u64,
    pub typed: u64,
    pub tables: u64,
    pub dots: bool,
    /// folding together with names that look folded
    pub collide: bool,
    pub unique_arrays: bool,
    pub plain_scalars: bool,
    pub lies: bool,
    /// keys no document can have
    pub bad_keys: bool,
    pub str_class: u64,
    /// large tables, long arrays, long texts, deep chains
    pub scale: bool,
    pub deep: bool,
    /// percentage of names and texts derived from earlier ones
    pub again: u64,
    pub counter: u64,
    pub pool: RefCell<Vec<String>>,
}

impl Cfg {
    pub fn swarm(r: &mut Rng) -> Cfg {
        let collide = r.one_in(8);
        Cfg {
            depth: *r.pick(&[1, 2, 2, 3, 3, 4, 6]),
            width: *r.pick(&[2, 3, 3, 4, 6]),
            odd_str: *r.pick(&[0, 10, 30, 60, 90]),
            odd_key: *r.pick(&[0, 0, 10, 40]),
            odd_num: *r.pick(&[0, 20, 60]),
            typed: *r.pick(&[0, 10, 30]),
            tables: *r.pick(&[5, 20, 50]),
            dots: collide || r.one_in(3),
            collide,
            unique_arrays: false,
            plain_scalars: false,
            lies: false,
            bad_keys: false,
            str_class: r.below(12),
            scale: r.one_in(24),
            deep: false,
            again: *r.pick(&[0, 0, 10, 40]),
            counter: 0,
            pool: RefCell::new(Vec::new()),
        }
    }
}

const WORDS: [&str; 16] = [
    "a", "b", "id", "name", "value", "alpha", "Beta", "x1", "user_name", "hello world", "items", "data", "longer text here", "z",
    "n", "key",
];
const ODD: [&str; 112] = [
    "~", "nil", "None", "TRUE", "False", "yes", "no", "on", "off", "undefined", "0b1", "0o7", "!", "&a", "*a", "---",
    "", " ", "  ", " lead", "trail ", "true", "false", "null", "True", "NULL", "0", "-0", "00", "05", "-05", "1", "-1", "1.0", "1.50",
    ".5", "5.", "1e5", "1E5", "1e+5", "1e-7", "-1e5", "+1", "+", "-", "--", "- ", "- x", "-x", "- 1", "NaN", "Infinity",
    "-Infinity", "inf", "nan", "0x1F", "1_000", "1,2", "a,b", "a|b", "a\tb", ",", "|", "\t", ":", "a:b", "a: b", "key: value",
    "[", "]", "[3]", "[2]: a,b", "[1]:", "{", "}", "{a}", "{a,b}", "x[2]{a,b}:", "k[1]:", "#", "# c", "@", "@,a,b", "@|", "\"",
    "\"\"", "\"a\"", "a\"b", "\\", "\\n", "a\\", "\n", "a\nb", "\r", "a\r\nb", "\u{0}", "\u{1f}", "\u{7f}", "\u{85}", "\u{a0}",
    "\u{2028}", "\u{3000}x", "\u{feff}bom", "\u{200b}", "\u{e9}", "\u{65e5}\u{672c}", "\u{1F600}", "e\u{301}", "'", "/", "%", "?",
];
const PIECES: [&str; 40] = [
    "a", "b", " ", "\u{e9}", "0", "1", ".", "e", "-", "+", ":", ",", "|", "\t", "\n", "\r", "\"", "\\", "[", "]", "{", "}", "#", "@",
    "true", "null", "NaN", "/", "\u{0}", "\u{8}", "\u{c}", "\u{7f}", "\u{2028}", "\u{a0}", "\u{1F600}", "_", "E", "9", "x", "\u{1b}",
];

const LONG: [&str; 12] = [
    "measurement", "temperature_celsius", "customer-reference", "The quick brown fox jumps over the lazy dog", "AAAA", "_internal",
    "2024-01-15T10:30:00Z", "https://example.com/a?b=c", "user@example.com", "Stra\u{df}e", "x", "550e8400-e29b-41d4-a716-446655440000",
];

/// Sizes at which code tends to change its ways.
pub fn threshold(r: &mut Rng, max: u64) -> u64 {
    let b = *r.pick(&[8u64, 10, 16, 24, 32, 48, 64, 100, 128, 256, 512, 1000, 1024, 4096]);
    (b + r.below(3) - 1).min(max)
}

fn word(r: &mut Rng) -> String {
    if !r.one_in(6) {
        return r.pick(&WORDS).to_string();
    }
    let n = r.range(1, 3);
    let sep = *r.pick(&["_", " ", "-", "", "_"]);
    (0..n).map(|_| if r.one_in(2) { *r.pick(&LONG) } else { *r.pick(&WORDS) }).collect::<Vec<_>>().join(sep)
}

/// Much the same as an earlier text.
fn again(r: &mut Rng, s: &str) -> String {
    let mut t: Vec<char> = s.chars().collect();
    let with = *r.pick(&['a', 'B', '1', '0', '_', ' ', ',', ':', '"', '\\', '-', '\u{e9}']);
    match r.below(10) {
        0 if !t.is_empty() => t[0] = with,
        1 if !t.is_empty() => *t.last_mut().unwrap() = with,
        2 if !t.is_empty() => {
            let i = r.idx(t.len());
            t[i] = with
        }
        3 => t.push(with),
        4 => t.insert(0, with),
        5 => {
            t.pop();
        }
        6 => {
            let n = t.len();
            t.truncate(n / 2)
        }
        7 => {
            t = s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
        }
        8 if t.len() > 1 => {
            let n = t.len();
            t.swap(n - 1, n / 2)
        }
        _ => {}
    }
    t.truncate(400);
    t.into_iter().collect()
}

fn pooled(r: &mut Rng, c: &Cfg, fresh: impl FnOnce(&mut Rng) -> String) -> String {
    let mut pool = c.pool.borrow_mut();
    let s = if !pool.is_empty() && r.pct(c.again) {
        let s = pool[r.idx(pool.len())].clone();
        again(r, &s)
    } else {
        fresh(r)
    };
    if s.len() <= 200 {
        if pool.len() < 24 {
            pool.push(s.clone());
        } else {
            let i = r.idx(24);
            pool[i] = s.clone();
        }
    }
    s
}

pub fn string(r: &mut Rng, c: &Cfg) -> String {
    pooled(r, c, |r| {
        if c.scale && r.one_in(20) {
            // one kind of character, with another one somewhere
            let n = threshold(r, 5000) as usize;
            let mut s = r.pick(&["x", "\u{e9}", "\\", "9", " ", "\u{1F600}", "ab "]).repeat(n);
            let cut = s.char_indices().map(|x| x.0).nth(n.saturating_sub(r.log(n as u64) as usize)).unwrap_or(s.len());
            s.insert_str(cut, r.pick(&PIECES));
            s
        } else if !r.pct(c.odd_str) {
            word(r)
        } else {
            odd_string(r, c)
        }
    })
}
/// Number look-alikes.
fn number_text(r: &mut Rng) -> String {
    let d = |r: &mut Rng| {
        let n = if r.one_in(8) { r.range(5, 25) } else { r.range(1, 4) };
        (0..n).map(|_| *r.pick(&["0", "1", "7", "9"])).collect::<String>()
    };
    let mut s = String::new();
    if r.one_in(3) {
        s.push_str(r.pick(&["-", "+", "--"]));
    }
    s.push_str(&d(r));
    if r.one_in(2) {
        s.push('.');
        if !r.one_in(4) {
            s.push_str(&d(r));
        }
    }
    if r.one_in(2) {
        s.push_str(r.pick(&["e", "E", "e-", "e+", "E+"]));
        if !r.one_in(4) {
            s.push_str(&d(r));
        }
    }
    if r.one_in(8) {
        s.push_str(r.pick(&[" ", "_", "f", "%", "L"]));
    }
    s
}
fn odd_string(r: &mut Rng, c: &Cfg) -> String {
    match r.below(10) {
        0..=4 => r.pick(&ODD).to_string(),
        5 | 6 => {
            let n = r.range(1, 6);
            (0..n).map(|_| *r.pick(&PIECES)).collect()
        }
        7 => {
            // decorated odd token
            let a = r.pick(&ODD);
            let b = if r.one_in(2) { *r.pick(&ODD) } else { *r.pick(&WORDS) };
            format!("{a}{b}")
        }
        8 => number_text(r),
        _ => {
            let ch = match c.str_class {
                0 => "\u{e9}",
                1 => "\\",
                2 => "\"",
                3 => "\n",
                4 => ",",
                5 => "\u{1F600}",
                6 => " ",
                _ => "x",
            };
            ch.repeat(r.log(60) as usize)
        }
    }
}

pub fn key(r: &mut Rng, c: &Cfg) -> String {
    let mut k = if r.pct(c.again) || r.pct(c.odd_key) {
        let odd = r.pct(c.odd_key);
        pooled(r, c, |r| if odd { odd_string(r, c) } else { word(r) })
    } else if c.dots && r.one_in(6) {
        let n = r.range(2, 3);
        (0..n).map(|_| *r.pick(&["a", "b", "id", "x1"])).collect::<Vec<_>>().join(".")
    } else {
        word(r)
    };
    if !c.dots {
        k = k.replace('.', "-");
    }
    // names of this kind belong to the unique arrays
    if crate::model::is_array_key(&k) {
        k.push('_');
    }
    k
}

const INTS: [i64; 24] = [
    0, 1, -1, 7, 10, 42, -42, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 65535, 65536, 2147483647, -2147483648, 4294967296,
    9007199254740993, i64::MAX, i64::MIN,
];
const FLOATS: [f64; 36] = [
    0.0, -0.0, 0.5, -0.5, 1.0, 1.5, 0.1, 0.2, 0.30000000000000004, 1e-7, 1.5e-9, 5e-324, 2.2250738585072014e-308, 1e15, 1e16, 1e17,
    1e20, 1e21, 1e22, 123456789012345680000.0, 1.7976931348623157e308, -1.7976931348623157e308, 9007199254740992.0,
    9007199254740993.0, 18446744073709551615.0, 18446744073709551616.0, -9223372036854775808.0, 3.141592653589793, 100.0, 1e2, 1e-5,
    0.000001, 123456.789, -1e-10, 4.35, 2.5e10,
];

fn float(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 | 1 => *r.pick(&FLOATS),
        2 => (r.below(2000) as f64 - 1000.0) / 8.0,
        3 => (r.next() as i64 as f64) / 10f64.powi(r.below(30) as i32),
        4 => r.below(1000000) as f64 / 100.0,
        _ => {
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                f
            } else {
                1.25
            }
        }
    }
}

pub fn number(r: &mut Rng, c: &Cfg) -> V {
    if !r.pct(c.odd_num) {
        return if r.one_in(2) { V::I64(r.below(1000) as i64) } else { V::U64(r.below(100)) };
    }
    match r.below(17) {
        14 => {
            // around powers of ten and two
            let p = if r.one_in(2) { 10u64.pow(r.below(20) as u32) } else { 1 << r.below(64) };
            let x = p.wrapping_add(r.below(3)).wrapping_sub(1);
            match r.below(3) {
                0 if x <= i64::MAX as u64 => V::I64(-(x as i64)),
                1 => V::F64((x as f64).to_bits()),
                _ => V::U64(x),
            }
        }
        15 => {
            // a few digits and a decimal point somewhere
            let m = r.log(1_000_000_000_000_000_00) as f64;
            let f = m / 10f64.powi(r.below(24) as i32);
            V::F64(if r.one_in(3) { -f } else { f }.to_bits())
        }
        16 => {
            let f = format!("{}e{}", r.log(1_000_000_000), r.below(340) as i64 - 170).parse::<f64>().unwrap();
            V::F64(if r.one_in(3) { -f } else { f }.to_bits())
        }
        0 => V::I8(r.next() as i8),
        1 => V::I16(r.next() as i16),
        2 => V::I32(r.next() as i32),
        3 => V::I64(*r.pick(&INTS)),
        4 => V::I64(r.next() as i64),
        5 => V::U8(r.next() as u8),
        6 => V::U16(r.next() as u16),
        7 => V::U32(r.next() as u32),
        8 => V::U64(r.next()),
        9 => V::U64(*r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 53, 10000000000000000000])),
        10 => {
            let f = match r.below(4) {
                0 => *r.pick(&[0.1f32, 3.4028235e38, 1e-45, 16777216.0, -0.0, 1.5, 0.3, 1e10]),
                1 => f32::from_bits(r.next() as u32),
                _ => r.below(1000) as f32 / 8.0,
            };
            V::F32(if f.is_finite() { f } else { 2.5 }.to_bits())
        }
        11 if r.one_in(4) => V::F64(r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]).to_bits()),
        _ => V::F64(float(r).to_bits()),
    }
}

pub fn scalar(r: &mut Rng, c: &Cfg) -> V {
    if c.plain_scalars {
        return match r.below(4) {
            0 => V::I64(r.below(1000) as i64),
            1 => V::Bool(r.one_in(2)),
            _ => V::Str(string(r, c)),
        };
    }
    match r.below(20) {
        0 => V::Unit,
        1 | 2 => V::Bool(r.one_in(2)),
        3..=8 => number(r, c),
        9 if r.pct(c.typed * 2) => V::None,
        10 if r.pct(c.typed * 2) => V::Char(*r.pick(&['a', ' ', ',', '\n', '"', '\\', '1', '-', '\u{e9}', '\u{1F600}', ':', '\t', '|'])),
        11 if r.pct(c.typed * 2) => V::UnitVar(string(r, c)),
        12 if r.pct(c.typed) => V::UnitStruct,
        13 if r.pct(c.typed) => V::Disp(string(r, c)),
        _ => V::Str(string(r, c)),
    }
}

fn hint(r: &mut Rng, c: &Cfg) -> Hint {
    if c.lies && r.one_in(2) {
        return match r.below(4) {
            0 => Hint::Unknown,
            1 => Hint::Lie(0),
            2 => Hint::Lie(r.log(1 << 40)),
            _ => Hint::Lie(*r.pick(&[u64::MAX, u64::MAX / 2, 1 << 62, 1 << 33, 100_000_000])),
        };
    }
    if r.one_in(3) {
        Hint::Unknown
    } else {
        Hint::Exact
    }
}

fn unique_keys(r: &mut Rng, c: &Cfg, n: u64) -> Vec<String> {
    let mut ks: Vec<String> = Vec::new();
    for _ in 0..n {
        let mut k = key(r, c);
        let mut tries = 0;
        while ks.contains(&k) {
            k = if tries < 3 { key(r, c) } else { format!("{k}{tries}") };
            tries += 1;
        }
        ks.push(k);
    }
    ks
}

fn is_arrayish(v: &V) -> bool {
    match v {
        V::Seq(..) | V::Tuple(_) | V::TStruct(_) | V::Bytes(_) => true,
        V::Some(x) | V::NtStruct(x) => is_arrayish(x),
        _ => false,
    }
}

const KEY_KINDS: u64 = 21;
/// Can this float be written with equally few digits in two ways? Then either is right,
/// and a key is compared as text.
fn two_ways(f: f64) -> bool {
    let e = format!("{f:e}");
    let Some((m, x)) = e.split_once('e') else { return false };
    let neg = m.starts_with('-');
    let digits: String = m.chars().filter(|c| c.is_ascii_digit()).collect();
    let (Ok(d), Ok(x)) = (digits.parse::<u64>(), x.parse::<i32>()) else { return false };
    let x = x - (digits.len() as i32 - 1);
    [d.wrapping_sub(1), d + 1].iter().any(|d| format!("{}{d}e{x}", if neg { "-" } else { "" }).parse() == Ok(f))
}

fn map_key(r: &mut Rng, c: &Cfg, kind: u64, k: String) -> V {
    match map_key_any(r, c, kind, k) {
        V::F64(b) if two_ways(f64::from_bits(b)) => V::F64(3f64.to_bits()),
        V::F32(b) if two_ways(f32::from_bits(b) as f64) => V::F32(3f32.to_bits()),
        v => v,
    }
}
fn map_key_any(r: &mut Rng, c: &Cfg, kind: u64, k: String) -> V {
    if c.bad_keys && r.one_in(12) {
        let x = V::Str(k.clone());
        return match r.below(8) {
            0 => V::Bytes(k.into_bytes()),
            1 => V::Seq(Hint::Exact, vec![x]),
            2 => V::Tuple(vec![x, V::U64(1)]),
            3 => V::NtVar("v".into(), Box::new(x)),
            4 => V::Map(Hint::Exact, vec![(x, V::U64(1))]),
            5 => V::Struct(vec![(k, V::U64(1))]),
            6 => V::TStruct(vec![]),
            _ => V::Some(Box::new(V::Seq(Hint::Unknown, vec![]))),
        };
    }
    // a fraction has a dot
    let whole = |f: f64| if c.dots { f } else { f.trunc() };
    match kind {
        0 => V::I8(r.next() as i8),
        1 => V::I16(r.next() as i16),
        2 => V::I32(if r.one_in(2) { r.below(200) as i32 - 100 } else { r.next() as i32 }),
        3 => V::I64(if r.one_in(2) { *r.pick(&INTS) } else { r.next() as i64 }),
        4 => V::U8(r.next() as u8),
        5 => V::U16(r.next() as u16),
        6 => V::U32(r.log(1 << 32) as u32),
        7 => V::U64(if r.one_in(2) { r.next() } else { r.below(20) }),
        8 => V::F64(whole(float(r)).to_bits()),
        9 => {
            let f = if r.one_in(2) { r.below(1000) as f32 / 8.0 } else { f32::from_bits(r.next() as u32) };
            V::F32(if c.dots || !f.is_finite() { f } else { f.trunc() }.to_bits())
        }
        10 => V::F64(whole(r.below(100) as f64 / 4.0).to_bits()),
        11 => V::Char(*r.pick(&['k', ' ', '"', '1', '\u{e9}', '-', '\n', ':', '\\', '\u{1F600}'])),
        12 => V::UnitVar(k),
        13 => V::Bool(r.one_in(2)),
        14 => V::Some(Box::new(V::Str(k))),
        15 => V::NtStruct(Box::new(V::Str(k))),
        16 => V::NtStruct(Box::new(V::U32(r.below(1000) as u32))),
        17 => V::Disp(k),
        18 => match r.below(6) {
            0 => V::Unit,
            1 => V::None,
            2 => V::UnitStruct,
            3 => V::F64(r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]).to_bits()),
            4 => V::F32(f32::NAN.to_bits()),
            _ => V::Some(Box::new(V::I64(r.below(9) as i64))),
        },
        19 => V::NtStruct(Box::new(V::Some(Box::new(V::UnitVar(k))))),
        _ => V::Str(k),
    }
}

fn make_obj(r: &mut Rng, c: &mut Cfg, mut fields: Vec<(String, V)>) -> V {
    if c.unique_arrays {
        for (k, v) in fields.iter_mut() {
            if is_arrayish(v) {
                c.counter += 1;
                *k = format!("kk{}", c.counter);
            }
        }
    }
    if c.collide && !c.unique_arrays {
        collide(r, c, &mut fields);
    }
    match r.below(100) {
        x if x < c.typed => V::Struct(fields),
        x if x < c.typed + c.typed / 2 => {
            // map with other types of keys
            let kind = if r.one_in(4) { None } else { Some(r.below(KEY_KINDS)) };
            let mut seen: Vec<String> = Vec::new();
            let mut m = Vec::new();
            for (k, v) in fields {
                let kv = if c.unique_arrays && crate::model::is_array_key(&k) {
                    V::Str(k)
                } else {
                    let kind = kind.unwrap_or_else(|| r.below(KEY_KINDS));
                    map_key(r, c, kind, k)
                };
                let t = crate::model::key_text(&kv);
                if !seen.contains(&t) {
                    seen.push(t);
                    m.push((kv, v));
                }
            }
            V::Map(hint(r, c), m)
        }
        _ => V::Map(hint(r, c), fields.into_iter().map(|(k, v)| (V::Str(k), v)).collect()),
    }
}

/// Fields that would meet if one of them was folded.
fn collide(r: &mut Rng, c: &mut Cfg, fields: &mut Vec<(String, V)>) {
    let seg = |r: &mut Rng| r.pick(&["a", "b", "id", "x1", "a-b", "0", ""]).to_string();
    for f in fields.iter_mut() {
        if r.one_in(3) {
            for _ in 0..r.range(1, 3) {
                let v = std::mem::replace(&mut f.1, V::Unit);
                f.1 = V::Map(Hint::Exact, vec![(V::Str(seg(r)), v)]);
            }
        }
    }
    for _ in 0..r.below(3) {
        if fields.is_empty() {
            return;
        }
        let i = r.idx(fields.len());
        let (k, mut v) = (fields[i].0.clone(), &fields[i].1);
        let (name, x) = if let (Some((head, rest)), true) = (k.split_once('.'), r.one_in(2)) {
            (head.to_string(), V::Map(Hint::Exact, vec![(V::Str(rest.to_string()), scalar(r, c))]))
        } else {
            // some way down the chain, perhaps beside it
            let mut name = k.clone();
            for _ in 0..r.range(1, 3) {
                match v {
                    V::Map(_, m) if !m.is_empty() && !r.one_in(5) => {
                        name = format!("{name}.{}", crate::model::key_text(&m[0].0));
                        v = &m[0].1;
                    }
                    _ => {
                        name = format!("{name}.{}", seg(r));
                        break;
                    }
                }
            }
            let x = scalar(r, c);
            (name, if r.one_in(3) { V::Map(Hint::Exact, vec![(V::Str(seg(r)), x)]) } else { x })
        };
        if fields.iter().all(|f| f.0 != name) {
            let at = r.idx(fields.len() + 1);
            fields.insert(at, (name, x));
        }
    }
}

fn wrap(r: &mut Rng, c: &mut Cfg, v: V) -> V {
    if !r.pct(c.typed) {
        return v;
    }
    match (r.below(4), v) {
        (0, v) => V::Some(Box::new(v)),
        (1, v) => V::NtStruct(Box::new(v)),
        (2, v) => {
            let name = if c.unique_arrays && is_arrayish(&v) {
                c.counter += 1;
                format!("kk{}", c.counter)
            } else {
                key(r, c)
            };
            V::NtVar(name, Box::new(v))
        }
        (_, V::Seq(h, a)) => match r.below(3) {
            0 => V::Tuple(a),
            1 if !c.unique_arrays => V::TVar(key(r, c), a),
            1 => V::Seq(h, a),
            _ => V::TStruct(a),
        },
        (_, V::Struct(m)) if !c.unique_arrays => V::SVar(key(r, c), m),
        (_, v) => v,
    }
}

pub fn table(r: &mut Rng, c: &mut Cfg) -> V {
    let cols = if c.scale && r.one_in(4) { threshold(r, 40) } else { r.range(1, c.width) };
    let ks = unique_keys(r, c, cols);
    let rows = match r.below(8) {
        2..=4 if c.scale => threshold(r, 1100 / (cols + 1)),
        0 => 1,
        1 => r.range(8, 20),
        _ => r.range(1, c.width + 1),
    };
    let as_struct = r.pct(c.typed);
    let strings = r.one_in(3);
    let mut out: Vec<V> = Vec::new();
    for _ in 0..rows {
        let mut fs: Vec<(String, V)> = ks
            .iter()
            .map(|k| (k.clone(), if strings { V::Str(string(r, c)) } else { scalar(r, c) }))
            .collect();
        if r.one_in(6) {
            let i = r.idx(fs.len());
            let j = r.idx(fs.len());
            fs.swap(i, j);
        }
        out.push(if as_struct {
            V::Struct(fs)
        } else {
            V::Map(hint(r, c), fs.into_iter().map(|(k, v)| (V::Str(k), v)).collect())
        });
    }
    // near-tables: one row breaks the pattern
    if r.one_in(4) {
        for _ in 0..if r.one_in(4) { 2 } else { 1 } {
            let i = if r.one_in(3) { out.len() - 1 } else { r.idx(out.len()) };
            break_row(r, c, &ks, &mut out[i]);
        }
    }
    V::Seq(hint(r, c), out)
}

/// Makes a row differ from the others.
fn break_row(r: &mut Rng, c: &mut Cfg, ks: &[String], row: &mut V) {
    let mut fs: Vec<(String, V)> = match row {
        V::Struct(f) => f.clone(),
        V::Map(_, m) => m.iter().map(|(k, v)| (crate::model::key_text(k), v.clone())).collect(),
        _ => return,
    };
    if fs.is_empty() {
        return;
    }
    let j = r.idx(fs.len());
    match r.below(12) {
        0 => {
            *row = V::Map(Hint::Exact, vec![]);
            return;
        }
        1 => {
            *row = scalar(r, c);
            return;
        }
        2 | 3 if !c.unique_arrays => {
            let n = r.below(3);
            fs[j].1 = V::Seq(Hint::Exact, (0..n).map(|_| scalar(r, c)).collect());
        }
        4 => fs[j].1 = V::Map(Hint::Exact, vec![]),
        5 => {
            let k = key(r, c);
            let x = scalar(r, c);
            fs[j].1 = V::Map(Hint::Exact, vec![(V::Str(k), x)]);
        }
        6 | 7 | 8 => {
            // another name, as many fields
            let k = if r.one_in(2) { key(r, c) } else { again(r, &fs[j].0) };
            let k = if c.dots { k } else { k.replace('.', "-") };
            if !crate::model::is_array_key(&k) && !ks.contains(&k) && fs.iter().all(|f| f.0 != k) {
                fs[j].0 = k;
            }
        }
        9 => {
            let k = key(r, c);
            if !ks.contains(&k) && fs.iter().all(|f| f.0 != k) {
                let x = scalar(r, c);
                fs.insert(j, (k, x));
            }
        }
        10 => {
            fs.remove(j);
        }
        _ => fs.rotate_left(j),
    }
    *row = match row {
        V::Struct(_) => V::Struct(fs),
        V::Map(h, _) => V::Map(*h, fs.into_iter().map(|(k, v)| (V::Str(k), v)).collect()),
        _ => return,
    };
}

pub fn value(r: &mut Rng, c: &mut Cfg, depth: u64) -> V {
    if depth == 0 {
        let v = scalar(r, c);
        return wrap(r, c, v);
    }
    let v = match r.below(100) {
        x if x < c.tables => table(r, c),
        x if x < c.tables + 12 => {
            let n = if c.scale && r.one_in(3) { threshold(r, 1100) } else { *r.pick(&[0, 1, 1, 2, 3, 5]) };
            V::Seq(hint(r, c), (0..n).map(|_| scalar(r, c)).collect())
        }
        x if x < c.tables + 26 => {
            let n = r.below(c.width + 1);
            let h = hint(r, c);
            let mut a = Vec::new();
            for _ in 0..n {
                let d = r.below(depth);
                a.push(value(r, c, d));
            }
            V::Seq(h, a)
        }
        x if x < c.tables + 45 => {
            let n = r.below(c.width + 1);
            let ks = unique_keys(r, c, n);
            let mut fs = Vec::new();
            for k in ks {
                let d = r.below(depth);
                fs.push((k, value(r, c, d)));
            }
            make_obj(r, c, fs)
        }
        98 if !c.unique_arrays => {
            let n = r.below(5);
            V::Bytes((0..n).map(|_| r.next() as u8).collect())
        }
        99 => {
            // a chain of single-key objects
            let n = if c.scale && !c.deep {
                c.deep = true;
                threshold(r, 65)
            } else {
                r.range(1, 5)
            };
            let mut v = value(r, c, depth - 1);
            for _ in 0..n {
                if r.one_in(if c.scale { 3 } else { 12 }) && !c.unique_arrays {
                    v = V::Seq(hint(r, c), vec![v]);
                    continue;
                }
                let k = key(r, c);
                v = make_obj(r, c, vec![(k, v)]);
            }
            v
        }
        _ => scalar(r, c),
    };
    wrap(r, c, v)
}

/// A root value: mostly objects and arrays.
pub fn root(r: &mut Rng, c: &mut Cfg) -> V {
    let d = c.depth;
    match r.below(20) {
        0 => scalar(r, c),
        1 => value(r, c, d),
        2 => table(r, c),
        3 | 4 => {
            let n = r.below(c.width + 2);
            let mut a = Vec::new();
            for _ in 0..n {
                a.push(value(r, c, d));
            }
            let v = V::Seq(hint(r, c), a);
            wrap(r, c, v)
        }
        _ => {
            let n = if r.one_in(12) {
                0
            } else if c.scale && r.one_in(4) {
                threshold(r, 130)
            } else {
                r.range(1, c.width + 1)
            };
            let ks = unique_keys(r, c, n);
            let mut fs = Vec::new();
            for k in ks {
                fs.push((k, value(r, c, d)));
            }
            let v = make_obj(r, c, fs);
            wrap(r, c, v)
        }
    }
}

/// A value whose document is about `bytes` long.
pub fn big(r: &mut Rng, c: &mut Cfg, bytes: u64) -> V {
    match r.below(5) {
        0 => {
            let unit = *r.pick(&["x", "\u{e9}", "abc ", "line\n", "\u{1F600}", "q\""]);
            V::Map(
                Hint::Exact,
                vec![
                    (V::Str("blob".into()), V::Str(unit.repeat((bytes as usize) / unit.len() + 1))),
                    (V::Str("tail".into()), scalar(r, c)),
                ],
            )
        }
        1 => V::Map(
            Hint::Exact,
            vec![(
                V::Str("nums".into()),
                V::Seq(Hint::Exact, (0..bytes / 4).map(|i| V::U64(i * 7 % 1000)).collect()),
            )],
        ),
        2 => {
            let rows = bytes / 24 + 1;
            let s = string(r, c);
            V::Map(
                Hint::Exact,
                vec![(
                    V::Str("rows".into()),
                    V::Seq(
                        Hint::Unknown,
                        (0..rows)
                            .map(|i| {
                                V::Struct(vec![
                                    ("id".into(), V::U64(i)),
                                    ("name".into(), V::Str(format!("{s}{i}"))),
                                    ("ok".into(), V::Bool(i % 3 == 0)),
                                ])
                            })
                            .collect(),
                    ),
                )],
            )
        }
        3 => {
            let n = (bytes / 18 + 1).min(800);
            let pad = "p".repeat((bytes / n).saturating_sub(18) as usize);
            V::Map(Hint::Unknown, (0..n).map(|i| (V::Str(format!("field{i}")), V::Str(format!("{}{pad}", i * 31)))).collect())
        }
        _ => {
            let n = bytes / 30 + 1;
            V::Seq(
                Hint::Exact,
                (0..n)
                    .map(|i| {
                        V::Map(
                            Hint::Exact,
                            vec![
                                (V::Str("k".into()), V::Seq(Hint::Exact, vec![V::U64(i), V::Str("v".into())])),
                                (V::Str("t".into()), V::Str(format!("item {i}"))),
                            ],
                        )
                    })
                    .collect(),
            )
        }
    }
}

pub fn opts(r: &mut Rng, c: &Cfg) -> Opts {
    let fold = if c.collide { r.one_in(2) } else { !c.dots && r.one_in(4) };
    Opts {
        delim: *r.pick(&[0, 0, 1, 2]),
        strict: !r.one_in(4),
        indent: *r.pick(&[2, 2, 2, 1, 3, 4, 8]),
        fold,
        flatten: if fold { *r.pick(&[-1, -1, 0, 1, 2, 3]) } else { -1 },
        expand: fold && !c.collide,
    }
}

/// Options for decoding what was encoded with `e`.
pub fn dec_opts(r: &mut Rng, c: &Cfg, e: &Opts) -> Opts {
    Opts {
        delim: *r.pick(&[0, 1, 2]),
        strict: !r.one_in(4),
        indent: e.indent,
        fold: r.one_in(4),
        flatten: -1,
        expand: e.expand || (!c.dots && r.one_in(3)),
    }
}

pub fn chunks(r: &mut Rng) -> Vec<u32> {
    match r.below(6) {
        0 | 1 => vec![],
        2 => vec![1],
        3 => vec![r.log(64) as u32],
        4 => {
            let n = r.range(1, 6);
            (0..n).map(|_| r.log(300) as u32).collect()
        }
        _ => vec![*r.pick(&[7, 31, 32, 512, 4096, 8191, 8192, 8193])],
    }
}

/// Soft I/O faults: ridden out by a correct caller.
pub fn soft(r: &mut Rng, on: u32, len: u64) -> Vec<Fault> {
    if r.one_in(2) {
        return vec![];
    }
    let n = r.range(1, 4);
    let mut f: Vec<Fault> = Vec::new();
    for _ in 0..n {
        let at = offset(r, len);
        let k = if r.one_in(4) { 3 } else { 1 };
        for _ in 0..k {
            f.push(Fault { on, at, act: Act::Intr, sticky: false });
        }
    }
    f.sort_by_key(|f| f.at);
    f
}

/// Offsets biased to interesting places.
pub fn offset(r: &mut Rng, len: u64) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => len,
        2 => len.saturating_sub(1),
        3 => r.log(len.max(1)).min(len),
        4 if len > 8192 => *r.pick(&[8192, 8191, 8193, 4096, 65536, 16384]).min(&len),
        _ => r.below(len + 1),
    }
}

pub fn hard(r: &mut Rng, on: u32, len: u64) -> Fault {
    let at = offset(r, len);
    let act = match r.below(if on == EV_WRITE { 12 } else { 11 }) {
        0 => Act::Panic,
        11 => Act::Zero,
        _ => Act::Err(r.pick(&IO_CODES).0 | style(r) << 8),
    };
    Fault { on, at, act, sticky: r.one_in(2) }
}

/// How the text of an injected failure looks.
pub fn style(r: &mut Rng) -> u64 {
    if r.one_in(2) {
        0
    } else {
        r.below(FAILURE_STYLES)
    }
}

const SOUP: [&str; 60] = [
    "\n", "\n  ", "\n    ", "\n      ", "\n\t", "- ", "-", ": ", ":", "[", "]", "{", "}", "[2]", "[1]: ", "[3]:", "[0]:", "[2|]", "[2\t]:", "{a,b}:",
    "a", "b", "key", "key: ", "key[2]: x,y", "key[1]{a}:", "\"", "\"a b\"", "\\", "\\n", "\\u00e9", "\\x", ",", "|", "\t", "1", "-1", "0.5", "1e9",
    "true", "null", "\u{e9}", "\u{1F600}", "\u{0}", "\r", "\r\n", " ", "  ", "#", "@", "@|", ".", "a.b.c", "[18446744073709551616]:", "[99999999]:",
    "[-1]:", "x: [2]: 1,2", "\u{a0}", "\u{2028}", "- - - ",
];
pub fn soup(r: &mut Rng) -> Vec<u8> {
    let n = r.log(80);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(&SOUP));
    }
    if r.one_in(5) {
        // one pattern over and over: nests or repeats as deep as it can
        let mut p = String::new();
        for _ in 0..r.range(1, 3) {
            p.push_str(r.pick(&SOUP));
        }
        if r.one_in(3) {
            p = r.pick(&["a.", "a.b.", "- ", "[1]: ", "[1]:", "a: ", "{", "[", "\"", "\\", "- a: ", "k[1]: "]).to_string();
        }
        let n = r.log(60_000) as usize / p.len() + 1;
        s = s.chars().take(40).collect();
        let t = p.repeat(n);
        s = if r.one_in(2) { t + &s } else { s + &t + r.pick(&SOUP) };
    } else if r.one_in(12) {
        // a ladder of indented lines
        let step = r.range(1, 2) as usize;
        let n = r.log(350) as usize / step;
        let l = *r.pick(&["a:", "- a:", "-", "- - a:", "k[1]:", "- [1]:", "a.b:", "- k[1]:", "a[1]{b}:"]);
        s = (0..n).map(|i| format!("{}{l}\n", " ".repeat(i * step))).collect::<String>() + &s;
    }
    s.into_bytes()
}

/// A text as people and other programs write it: loosely, in several dialects,
/// with headers that are sometimes wrong.
pub fn hand(r: &mut Rng, c: &Cfg) -> Vec<u8> {
    let mut h = Hand {
        c,
        out: Vec::new(),
        unit: *r.pick(&[2, 2, 2, 2, 1, 3, 4]),
        sloppy: *r.pick(&[0, 0, 3, 12]),
        old: *r.pick(&[0, 0, 10, 50]),
        left: 60,
    };
    let depth = r.range(1, 4);
    match r.below(14) {
        0 => {
            let s = h.scalar(r, ',');
            h.line(r, 0, s)
        }
        1 => {
            let (n, hd) = h.header(r, "");
            h.array(r, 0, n, hd, String::new(), depth)
        }
        2 => h.old_table(r, 0, String::new()),
        3 => {
            for _ in 0..r.range(1, 4) {
                h.item(r, 0, depth);
            }
        }
        4 | 5 => {
            let k = h.key(r);
            h.array_field(r, 0, "", k, depth)
        }
        _ => h.object(r, 0, depth),
    }
    let nl = if r.one_in(12) { "\r\n" } else { "\n" };
    let mut s = h.out.join(nl);
    if r.one_in(3) {
        s.push_str(nl);
    }
    if r.one_in(20) {
        s.insert_str(0, r.pick(&["\u{feff}", "---\n", "\n", "\n\n  \n", " ", "# toon\n", "\u{0}"]));
    }
    if r.one_in(20) {
        s.push_str(r.pick(&["\u{1a}", "\u{0}", "\n...\n", "\n\n\n", "\n  ", "\u{feff}"]));
    }
    s.into_bytes()
}

struct Hand<'c> {
    c: &'c Cfg,
    out: Vec<String>,
    unit: usize,
    /// percentage of lines that are off
    sloppy: u64,
    /// percentage of arrays in an older dialect
    old: u64,
    left: u64,
}

impl Hand<'_> {
    fn line(&mut self, r: &mut Rng, lvl: usize, s: String) {
        self.left = self.left.saturating_sub(1);
        let mut n = lvl * self.unit;
        if r.pct(self.sloppy) {
            match r.below(8) {
                0 => n += 1,
                1 => n = n.saturating_sub(1),
                2 => n += self.unit,
                3 => n = n.saturating_sub(self.unit),
                4 => self.out.push(" ".repeat(r.below(4) as usize)),
                5 => self.out.push(format!("{}{}", " ".repeat(n), r.pick(&["# note", "// x", "...", "- ", "", "key", "\t"]))),
                _ => {}
            }
        }
        let tail = if r.pct(self.sloppy) { *r.pick(&[" ", "  ", "\t", " # c", ",", ":"]) } else { "" };
        self.out.push(format!("{}{s}{tail}", " ".repeat(n)));
    }

    fn scalar(&mut self, r: &mut Rng, delim: char) -> String {
        let t = match r.below(12) {
            0 | 1 => r.below(1000).to_string(),
            2 => r.pick(&["true", "false", "null", "0", "-1", "3.14", "1e3", "-0.0", "1E-2", "007", "1.", ".5", "+3", "0x1f", "9007199254740993", "18446744073709551615", "18446744073709551616", "1e400", "-1e-400", "NaN", "Infinity", "True", "0e5", "00", "-", "123456789012345678901234567890", "0.1e1", "12e", "1_000", "\u{2212}5"]).to_string(),
            3 => number_text(r),
            4 | 5 => r.pick(&WORDS).to_string(),
            6 => format!("\"{}\"", r.pick(&["", " ", "a", "a b", "a,b", "a: b", "\\n", "\\\"", "\\\\", "\\u0041", "\\x", "true", "5", "- x", "[1]", "\u{e9}", "tab\\t", "\\/", "\\b"])),
            7 => string(r, self.c),
            8 => r.pick(&["{}", "[]", "\"", "\"open", "x\"y", "a b c", "a:b", "[2]", "[2]: 1,2", "- x", "#x", "@", "@,a", "''", "'q'"]).to_string(),
            9 => {
                let s = string(r, self.c);
                format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"))
            }
            10 => String::new(),
            _ => word(r),
        };
        let t = t.replace(['\n', '\r'], " ");
        if t.contains(delim) && !t.starts_with('"') && !r.one_in(6) { t.replace(delim, " ") } else { t }
    }

    fn key(&mut self, r: &mut Rng) -> String {
        match r.below(14) {
            0 => format!("\"{}\"", r.pick(&["a b", "x:y", "", "a.b", "k[1]", "q\\\"", "5", "-", "\u{e9}"])),
            1 => r.pick(&["a.b", "a.b.c", "a..b", ".a", "a.", "a b", "5", "x-y", "-k", "\u{e9}", "@k", "k]", "{k", "\"k", "_", "$ref"]).to_string(),
            2 => string(r, self.c).replace(['\n', '\r', ':', '[', '{'], "_"),
            _ => r.pick(&WORDS).replace(' ', "_"),
        }
    }

    fn marker(&self, r: &mut Rng) -> (char, &'static str) {
        *r.pick(&[(',', ""), (',', ""), (',', ""), ('|', "|"), ('\t', "\t"), (',', ","), ('|', " |")])
    }

    /// How many there are to be, and `[N]` with the delimiter.
    fn header(&mut self, r: &mut Rng, key: &str) -> (u64, (String, char)) {
        let n = *r.pick(&[0, 1, 2, 2, 3, 4]);
        let (d, m) = self.marker(r);
        let said = if r.pct(self.sloppy / 2 + 2) { n + r.below(3) } else { n };
        let said = if r.pct(self.sloppy / 2) { r.pick(&["#2", "", "x", "-1", "02", " 2", "99999999999999999999"]).to_string() } else { said.to_string() };
        (n, (format!("{key}[{said}{m}]"), d))
    }

    fn row(&mut self, r: &mut Rng, cols: u64, d: char) -> String {
        let cols = if r.pct(self.sloppy / 2) { cols + r.below(3) } else { cols };
        let sep = if r.one_in(5) { format!("{d} ") } else { d.to_string() };
        (0..cols).map(|_| self.scalar(r, d)).collect::<Vec<_>>().join(&sep)
    }

    fn fields(&mut self, r: &mut Rng, d: char) -> (u64, String) {
        let n = r.range(1, 3);
        let ks: Vec<String> = (0..n).map(|i| if r.one_in(6) { self.key(r) } else { format!("{}{i}", r.pick(&["a", "b", "id"])) }).collect();
        let d = if r.pct(self.sloppy / 2) { ',' } else { d };
        (n, format!("{{{}}}", ks.join(&d.to_string())))
    }

    fn object(&mut self, r: &mut Rng, lvl: usize, depth: u64) {
        let n = r.range(if lvl == 0 { 1 } else { 0 }, 4);
        for _ in 0..n {
            if self.left == 0 {
                return;
            }
            let k = self.key(r);
            self.field(r, lvl, "", k, depth);
        }
    }

    fn field(&mut self, r: &mut Rng, lvl: usize, pre: &str, k: String, depth: u64) {
        match r.below(10) {
            0..=3 => {
                let v = self.scalar(r, '\u{0}');
                let sp = if r.pct(self.sloppy) { *r.pick(&["", "  ", "\t", " "]) } else { " " };
                self.line(r, lvl, format!("{pre}{k}:{sp}{v}"))
            }
            4 | 5 if depth > 0 => {
                self.line(r, lvl, format!("{pre}{k}:"));
                let lvl = if pre.is_empty() { lvl } else { lvl + 1 };
                self.object(r, lvl + 1, depth - 1)
            }
            _ => self.array_field(r, lvl, pre, k, depth),
        }
    }

    fn array_field(&mut self, r: &mut Rng, lvl: usize, pre: &str, k: String, depth: u64) {
        if r.pct(self.old) {
            match r.below(6) {
                0 => self.old_table(r, lvl, format!("{pre}{k}:")),
                1 => {
                    // items under a key without a header, perhaps at its own level
                    self.line(r, lvl, format!("{pre}{k}:"));
                    let l = if r.one_in(2) { lvl } else { lvl + 1 };
                    for _ in 0..r.below(4) {
                        self.item(r, l, depth.saturating_sub(1));
                    }
                }
                2 => {
                    let (n, (hd, d)) = self.header(r, &k);
                    let row = self.row(r, n, d);
                    self.line(r, lvl, format!("{pre}{hd} {row}"))
                }
                3 => {
                    let (n, (hd, d)) = self.header(r, "");
                    let row = self.row(r, n, d);
                    self.line(r, lvl, format!("{pre}{k}: {hd}: {row}"))
                }
                4 => {
                    let row = self.row(r, 2, ',');
                    self.line(r, lvl, format!("{pre}{k}: [{row}]"))
                }
                _ => {
                    let (n, hd) = self.header(r, "");
                    self.line(r, lvl, format!("{pre}{k}:"));
                    self.array(r, lvl + 1, n, hd, String::new(), depth)
                }
            }
            return;
        }
        let (n, hd) = self.header(r, &k);
        self.array(r, lvl, n, hd, pre.to_string(), depth)
    }

    fn array(&mut self, r: &mut Rng, lvl: usize, n: u64, (hd, d): (String, char), pre: String, depth: u64) {
        let deeper = if pre.is_empty() { lvl + 1 } else { lvl + 2 };
        match r.below(3) {
            0 => {
                let row = self.row(r, n, d);
                self.line(r, lvl, if n == 0 { format!("{pre}{hd}:") } else { format!("{pre}{hd}: {row}") })
            }
            1 => {
                let (cols, f) = self.fields(r, d);
                self.line(r, lvl, format!("{pre}{hd}{f}:"));
                let hyphen = r.pct(self.old) && r.one_in(3);
                for _ in 0..n {
                    let row = self.row(r, cols, d);
                    self.line(r, deeper, if hyphen { format!("- {row}") } else { row });
                }
            }
            _ => {
                self.line(r, lvl, format!("{pre}{hd}:"));
                let at = if r.pct(self.old) && r.one_in(3) { lvl } else { deeper };
                for _ in 0..n {
                    if self.left == 0 {
                        return;
                    }
                    self.item(r, at, depth.saturating_sub(1));
                }
            }
        }
    }

    /// `@, a,b` and rows behind hyphens
    fn old_table(&mut self, r: &mut Rng, lvl: usize, pre: String) {
        let d = *r.pick(&[',', ',', '|', '\t']);
        let cols = r.range(1, 3);
        let head: Vec<String> = (0..cols).map(|i| format!("c{i}")).collect();
        let head = format!("@{d} {}", head.join(&d.to_string()));
        let below = if pre.is_empty() {
            self.line(r, lvl, head);
            lvl
        } else if r.one_in(2) {
            self.line(r, lvl, format!("{pre} {head}"));
            lvl + 1
        } else {
            self.line(r, lvl, pre);
            self.line(r, lvl + 1, head);
            lvl + 1
        };
        let below = if r.pct(self.sloppy) { below + 1 } else { below };
        for _ in 0..r.below(4) {
            let row = self.row(r, cols, d);
            self.line(r, below, format!("- {row}"));
        }
    }

    fn item(&mut self, r: &mut Rng, lvl: usize, depth: u64) {
        if self.left == 0 {
            return;
        }
        match r.below(10) {
            0..=2 => {
                let v = self.scalar(r, '\u{0}');
                self.line(r, lvl, format!("- {v}"))
            }
            3 => {
                let s = r.pick(&["-", "- {}", "- []", "- [0]:", "- - x", "-x", "- -"]).to_string();
                self.line(r, lvl, s)
            }
            4 if depth > 0 => {
                let (n, hd) = self.header(r, "");
                self.array(r, lvl, n, hd, "- ".into(), depth - 1)
            }
            5 if r.pct(self.old) => self.old_table(r, lvl, "-".into()),
            _ => {
                let k = self.key(r);
                self.field(r, lvl, "- ", k, depth.saturating_sub(1));
                for _ in 0..r.below(3) {
                    let k = self.key(r);
                    self.field(r, lvl + 1, "", k, depth.saturating_sub(1));
                }
            }
        }
    }
}

pub fn bytes_damage(r: &mut Rng, len: u64) -> Dmg {
    let p = r.below(len + 1);
    match r.below(14) {
        0 | 1 => Dmg::FlipBit(p, r.below(8) as u8),
        2 | 3 => Dmg::SetByte(
            p,
            *r.pick(&[b'\n', b' ', b':', b'-', b'"', b'\\', b'[', b']', b'{', b'}', b',', b'|', b'\t', b'0', b'9', b'@', 0, 0xff, 0xc3, b'.']),
        ),
        4 | 5 => {
            let s = r.pick(&SOUP).as_bytes().to_vec();
            Dmg::Insert(p, s)
        }
        6 => Dmg::Remove(p, r.log(16)),
        7 => Dmg::Cut(p),
        8 => {
            let b = *r.pick(&[8, 16, 64, 512]);
            Dmg::DropBlock(b, r.below(len / b + 1))
        }
        9 => {
            let b = *r.pick(&[8, 16, 64, 512]);
            Dmg::SwapBlocks(b, r.below(len / b + 1), r.below(len / b + 1))
        }
        10 => {
            let b = *r.pick(&[8, 16, 64]);
            Dmg::ZeroBlock(b, r.below(len / b + 1))
        }
        11 => Dmg::Repeat(p, r.log(24), if r.one_in(6) { r.log(8000) } else { r.log(60) }),
        12 => line_damage(r, 30),
        _ => Dmg::Remove(p, r.log(len.max(1))),
    }
}

pub fn line_damage(r: &mut Rng, lines: u64) -> Dmg {
    let a = r.below(lines);
    let b = r.below(lines);
    match r.below(6) {
        0..=2 => Dmg::DropLine(a),
        3 => Dmg::DupLine(a),
        4 => Dmg::SwapLines(a, b),
        _ => Dmg::MoveLine(a, b),
    }
}

pub fn apply(doc: &[u8], dmg: &[Dmg], cap: usize) -> Vec<u8> {
    let mut d = doc.to_vec();
    for x in dmg {
        d = apply1(&d, x);
        if d.len() > cap {
            d.truncate(cap);
        }
    }
    d
}

fn lines_of(d: &[u8]) -> Vec<Vec<u8>> {
    d.split(|c| *c == b'\n').map(|x| x.to_vec()).collect()
}
fn blocks(d: &[u8], b: u64) -> Vec<Vec<u8>> {
    d.chunks((b as usize).max(1)).map(|x| x.to_vec()).collect()
}

fn apply1(d: &[u8], x: &Dmg) -> Vec<u8> {
    let len = d.len();
    let pos = |p: u64| (p as usize).min(len);
    let join = |l: Vec<Vec<u8>>| l.join(&b'\n');
    match x {
        Dmg::Cut(p) => d[..pos(*p)].to_vec(),
        Dmg::DropLine(i) => {
            let mut l = lines_of(d);
            let i = *i as usize % l.len();
            l.remove(i);
            join(l)
        }
        Dmg::DupLine(i) => {
            let mut l = lines_of(d);
            let i = *i as usize % l.len();
            let c = l[i].clone();
            l.insert(i, c);
            join(l)
        }
        Dmg::SwapLines(i, j) => {
            let mut l = lines_of(d);
            let n = l.len();
            l.swap(*i as usize % n, *j as usize % n);
            join(l)
        }
        Dmg::MoveLine(i, j) => {
            let mut l = lines_of(d);
            let i = *i as usize % l.len();
            let c = l.remove(i);
            let j = *j as usize % (l.len() + 1);
            l.insert(j, c);
            join(l)
        }
        Dmg::DropBlock(b, i) => {
            let mut l = blocks(d, *b);
            if !l.is_empty() {
                let i = *i as usize % l.len();
                l.remove(i);
            }
            l.concat()
        }
        Dmg::DupBlock(b, i) => {
            let mut l = blocks(d, *b);
            if !l.is_empty() {
                let i = *i as usize % l.len();
                let c = l[i].clone();
                l.insert(i, c);
            }
            l.concat()
        }
        Dmg::SwapBlocks(b, i, j) => {
            let mut l = blocks(d, *b);
            if !l.is_empty() {
                let n = l.len();
                l.swap(*i as usize % n, *j as usize % n);
            }
            l.concat()
        }
        Dmg::ZeroBlock(b, i) => {
            let mut l = blocks(d, *b);
            if !l.is_empty() {
                let i = *i as usize % l.len();
                l[i].iter_mut().for_each(|c| *c = 0);
            }
            l.concat()
        }
        Dmg::FlipBit(p, b) => {
            let mut o = d.to_vec();
            if len > 0 {
                o[pos(*p).min(len - 1)] ^= 1 << (b % 8);
            }
            o
        }
        Dmg::SetByte(p, c) => {
            let mut o = d.to_vec();
            if len > 0 {
                o[pos(*p).min(len - 1)] = *c;
            }
            o
        }
        Dmg::Insert(p, s) => {
            let mut o = d.to_vec();
            let p = pos(*p);
            o.splice(p..p, s.iter().copied());
            o
        }
        Dmg::Remove(p, n) => {
            let mut o = d.to_vec();
            let p = pos(*p);
            let e = (p + *n as usize).min(len);
            o.drain(p..e);
            o
        }
        Dmg::Mangle(..) | Dmg::Air(_) => d.to_vec(),
        Dmg::Repeat(p, n, k) => {
            let mut o = d.to_vec();
            let p = pos(*p);
            let e = (p + *n as usize).min(len);
            let piece = d[p..e].to_vec();
            let all = piece.repeat(*k as usize);
            o.splice(e..e, all);
            o
        }
    }
}
