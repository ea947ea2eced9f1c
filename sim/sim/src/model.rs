//! Reference models: what a value denotes, when two values are the same, what
//! a cut document may still say, and what headers declare.
use proto::*;
pub use proto::key_text;

/// The data a value hands to serde, in the document data model.
pub fn denote(v: &V) -> J {
    let arr = |a: &Vec<V>| J::Arr(a.iter().map(denote).collect());
    let fields = |m: &Vec<(String, V)>| J::Obj(m.iter().map(|(k, v)| (k.clone(), denote(v))).collect());
    let tag = |n: &String, j: J| J::Obj(vec![(n.clone(), j)]);
    match v {
        V::Unit | V::None | V::UnitStruct => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::I8(x) => J::Int(*x as i128),
        V::I16(x) => J::Int(*x as i128),
        V::I32(x) => J::Int(*x as i128),
        V::I64(x) => J::Int(*x as i128),
        V::U8(x) => J::Int(*x as i128),
        V::U16(x) => J::Int(*x as i128),
        V::U32(x) => J::Int(*x as i128),
        V::U64(x) => J::Int(*x as i128),
        V::F32(b) => {
            let f = f32::from_bits(*b);
            if f.is_finite() {
                J::F32(f)
            } else {
                J::Null
            }
        }
        V::F64(b) => {
            let f = f64::from_bits(*b);
            if f.is_finite() {
                J::Float(f)
            } else {
                J::Null
            }
        }
        V::Char(c) => J::Str(c.to_string()),
        V::Str(s) | V::Disp(s) | V::UnitVar(s) => J::Str(s.clone()),
        V::Bytes(b) => J::Arr(b.iter().map(|x| J::Int(*x as i128)).collect()),
        V::Some(x) | V::NtStruct(x) => denote(x),
        V::NtVar(n, x) => tag(n, denote(x)),
        V::Seq(_, a) | V::Tuple(a) | V::TStruct(a) => arr(a),
        V::TVar(n, a) => tag(n, arr(a)),
        V::Map(_, m) => J::Obj(m.iter().map(|(k, v)| (key_text(k), denote(v))).collect()),
        V::Struct(m) => fields(m),
        V::SVar(n, m) => tag(n, fields(m)),
    }
}

/// A value a relaying node would build from what it decoded.
pub fn relay_value(j: &J) -> V {
    match j {
        J::Null => V::Unit,
        J::Bool(b) => V::Bool(*b),
        J::Int(i) => {
            if let Ok(x) = i64::try_from(*i) {
                V::I64(x)
            } else {
                V::U64(*i as u64)
            }
        }
        J::Float(f) => V::F64(f.to_bits()),
        J::F32(f) => V::F32(f.to_bits()),
        J::Str(s) => V::Str(s.clone()),
        J::Arr(a) => V::Seq(Hint::Exact, a.iter().map(relay_value).collect()),
        J::Obj(m) => {
            V::Map(Hint::Exact, m.iter().map(|(k, v)| (V::Str(k.clone()), relay_value(v))).collect())
        }
    }
}

fn int_is_float(i: i128, f: f64) -> bool {
    f.is_finite() && f.fract() == 0.0 && f.abs() < 1e38 && f as i128 == i
}

/// Same data: numbers by value, objects by key.
pub fn same(sent: &J, got: &J) -> bool {
    match (sent, got) {
        (J::Null, J::Null) => true,
        (J::Bool(a), J::Bool(b)) => a == b,
        (J::Int(a), J::Int(b)) => a == b,
        (J::Int(a), J::Float(f)) => int_is_float(*a, *f),
        // a large float is written with the digits that identify it
        (J::Float(f), J::Int(a)) => int_is_float(*a, *f) || *a as f64 == *f && f.abs() >= 9e15,
        (J::Float(a), J::Float(b)) => a == b,
        (J::F32(a), J::F32(b)) => a == b,
        (J::F32(a), J::Float(f)) | (J::Float(f), J::F32(a)) => *f as f32 == *a,
        (J::F32(a), J::Int(i)) | (J::Int(i), J::F32(a)) => {
            int_is_float(*i, *a as f64) || (*i as f64) as f32 == *a && a.abs() >= 16777216.0
        }
        (J::Str(a), J::Str(b)) => a == b,
        (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (J::Obj(a), J::Obj(b)) => {
            a.len() == b.len()
                && if a.len() <= 8 {
                    a.iter().all(|(k, x)| b.iter().any(|(l, y)| k == l && same(x, y)))
                } else {
                    let m: std::collections::HashMap<&str, &J> =
                        b.iter().map(|(k, v)| (k.as_str(), v)).collect();
                    m.len() == b.len()
                        && a.iter().all(|(k, x)| m.get(k.as_str()).is_some_and(|y| same(x, y)))
                }
        }
        _ => false,
    }
}

/// The same said at the same places, whether a place is a chain of objects or
/// one dotted name.
pub fn flat_same(a: &J, b: &J) -> bool {
    fn leaves<'a>(j: &'a J, path: &str, out: &mut Vec<(String, &'a J)>) {
        match j {
            J::Obj(m) if !m.is_empty() => {
                for (k, v) in m {
                    leaves(v, &format!("{path}.{k}"), out)
                }
            }
            j => out.push((path.to_string(), j)),
        }
    }
    match (a, b) {
        (J::Obj(x), J::Obj(y)) if !x.is_empty() && !y.is_empty() => {
            let (mut l, mut m) = (vec![], vec![]);
            leaves(a, "", &mut l);
            leaves(b, "", &mut m);
            l.len() == m.len()
                && l.iter().all(|(p, x)| match m.iter().position(|(q, y)| p == q && flat_same(x, y)) {
                    Some(i) => {
                        m.swap_remove(i);
                        true
                    }
                    None => false,
                })
        }
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| flat_same(x, y)),
        _ => same(a, b),
    }
}

fn scalar(j: &J) -> bool {
    !matches!(j, J::Arr(_) | J::Obj(_))
}
fn empty_obj(j: &J) -> bool {
    matches!(j, J::Obj(m) if m.is_empty())
}

/// May strict decoding of a prefix of the document for `orig` yield `got`?
/// At most the last entry before the cut is shortened; later fields of the
/// objects around it may be missing; every array is complete.
pub fn cut_ok(orig: &J, got: &J, first_line: bool) -> bool {
    if same(orig, got) {
        return true;
    }
    // a document that is a lone scalar: a fragment of a word is a word, and
    // the hyphen of a negative number alone is an empty list item
    if scalar(orig) {
        return scalar(got) || empty_obj(got) || matches!(got, J::Arr(a) if a.len() == 1 && empty_obj(&a[0]));
    }
    // a cut inside the first line leaves a lone word (or nothing)
    if first_line && (scalar(got) || empty_obj(got)) {
        return true;
    }
    cut_in(orig, got)
}

fn cut_in(orig: &J, got: &J) -> bool {
    if same(orig, got) {
        return true;
    }
    match (orig, got) {
        (J::Obj(a), J::Obj(b)) => {
            let find = |k: &str| b.iter().find(|(l, _)| l == k).map(|(_, v)| v);
            if b.iter().any(|(k, _)| !a.iter().any(|(l, _)| k == l)) {
                return false;
            }
            let present: Vec<bool> = a.iter().map(|(k, _)| find(k).is_some()).collect();
            let n = present.iter().filter(|x| **x).count();
            let diffs: Vec<usize> = a
                .iter()
                .enumerate()
                .filter(|(_, (k, v))| find(k).is_some_and(|g| !same(v, g)))
                .map(|(i, _)| i)
                .collect();
            if diffs.len() > 1 {
                return false;
            }
            if n < a.len() {
                // the fields before the cut, in document order
                if !present[..n].iter().all(|x| *x) {
                    return false;
                }
                if let Some(&d) = diffs.first() {
                    if d + 1 != n {
                        return false;
                    }
                }
            }
            match diffs.first() {
                None => true,
                Some(&d) => {
                    let (k, v) = &a[d];
                    let g = find(k).unwrap();
                    match v {
                        // an array under a key is announced on its own line
                        J::Arr(_) => matches!(g, J::Arr(_)) && cut_in(v, g),
                        J::Obj(_) => cut_in(v, g) || scalar(g),
                        _ => scalar(g) || empty_obj(g),
                    }
                }
            }
        }
        (J::Arr(a), J::Arr(b)) => {
            if a.len() != b.len() || a.is_empty() {
                return false;
            }
            let n = a.len() - 1;
            if !a[..n].iter().zip(&b[..n]).all(|(x, y)| same(x, y)) {
                return false;
            }
            // the last item may be cut to a word or to a bare hyphen
            scalar(&b[n]) || empty_obj(&b[n]) || cut_in(&a[n], &b[n])
        }
        (o, g) => scalar(o) && (scalar(g) || empty_obj(g)),
    }
}

/// Lengths that array headers `key[N]` (or `[N]` on the first line) declare.
pub fn declared(text: &str, key: &str) -> Vec<usize> {
    let mut out = Vec::new();
    let pat = format!("{key}[");
    let mut from = 0;
    while let Some(p) = text[from..].find(&pat) {
        let at = from + p;
        let rest = &text[at + pat.len()..];
        let digits: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(n) = digits.parse() {
            out.push(n);
        }
        from = at + pat.len();
    }
    out
}

/// Is this one of the unique names the C05 workload gives to arrays?
pub fn is_array_key(k: &str) -> bool {
    k.len() > 2 && k.starts_with("kk") && k[2..].bytes().all(|c| c.is_ascii_digit())
}

/// Every array under a unique key must have a length its header declares.
pub fn lengths_ok(text: &str, got: &J, root: bool) -> Result<(), String> {
    match got {
        J::Arr(a) => {
            if root {
                let first = text.lines().map(str::trim).find(|l| !l.is_empty()).unwrap_or("");
                if let Some(r) = first.strip_prefix('[') {
                    let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(n) = d.parse::<usize>() {
                        if n != a.len() {
                            return Err(format!("root array declares {n} elements, decoded {}", a.len()));
                        }
                    }
                }
            }
            a.iter().try_for_each(|x| lengths_ok(text, x, false))
        }
        J::Obj(m) => m.iter().try_for_each(|(k, v)| {
            if let J::Arr(a) = v {
                if is_array_key(k) {
                    let d = declared(text, k);
                    // the damage may have cut the header off another entry of that name
                    let bare = text.contains(&format!("{k}:"));
                    if !d.is_empty() && !bare && !d.contains(&a.len()) {
                        return Err(format!("array {k} declares {d:?} elements, decoded {}", a.len()));
                    }
                }
            }
            lengths_ok(text, v, false)
        }),
        _ => Ok(()),
    }
}

pub fn depth(j: &J) -> usize {
    match j {
        J::Arr(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        J::Obj(m) => 1 + m.iter().map(|(_, v)| depth(v)).max().unwrap_or(0),
        _ => 0,
    }
}
