//! Effort (C18): steps and memory of a call grow no faster than the data. The
//! builds used here count steps (node/src/steps.rs); the same call is made on data
//! in which one part is repeated more and more often.
use crate::exec::*;
use crate::node;
use crate::oracle::{bad, clip, pop, run_one};
use crate::plan::*;
use crate::props;
use proto::*;

/// The bytes of a value.
pub fn weight(j: &J) -> u64 {
    8 + match j {
        J::Str(s) => s.len() as u64,
        J::Arr(a) => a.iter().map(weight).sum(),
        J::Obj(m) => m.iter().map(|(k, x)| k.len() as u64 + weight(x)).sum(),
        _ => 0,
    }
}

/// The value with one part grown; None: it has no such part.
pub fn grown(v: &V, site: u64, how: Grow, k: u64) -> Option<V> {
    let mut n = sites(v, how);
    if n == 0 {
        return None;
    }
    n = site % n;
    Some(rebuild(v, how, k, &mut n))
}
fn fits(v: &V, how: Grow) -> bool {
    match how {
        Grow::Many => match v {
            V::Map(_, m) => m.iter().any(|(k, _)| matches!(k, V::Str(_))),
            V::Seq(_, a) | V::Tuple(a) | V::TStruct(a) | V::TVar(_, a) => !a.is_empty(),
            _ => false,
        },
        Grow::Long => matches!(v, V::Str(s) if !s.is_empty()),
        Grow::Key => matches!(v, V::Map(_, m) if m.iter().any(|(k, _)| matches!(k, V::Str(s) if !s.is_empty()))),
        Grow::Deep | Grow::DeepList | Grow::DeepBoth => true,
        Grow::Wide => matches!(v, V::Seq(_, a) if a.iter().any(|x| matches!(x, V::Map(_, m) if m.iter().any(|(k, _)| matches!(k, V::Str(_)))))),
    }
}
fn sites(v: &V, how: Grow) -> u64 {
    fits(v, how) as u64
        + match v {
            V::Some(x) | V::NtStruct(x) | V::NtVar(_, x) => sites(x, how),
            V::Seq(_, a) | V::Tuple(a) | V::TStruct(a) | V::TVar(_, a) => a.iter().map(|x| sites(x, how)).sum(),
            V::Map(_, m) => m.iter().map(|x| sites(&x.1, how)).sum(),
            V::Struct(m) | V::SVar(_, m) => m.iter().map(|x| sites(&x.1, how)).sum(),
            _ => 0,
        }
}
fn rebuild(v: &V, how: Grow, k: u64, left: &mut u64) -> V {
    if fits(v, how) {
        if *left == 0 {
            *left = u64::MAX;
            return grow(v, how, k);
        }
        *left -= 1;
    }
    let mut f = |x: &V| rebuild(x, how, k, left);
    match v {
        V::Some(x) => V::Some(Box::new(f(x))),
        V::NtStruct(x) => V::NtStruct(Box::new(f(x))),
        V::NtVar(n, x) => V::NtVar(n.clone(), Box::new(f(x))),
        V::Seq(h, a) => V::Seq(*h, a.iter().map(f).collect()),
        V::Tuple(a) => V::Tuple(a.iter().map(f).collect()),
        V::TStruct(a) => V::TStruct(a.iter().map(f).collect()),
        V::TVar(n, a) => V::TVar(n.clone(), a.iter().map(f).collect()),
        V::Map(h, m) => V::Map(*h, m.iter().map(|(n, x)| (n.clone(), f(x))).collect()),
        V::Struct(m) => V::Struct(m.iter().map(|(n, x)| (n.clone(), f(x))).collect()),
        V::SVar(t, m) => V::SVar(t.clone(), m.iter().map(|(n, x)| (n.clone(), f(x))).collect()),
        v => v.clone(),
    }
}
fn more(m: &[(V, V)], k: u64) -> Vec<(V, V)> {
    let mut out = m.to_vec();
    for i in 1..k {
        for (n, x) in m {
            if let V::Str(s) = n {
                out.push((V::Str(format!("{s}{i}")), x.clone()));
            }
        }
    }
    out
}
fn grow(v: &V, how: Grow, k: u64) -> V {
    let n = k as usize;
    let times = |a: &Vec<V>| -> Vec<V> { a.iter().cycle().take(a.len() * n).cloned().collect() };
    match (how, v) {
        (Grow::Many, V::Map(_, m)) => V::Map(Hint::Exact, more(m, k)),
        (Grow::Many, V::Seq(_, a)) => V::Seq(Hint::Exact, times(a)),
        (Grow::Many, V::Tuple(a)) => V::Tuple(times(a)),
        (Grow::Many, V::TStruct(a)) => V::TStruct(times(a)),
        (Grow::Many, V::TVar(t, a)) => V::TVar(t.clone(), times(a)),
        (Grow::Long, V::Str(s)) => V::Str(s.repeat(n)),
        (Grow::Key, V::Map(h, m)) => {
            let mut m = m.clone();
            if let Some((V::Str(s), _)) = m.iter_mut().find(|(k, _)| matches!(k, V::Str(s) if !s.is_empty())) {
                *s = s.repeat(n);
            }
            V::Map(*h, m)
        }
        (Grow::Wide, V::Seq(_, a)) => V::Seq(
            Hint::Exact,
            a.iter().map(|x| if let V::Map(_, m) = x { V::Map(Hint::Exact, more(m, k)) } else { x.clone() }).collect(),
        ),
        (Grow::Deep | Grow::DeepList | Grow::DeepBoth, v) => (0..k).fold(v.clone(), |v, i| {
            if how == Grow::DeepList || how == Grow::DeepBoth && i % 2 == 0 {
                V::Seq(Hint::Exact, vec![v])
            } else {
                V::Map(Hint::Exact, vec![(V::Str("d".into()), v)])
            }
        }),
        (_, v) => v.clone(),
    }
}

/// The text with one piece repeated.
pub fn pumped(t: &[u8], at: u64, len: u64, unit: Unit, numbered: bool, k: u64) -> Option<Vec<u8>> {
    if t.is_empty() {
        return None;
    }
    let lines: Vec<&[u8]> = t.split_inclusive(|c| *c == b'\n').collect();
    let n = lines.len() as u64;
    match unit {
        Unit::Lines => {
            let i = (at % n) as usize;
            let j = (i + 1 + (len % 4) as usize).min(lines.len());
            let mut piece = lines[i..j].concat();
            if piece.last() != Some(&b'\n') {
                piece.push(b'\n');
            }
            Some([lines[..i].concat(), repeated(&piece, numbered, k), lines[j..].concat()].concat())
        }
        Unit::Cell => {
            let i = (at % n) as usize;
            let here: Vec<u8> = [b',', b'|', b'\t'].into_iter().filter(|d| lines[i].contains(d)).collect();
            let d = *here.get((at / n) as usize % here.len().max(1))?;
            let j = lines[i..].iter().take_while(|l| l.contains(&d)).count();
            let wide = |l: &&[u8]| {
                let cells: Vec<&[u8]> = l.split(|c| *c == d).collect();
                let c = len as usize % cells.len();
                // the last one with what ends the line
                let c = if c + 1 == cells.len() && c > 0 { c - 1 } else { c };
                let mut piece = cells[c].to_vec();
                let keep = if c == 0 { piece.iter().rposition(|c| matches!(c, b'{' | b':' | b' ' | b'@')).map_or(0, |i| i + 1) } else { 0 };
                let head = piece[..keep].to_vec();
                piece = piece[keep..].to_vec();
                piece.push(d);
                let before: Vec<u8> = cells[..c].iter().flat_map(|x| x.iter().copied().chain([d])).collect();
                [before, head, repeated(&piece, numbered, k), cells[c + 1..].join(&d)].concat()
            };
            let rows: Vec<Vec<u8>> = lines[i..i + j].iter().map(wide).collect();
            Some([lines[..i].concat(), rows.concat(), lines[i + j..].concat()].concat())
        }
        Unit::Bytes => {
            let s = std::str::from_utf8(t).ok()?;
            let mut a = (at % t.len() as u64) as usize;
            while !s.is_char_boundary(a) {
                a -= 1;
            }
            let mut b = (a + 1 + (len % 24) as usize).min(t.len());
            while !s.is_char_boundary(b) {
                b += 1;
            }
            Some([&t[..a], &repeated(&t[a..b], numbered, k), &t[b..]].concat())
        }
    }
}
/// Numbered: with another number in its first word every time.
fn repeated(piece: &[u8], numbered: bool, k: u64) -> Vec<u8> {
    let alnum = |c: &u8| c.is_ascii_alphanumeric();
    let word = piece.iter().position(alnum).map(|i| i + piece[i..].iter().take_while(|c| alnum(c)).count());
    let mut out = vec![];
    for i in 0..k {
        match word {
            Some(w) if numbered && i > 0 => {
                out.extend_from_slice(&piece[..w]);
                out.extend_from_slice(i.to_string().as_bytes());
                out.extend_from_slice(&piece[w..]);
            }
            _ => out.extend_from_slice(piece),
        }
    }
    out
}

/// What a reader may have to make of a text that it refuses in the end: every row
/// of a table counts with its whole header.
fn cells(t: &[u8]) -> u64 {
    let lines: Vec<&[u8]> = t.split(|c| *c == b'\n').collect();
    let header = |l: &&&[u8]| l.contains(&b'{') || l.iter().find(|c| !matches!(c, b' ' | b'-' | b'\t')) == Some(&b'@');
    let cost = |l: &&[u8]| 2 * l.len() as u64;
    lines.iter().filter(header).map(cost).max().unwrap_or(0) * lines.len() as u64
}

struct Point {
    size: u64,
    steps: u64,
    peak: u64,
    text: String,
}

fn measure(op: &Op, pump: &Pump, base: &Option<Vec<u8>>, k: u64, rep: &mut Report) -> Result<Option<Point>, Violation> {
    let mut op = op.clone();
    let mut data = vec![];
    let mut input = 0;
    match (pump, &mut op.kind) {
        (Pump::Value { site, how }, Kind::Enc { v, .. }) => {
            let Some(w) = grown(v, *site, *how, k) else { return Ok(None) };
            input = props::size(&w);
            *v = w;
        }
        (Pump::Value { site, how }, Kind::Dec { src: Src::Doc { node, opts, v, dmg }, .. }) => {
            let Some(w) = grown(v, *site, *how, k) else { return Ok(None) };
            match document_by(*node, EncApi::ToString, opts, &w)? {
                Res::Ok(Out::Text(t)) => data = crate::gen::apply(t.as_bytes(), dmg, 1 << 22),
                _ => return Ok(None),
            }
        }
        (Pump::Text { at, len, unit, numbered }, Kind::Dec { .. }) => {
            let Some(t) = base.as_ref().and_then(|b| pumped(b, *at, *len, *unit, *numbered, k)) else { return Ok(None) };
            data = t;
        }
        _ => return Ok(None),
    }
    let p = pop(0, &op, data.clone(), V::Unit);
    let o = run_one(&p, rep)?;
    let steps = node::steps(op.node);
    let size = input
        + data.len() as u64
        + match &o.res {
            Res::Ok(Out::Val(j)) => weight(j),
            Res::Ok(Out::Text(t)) => t.len() as u64,
            Res::Unsupported => return Ok(None),
            Res::Err(_) | Res::ErrIo(..) => cells(&data),
            _ => 0,
        }
        + o.sink.len() as u64;
    rep.add("steps", steps);
    log_hash(steps);
    note(|| format!("{size} bytes, {steps} steps, peak {}", o.peak));
    let text = if data.is_empty() {
        brief(&op)
    } else {
        format!("{:?}", clip(&String::from_utf8_lossy(&data), 200))
    };
    Ok(Some(Point { size, steps, peak: o.peak, text }))
}

pub fn scale(op: &Op, pump: &Pump, first: u64, rep: &mut Report) -> Result<(), Violation> {
    let most = match pump {
        Pump::Value { how: Grow::Deep | Grow::DeepList | Grow::DeepBoth, .. } => 350,
        _ => 1 << 20,
    };
    let base = match (&op.kind, pump) {
        (Kind::Dec { src, .. }, Pump::Text { .. }) => Some(source(src)?),
        _ => None,
    };
    // how often the part has to be there for a size
    let mut got: Vec<(u64, Point)> = vec![];
    let mut k = 1;
    let mut want = first;
    let mut last: Option<(u64, u64)> = None;
    while got.len() < 4 {
        if k > most {
            return Ok(());
        }
        let Some(p) = measure(op, pump, &base, k, rep)? else { return Ok(()) };
        if let Some((lk, ls)) = last {
            if lk < k && p.size <= ls {
                return Ok(());
            }
        }
        if p.size < want {
            last = Some((k, p.size));
            // the size grows like k or like its square
            k = (k * 2).max(k * want / p.size / 4).max((k * k * want / p.size / 2).isqrt().min(k * 4));
            continue;
        }
        want = p.size * 4;
        last = Some((k, p.size));
        got.push((k, p));
        k = k * 3 / 2 + 1;
        let n = got.len();
        if n < 3 {
            continue;
        }
        // suspicious?
        let (a, b, c) = (&got[n - 3].1, &got[n - 2].1, &got[n - 1].1);
        let sus = |x: fn(&Point) -> u64| {
            let r = |p: &Point| x(p) as f64 / p.size as f64;
            r(c) > 1.7 * r(b) && r(c) > 3.0 * r(a)
        };
        let by = [("steps", sus(|p| p.steps)), ("memory", sus(|p| p.peak))];
        rep.nontrivial = true;
        if n == 3 {
            rep.add("series", 1);
            let r = |p: &Point| p.steps as f64 / p.size as f64;
            let g = (100.0 * r(c) / r(a)) as u64;
            rep.add(match g { 0..=79 => "growth.shrinking", 80..=119 => "growth.even", 120..=199 => "growth.slight", _ => "growth.more" }, 1);
            if by.iter().all(|x| !x.1) {
                return Ok(());
            }
            rep.add("looked_at_twice", 1);
        } else {
            for (what, s) in by {
                if s {
                    let row = |(k, p): &(u64, Point)| format!("{k} times: {} bytes, {} steps, {} bytes of memory", p.size, p.steps, p.peak);
                    return Err(bad(
                        what,
                        format!("{}; {} {:?}; {}", got.iter().map(row).collect::<Vec<_>>().join("; "), brief(op), pump, got[0].1.text),
                    ));
                }
            }
        }
    }
    Ok(())
}
