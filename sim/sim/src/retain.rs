//! Calls keep no memory (C15): what a build of the library has in use after a
//! call has ended does not grow with the number of calls.
use crate::exec::*;
use crate::gen::{self, Cfg};
use crate::model;
use crate::node;
use crate::oracle::{bad, pop, run_one};
use crate::plan::*;
use crate::props;
use crate::rng::{hash_u64, Rng};
use proto::*;

fn prepared(id: usize, op: &Op) -> Result<std::sync::Arc<POp>, Violation> {
    let (data, shape) = match &op.kind {
        Kind::Dec { src, .. } => (source(src)?, shape_of(src)),
        _ => (vec![], V::Unit),
    };
    Ok(pop(id, op, data, shape))
}

pub fn rounds(ops: &[Op], rounds: u32, rep: &mut Report) -> Result<(), Violation> {
    let ps = ops.iter().enumerate().map(|(i, o)| prepared(i, o)).collect::<Result<Vec<_>, _>>()?;
    let mut live = vec![];
    for _ in 0..rounds {
        for p in &ps {
            run_one(p, rep)?;
        }
        live.push(node::live());
    }
    rep.add("rounds", rounds as u64);
    rep.nontrivial = true;
    // what is set up once is no leak: judge the last rounds
    let n = live.len();
    if n >= 5 && live[n - 5..].windows(2).all(|w| w[1] > w[0]) {
        return Err(bad("retained", format!("bytes in use after each round of the same {} calls: {live:?}; {}", ops.len(), brief(&ops[0]))));
    }
    Ok(())
}

/// The same data with keys and strings that no other round has.
fn distinct(v: &V, tag: &str) -> V {
    match v {
        V::Str(s) => V::Str(format!("{s}{tag}")),
        V::Seq(h, a) => V::Seq(*h, a.iter().map(|x| distinct(x, tag)).collect()),
        V::Map(h, m) => V::Map(*h, m.iter().map(|(k, x)| (distinct(k, tag), distinct(x, tag))).collect()),
        v => v.clone(),
    }
}

pub fn fresh(seed: u64, home: u8, rounds: u32, size: u64, rep: &mut Report) -> Result<(), Violation> {
    let mut live = vec![];
    let mut fed = vec![];
    let mut total = 0u64;
    for i in 0..rounds {
        let r = &mut Rng::new(hash_u64(seed, i as u64));
        let mut c = Cfg::swarm(r);
        let v = if r.one_in(2) { gen::big(r, &mut c, size) } else { gen::root(r, &mut c) };
        let v = distinct(&model::relay_value(&model::denote(&v)), &format!("_{i:x}"));
        let os = vec![gen::opts(r, &c)];
        for k in 0..2 {
            let mut o = props::any_op(r, &c, std::slice::from_ref(&v), &os, home, 2);
            o.node = home;
            match &mut o.kind {
                Kind::Enc { api, opts, .. } if !node::can_encode(home, *api, opts) => *api = EncApi::ToString,
                Kind::Dec { dec, .. } => {
                    dec.node = home;
                    if dec.target == Target::Typed {
                        dec.target = Target::Any;
                    }
                    dec.reader &= home != node::ALLOC;
                }
                _ => {}
            }
            total += props::size(&v);
            run_one(&prepared(2 * i as usize + k, &o)?, rep)?;
        }
        live.push(node::live());
        fed.push(total);
    }
    rep.add("rounds", rounds as u64);
    rep.add("fresh_bytes", total);
    rep.nontrivial = true;
    let (h, n) = (live.len() / 2, live.len() - 1);
    let grown = live[n] - live[h];
    if grown > 65536.max((fed[n] - fed[h]) as i64 / 25) {
        return Err(bad(
            "retained",
            format!("{grown} bytes more in use after {} bytes of new data than after {}; {}", fed[n], fed[h], node::NAMES[home as usize]),
        ));
    }
    Ok(())
}
