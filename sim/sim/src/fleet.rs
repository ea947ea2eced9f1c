//! Mixed builds agree: the same value gives the same document everywhere, and
//! a document that is read and written again comes out as it went in (C13).
use crate::exec::*;
use crate::model;
use crate::node;
use crate::oracle::{bad, clip, direct_ok, pop, run_one};
use crate::plan::*;
use proto::*;

fn write(id: usize, w: &Writer, opts: &Opts, v: &V, rep: &mut Report) -> Result<Option<Vec<u8>>, Violation> {
    // key folding needs the json feature
    if !node::can_encode(w.node, w.api, opts) || opts.fold && matches!(w.node, node::ALLOC | node::STD) {
        return Ok(None);
    }
    let op = Op {
        node: w.node,
        kind: Kind::Enc { api: w.api, opts: *opts, v: v.clone() },
        faults: w.faults.clone(),
        chunks: w.chunks.clone(),
        nested: vec![],
    };
    let o = run_one(&pop(id, &op, vec![], V::Unit), rep)?;
    let refused = bad_key(v);
    match &o.res {
        Res::Ok(_) if refused => {
            Err(bad("accepted", format!("writer {id}: a map with a key that is no scalar was encoded; {}", brief(&op))))
        }
        Res::Ok(Out::Text(t)) => Ok(Some(t.clone().into_bytes())),
        Res::Ok(Out::Unit) => Ok(Some(o.sink.clone())),
        Res::Unsupported => Ok(None),
        Res::Err(_) if refused => {
            rep.add("refused_by_all", 1);
            Ok(None)
        }
        _ if o.hard().is_some() => Ok(None),
        r => Err(bad("refused", format!("writer {id}: encoding failed without cause: {}; {}", brief_res(r), brief(&op)))),
    }
}

fn name(w: &Writer) -> String {
    format!("[{}] {:?}", node::NAMES[w.node as usize], w.api)
}

/// Where two texts part.
fn parting(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let from = a[..n].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    let show = |x: &[u8]| clip(&String::from_utf8_lossy(&x[from.min(x.len())..]), 160);
    format!("byte {n}: {:?} against {:?}", show(a), show(b))
}

pub fn execute(opts: &Opts, v: &V, writers: &[Writer], hops: &[(Dec, Writer)], rep: &mut Report) -> Result<(), Violation> {
    let mut first: Option<(Vec<u8>, &Writer)> = None;
    for (i, w) in writers.iter().enumerate() {
        let Some(doc) = write(i, w, opts, v, rep)? else { continue };
        match &first {
            None => first = Some((doc, w)),
            Some((d, u)) => {
                rep.add("documents_compared", 1);
                rep.nontrivial = true;
                if *d != doc {
                    return Err(bad("builds-differ", format!("{} and {} part at {}; {opts:?}", name(u), name(w), parting(d, &doc))));
                }
            }
        }
    }
    let Some((mut doc, w)) = first else { return Ok(()) };
    if opts.fold && !opts.expand {
        // names that look folded: reading does not undo the folding
        return Ok(());
    }
    let mut by = name(w);
    let want = model::denote(v);
    for (i, (dec, w)) in hops.iter().enumerate() {
        let id = writers.len() + 2 * i;
        let mut d = *dec;
        d.opts.indent = opts.indent;
        d.opts.expand = opts.expand;
        if d.node == node::PERF && d.target != Target::Json && !(opts.indent == 2 && !opts.fold && direct_ok(&want, true)) {
            d.target = Target::Json;
        }
        let op = Op { node: d.node, kind: Kind::Dec { dec: d, src: Src::Raw(vec![]) }, faults: vec![], chunks: vec![], nested: vec![] };
        let o = run_one(&pop(id, &op, doc.clone(), V::Unit), rep)?;
        let j = match &o.res {
            Res::Ok(Out::Val(j)) => j.clone(),
            Res::Unsupported => continue,
            r => return Err(bad("unreadable", format!("hop {i}: {by} wrote {:?}, {} gave {}", clip(&String::from_utf8_lossy(&doc), 300), brief(&op), brief_res(r)))),
        };
        let Some(next) = write(id + 1, w, opts, &model::relay_value(&j), rep)? else { continue };
        rep.add("hops", 1);
        if next != doc {
            return Err(bad(
                "unstable",
                format!("hop {i}: written by {by}, read by {} and written by {}: parts at {}; {opts:?}", brief(&op), name(w), parting(&doc, &next)),
            ));
        }
        doc = next;
        by = name(w);
    }
    Ok(())
}
