//! Known findings: defects of the tree that are recorded, not repaired. Each is
//! one document with what a build makes of it and what it should make of it.
use crate::exec::{alone, brief_res, simple, Violation};
use crate::node;
use crate::plan::{Body, Plan};
use proto::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Known {
    node: String,
    target: Target,
    opts: Opts,
    #[serde(default)]
    shape: Option<V>,
    doc: String,
    gives: String,
    should: String,
}

fn show(r: &Res) -> String {
    match r {
        Res::Ok(Out::Val(j)) => crate::cli::to_json(j).to_string(),
        Res::Err(_) => "error".into(),
        r => brief_res(r),
    }
}

fn run(k: &Known) -> String {
    let n = node::NAMES.iter().position(|n| *n == k.node).unwrap() as u8;
    let req = Req::Dec {
        target: k.target,
        opts: k.opts,
        doc: Some(k.doc.clone().into_bytes()),
        shape: k.shape.clone().unwrap_or(V::Unit),
    };
    match alone(&simple(950, n, req)) {
        Ok(o) => show(&o.res),
        Err(v) => v.class,
    }
}

/// Neither right nor the recorded defect?
pub fn execute(k: &Known) -> Result<(), Violation> {
    let got = run(k);
    if got == k.should || got == k.gives {
        return Ok(());
    }
    Err(Violation {
        class: "finding-changed".into(),
        detail: format!("[{}] {:?} decodes {:?} as {got}; right is {}, the recorded defect gives {}", k.node, k.target, k.doc, k.should, k.gives),
    })
}

/// The findings of one property that are still there, and the plans that show
/// other behaviour.
pub fn check(file: &str, id: &str) -> Result<(Vec<String>, Vec<Plan>), String> {
    let text = std::fs::read_to_string(file).map_err(|e| format!("{file}: {e}"))?;
    let (mut there, mut other) = (Vec::new(), Vec::new());
    for l in text.lines() {
        let Some(rest) = l.strip_prefix(&format!("known: property={id} ")) else { continue };
        let mut it = serde_json::Deserializer::from_str(rest).into_iter::<Known>();
        let k = match it.next() {
            Some(Ok(k)) => k,
            x => return Err(format!("{file}: {l}: {:?}", x.and_then(|x| x.err()))),
        };
        if !node::NAMES.contains(&k.node.as_str()) {
            return Err(format!("{file}: no node {}", k.node));
        }
        let what = rest[it.byte_offset()..].trim();
        let got = run(&k);
        if std::env::var("SIM_FINDINGS").is_ok() {
            println!("{l}\t{got}");
        }
        if got == k.gives {
            there.push(format!("{what}: [{}] {:?} decodes {:?} as {got}, should be {}", k.node, k.target, k.doc, k.should));
        } else if got != k.should {
            other.push(Plan { prop: id.to_string(), seed: 0, body: Body::Witness(k) });
        }
    }
    Ok((there, other))
}
