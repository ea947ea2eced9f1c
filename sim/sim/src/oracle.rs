//! What must hold for each property, judged on what a simulated run observed.
use crate::exec::*;
use crate::fork::{forked, Ended};
use crate::gen;
use crate::model;
use crate::node;
use crate::plan::*;
use crate::rng::hash_u64;
use proto::*;
use std::sync::Arc;

pub fn bad(class: &str, detail: String) -> Violation {
    Violation { class: class.into(), detail }
}

pub fn execute(plan: &Plan) -> Report {
    let mut rep = Report::default();
    let r = match &plan.body {
        Body::Hist { clients, preempt } => match plan.prop.as_str() {
            "C01" => c01(clients, preempt, &mut rep),
            "C02" => c02(clients, preempt, &mut rep),
            "C07" => c07(clients, preempt, &mut rep),
            "C08" => c08(clients, preempt, &mut rep),
            _ => c09(clients, preempt, &mut rep),
        },
        Body::Store { steps } => store(steps, &mut rep),
        Body::Damage { enc, raw, decs, variants } => damage(&plan.prop, enc, raw, decs, variants, &mut rep),
        Body::Oom { ops } => oom(ops, &mut rep),
        Body::Fleet { opts, v, writers, hops } => crate::fleet::execute(opts, v, writers, hops, &mut rep),
        Body::Rounds { ops, rounds } => crate::retain::rounds(ops, *rounds, &mut rep),
        Body::Scale { op, pump, first } => crate::effort::scale(op, pump, *first, &mut rep),
        Body::Fresh { seed, home, rounds, size } => crate::retain::fresh(*seed, *home, *rounds, *size, &mut rep),
        Body::Witness(k) => crate::known::execute(k),
        Body::Cli { runs } => crate::cli::execute(&plan.prop, runs, &mut rep),
    };
    if let Err(v) = r {
        if v.class == "harness" {
            rep.harness = Some(v.detail);
        } else if v.detail.contains("exited with 95") || v.detail.contains("exited with 98") || v.detail.contains("exited with 97") {
            rep.harness = Some(v.detail);
        } else {
            rep.violation = Some(v);
        }
    }
    let (h, t) = take_log();
    rep.log = h;
    rep.path = hash_u64(rep.path, h);
    rep.trace = t;
    rep
}

fn at(o: &Outcome, h: &HistOut) -> String {
    let p = &h.ops[o.id];
    format!("op {} {} (fired {:?})", o.id, brief(&p.op), o.fired)
}

fn is_enc(p: &POp) -> bool {
    matches!(p.op.kind, Kind::Enc { .. })
}

// ---- C01 ---------------------------------------------------------------------
fn c01(clients: &[Vec<Op>], preempt: &[(u32, u8)], rep: &mut Report) -> Result<(), Violation> {
    let h = run_hist(clients, preempt, Need::Twin, false, false, rep)?;
    for o in &h.outcomes {
        c01_op(&h.ops[o.id], o).map_err(|(c, d)| bad(c, format!("{d}; {}", at(o, &h))))?;
        if let Kind::Enc { .. } = h.ops[o.id].op.kind {
            rep.add("bytes_accepted", o.sink.len() as u64);
        }
    }
    Ok(())
}
fn c01_op(p: &POp, o: &Outcome) -> Result<(), (&'static str, String)> {
    if let Some(m) = stray_panic(o) {
        return Err(("panic", format!("panicked: {m}")));
    }
    let expect = p.expect.as_deref().unwrap_or(b"");
    if let Some(b) = &o.prefix_bad {
        return Err(("not-a-prefix", format!("the writer got bytes that do not continue the document {b}")));
    }
    let twin = p.refs.twin.as_ref().unwrap();
    let hard: Vec<&Fired> = o.fired.iter().filter(|f| f.act != Act::Intr && f.on == EV_WRITE).collect();
    if let Some(f) = hard.first() {
        if matches!(o.res, Res::Ok(_)) {
            return Err(("ok-after-failure", format!("call succeeded although the writer failed with {:?} at byte {}", f.act, f.at)));
        }
        return io_identity(f, &o.res).map_err(|e| ("wrong-error", e));
    }
    match twin {
        Res::Ok(_) => match &o.res {
            Res::Ok(Out::Unit) => {
                if o.sink != expect {
                    return Err((
                        "ok-but-incomplete",
                        format!("call succeeded but the writer accepted {} of {} bytes", o.sink.len(), expect.len()),
                    ));
                }
                Ok(())
            }
            r => Err(("failed-without-cause", format!("only soft faults, but the call returned {}", brief_res(r)))),
        },
        Res::Unsupported => Ok(()),
        t => {
            if matches!(o.res, Res::Ok(_)) {
                return Err(("ok-for-unencodable", format!("to_string gives {}, the writer call succeeded", brief_res(t))));
            }
            Ok(())
        }
    }
}

// ---- C02 ---------------------------------------------------------------------
fn c02(clients: &[Vec<Op>], preempt: &[(u32, u8)], rep: &mut Report) -> Result<(), Violation> {
    let h = run_hist(clients, preempt, Need::Twin, false, false, rep)?;
    for o in &h.outcomes {
        let p = &h.ops[o.id];
        rep.add("bytes_delivered", o.rpos as u64);
        let e = || at(o, &h);
        if let Some(m) = stray_panic(o) {
            return Err(bad("panic", format!("panicked: {m}; {}", e())));
        }
        if let Some(f) = o.fired.iter().find(|f| f.act != Act::Intr && f.on == EV_READ) {
            if matches!(o.res, Res::Ok(_)) {
                return Err(bad(
                    "ok-after-failure",
                    format!("decoded a value although the reader failed with {:?} at byte {}; {}", f.act, f.at, e()),
                ));
            }
            io_identity(f, &o.res).map_err(|x| bad("wrong-error", format!("{x}; {}", e())))?;
            continue;
        }
        let twin = p.refs.twin.as_ref().unwrap();
        match (&o.res, twin) {
            (Res::Ok(a), Res::Ok(b)) => {
                if a != b {
                    return Err(bad(
                        "different-value",
                        format!("from the reader {}, from the string {}; {}", brief_res(&o.res), brief_res(twin), e()),
                    ));
                }
            }
            (Res::Ok(_), _) | (_, Res::Ok(_)) => {
                return Err(bad(
                    "different-result",
                    format!("from the reader {}, from the string {}; {}", brief_res(&o.res), brief_res(twin), e()),
                ));
            }
            _ => {}
        }
    }
    Ok(())
}

// ---- C07 ---------------------------------------------------------------------
fn c07(clients: &[Vec<Op>], preempt: &[(u32, u8)], rep: &mut Report) -> Result<(), Violation> {
    let h = run_hist(clients, preempt, Need::Twin, false, true, rep)?;
    for o in &h.outcomes {
        let p = &h.ops[o.id];
        let Kind::Enc { v, .. } = &p.op.kind else { continue };
        let e = || at(o, &h);
        let expect = p.expect.as_deref().unwrap_or(b"");
        if let Some(m) = stray_panic(o) {
            return Err(bad("panic", format!("panicked: {m}; {}", e())));
        }
        let bound = (2 << 20) + 200_000 * containers(v) + 1000 * expect.len() as u64;
        if o.peak > bound {
            return Err(bad(
                "memory",
                format!("{} bytes in use for a document of {} bytes; {}", o.peak, expect.len(), e()),
            ));
        }
        if let Some(f) = o.fired.iter().find(|f| f.on == EV_SER) {
            if matches!(o.res, Res::Ok(_)) {
                return Err(bad("error-swallowed", format!("a participant failed, the call returned {}; {}", brief_res(&o.res), e())));
            }
            if !o.sink.is_empty() {
                return Err(bad("partial-document", format!("{} bytes written although a participant failed; {}", o.sink.len(), e())));
            }
            if let (Act::Err(_), Res::Err(_) | Res::ErrIo(..)) = (f.act, &o.res) {
                let msgs: Vec<String> =
                    o.fired.iter().map(|f| failure_text("participant", f.id, style(f.act))).collect();
                let text = match &o.res {
                    Res::Err(m) | Res::ErrIo(_, _, m) => m.clone(),
                    _ => String::new(),
                };
                if !msgs.iter().any(|m| has_token(&text, m)) {
                    return Err(bad("message-lost", format!("expected {msgs:?} in the error, got {text:?}; {}", e())));
                }
            }
            continue;
        }
        same_as_twin(p, o).map_err(|x| bad("output-changed", format!("{x}; {}", e())))?;
    }
    Ok(())
}

fn style(a: Act) -> u64 {
    match a {
        Act::Err(c) => c,
        _ => 0,
    }
}

/// `m` occurs and is not merely the beginning of a longer number.
fn has_token(text: &str, m: &str) -> bool {
    text.match_indices(m).any(|(i, _)| !text[i + m.len()..].starts_with(|c: char| c.is_ascii_digit()))
}

/// Text or accepted bytes equal the twin's text; failures correspond.
fn same_as_twin(p: &POp, o: &Outcome) -> Result<(), String> {
    let twin = p.refs.twin.as_ref().unwrap();
    match (&o.res, twin) {
        (Res::Ok(Out::Text(a)), Res::Ok(Out::Text(b))) if a != b => {
            Err(format!("expected {}, got {}", brief_res(twin), brief_res(&o.res)))
        }
        (Res::Ok(Out::Unit), Res::Ok(Out::Text(b))) if o.sink != b.as_bytes() => {
            Err(format!("the writer accepted {} of {} bytes or other ones", o.sink.len(), b.len()))
        }
        (Res::Ok(_), Res::Ok(_)) => Ok(()),
        (Res::Ok(_), t) | (t, Res::Ok(_)) => Err(format!("got {}, alone {}", brief_res(&o.res), brief_res(t))),
        _ => Ok(()),
    }
}

// ---- C08 ---------------------------------------------------------------------
fn c08(clients: &[Vec<Op>], preempt: &[(u32, u8)], rep: &mut Report) -> Result<(), Violation> {
    let h = run_hist(clients, preempt, Need::Twin, false, false, rep)?;
    for o in &h.outcomes {
        let p = &h.ops[o.id];
        if is_enc(p) {
            continue;
        }
        let e = || at(o, &h);
        if let Some(m) = stray_panic(o) {
            return Err(bad("panic", format!("panicked: {m}; {}", e())));
        }
        let twin = p.refs.twin.as_ref().unwrap();
        match o.fired.iter().find(|f| f.on == EV_DE) {
            None => {
                if o.res != *twin && (matches!(o.res, Res::Ok(_)) || matches!(twin, Res::Ok(_))) {
                    return Err(bad(
                        "later-call-changed",
                        format!("got {}, alone {}; {}", brief_res(&o.res), brief_res(twin), e()),
                    ));
                }
            }
            Some(f) => match f.act {
                Act::Stop => {}
                Act::Panic => {
                    if !matches!(&o.res, Res::Panic(m) if m.contains("simulated-panic-")) {
                        return Err(bad("panic-lost", format!("the consumer panicked, the call returned {}; {}", brief_res(&o.res), e())));
                    }
                }
                _ => {
                    let want = failure_text("consumer", f.id, style(f.act));
                    match &o.res {
                        Res::Err(m) | Res::ErrIo(_, _, m) => {
                            if !has_token(m, &want) {
                                return Err(bad("message-lost", format!("expected {want:?} in the error, got {m:?}; {}", e())));
                            }
                        }
                        r => {
                            return Err(bad(
                                "error-swallowed",
                                format!("the consumer refused a value, the call returned {}; {}", brief_res(r), e()),
                            ))
                        }
                    }
                }
            },
        }
    }
    Ok(())
}

// ---- C09 ---------------------------------------------------------------------
fn c09(clients: &[Vec<Op>], preempt: &[(u32, u8)], rep: &mut Report) -> Result<(), Violation> {
    let h = run_hist(clients, preempt, Need::Full, true, false, rep)?;
    for o in &h.outcomes {
        let p = &h.ops[o.id];
        let (res, sink) = p.refs.full.as_ref().unwrap();
        if (&o.res, &o.sink) != (res, sink) {
            let class = if std::mem::discriminant(&o.res) != std::mem::discriminant(res) { "different-outcome" } else { "different-result" };
            return Err(bad(
                class,
                format!(
                    "got {} and {} bytes written, alone {} and {} bytes; {}",
                    brief_res(&o.res),
                    o.sink.len(),
                    brief_res(res),
                    sink.len(),
                    at(o, &h)
                ),
            ));
        }
        if let Some(m) = stray_panic(o) {
            return Err(bad("panic", format!("panicked: {m}; {}", at(o, &h))));
        }
    }
    Ok(())
}

// ---- C03: storage, relays, crashes ----------------------------------------------
#[derive(Clone, Default)]
struct File {
    bytes: Vec<u8>,
    /// value acknowledged, its shape, how it was encoded
    value: Option<V>,
    orig: Option<V>,
    opts: Opts,
    by: u8,
    /// folded among names that look folded: what matters is what it says where
    loose: bool,
}

/// The file says what was sent.
fn says(f: &File, want: &J, got: &J) -> bool {
    model::same(want, got) || f.loose && model::flat_same(want, got)
}
fn loose(o: &Opts) -> bool {
    o.fold && !o.expand
}

pub fn pop(id: usize, op: &Op, data: Vec<u8>, shape: V) -> Arc<POp> {
    let req = match &op.kind {
        Kind::Enc { api, opts, v } => enc_req(*api, opts, v),
        Kind::Dec { dec, .. } => Req::Dec {
            target: dec.target,
            opts: dec.opts,
            doc: if dec.reader { None } else { Some(data.clone()) },
            shape,
        }
        .to_bytes(),
    };
    Arc::new(POp { id, op: op.clone(), req, data, refs: Refs::default(), nested: vec![], expect: None })
}

fn store(steps: &[Step], rep: &mut Report) -> Result<(), Violation> {
    // epochs end with a crash; each runs in a process of its own
    let mut disk: std::collections::BTreeMap<u8, File> = Default::default();
    let mut from = 0;
    while from < steps.len() {
        let to = steps[from..].iter().position(|s| matches!(s, Step::Crash)).map_or(steps.len(), |p| from + p);
        let last = to == steps.len();
        let before = rep.clone();
        let mut local = disk.clone();
        let epoch = &steps[from..to];
        let (lh, _) = peek_log();
        let e = forked(20, 120, || {
            let mut r = Report { stats: Default::default(), ..before.clone() };
            let res = run_epoch(from, epoch, &mut local, &mut r);
            let (h, t) = take_log();
            r.log = h;
            r.trace = t;
            if let Err(v) = res {
                r.violation = Some(v);
            }
            // what survives: the synced files
            let files: Vec<(u8, Vec<u8>, Option<Vec<u8>>, Option<Vec<u8>>, Vec<u8>, u8, bool)> = local
                .iter()
                .map(|(k, f)| {
                    (
                        *k,
                        f.bytes.clone(),
                        f.value.as_ref().map(|v| v.to_bytes()),
                        f.orig.as_ref().map(|v| v.to_bytes()),
                        f.opts.to_bytes(),
                        f.by,
                        f.loose,
                    )
                })
                .collect();
            serde_json::to_vec(&(r, files)).unwrap()
        });
        match e {
            Ended::Ok(b) => {
                type Saved = (u8, Vec<u8>, Option<Vec<u8>>, Option<Vec<u8>>, Vec<u8>, u8, bool);
                let (r, files): (Report, Vec<Saved>) = crate::from_json_bytes(&b).map_err(|e| bad("harness", e.to_string()))?;
                for (k, n) in &r.stats {
                    rep.add(k, *n);
                }
                rep.path = r.path;
                rep.nontrivial |= r.nontrivial;
                put_log(r.log ^ lh, r.trace);
                if let Some(v) = r.violation {
                    return Err(v);
                }
                disk = files
                    .into_iter()
                    .map(|(k, bytes, v, o, opts, by, loose)| {
                        (
                            k,
                            File {
                                bytes,
                                value: v.map(|v| V::from_bytes(&v)),
                                orig: o.map(|v| V::from_bytes(&v)),
                                opts: Opts::from_bytes(&opts),
                                by,
                                loose,
                            },
                        )
                    })
                    .collect();
            }
            e => return Err(died(&e, &format!("step {} or later", page().get(PG_OP)))),
        }
        if !last {
            rep.add("fault.crash_and_restart", 1);
            rep.nontrivial = true;
        }
        from = to + 1;
    }
    Ok(())
}

fn run_epoch(
    base: usize,
    steps: &[Step],
    disk: &mut std::collections::BTreeMap<u8, File>,
    rep: &mut Report,
) -> Result<(), Violation> {
    for (i, s) in steps.iter().enumerate() {
        let id = base + i;
        match s {
            Step::Crash => {}
            Step::Put { file, op } | Step::TornPut { file, op, .. } => {
                let Kind::Enc { opts, v, .. } = &op.kind else { continue };
                let torn = matches!(s, Step::TornPut { .. });
                let p = pop(id, op, vec![], V::Unit);
                let o = run_one(&p, rep)?;
                let bytes = match (&o.res, torn) {
                    (Res::Ok(Out::Text(t)), _) => t.clone().into_bytes(),
                    (Res::Ok(Out::Unit), _) => o.sink.clone(),
                    (Res::Unsupported, _) => continue,
                    (_, true) => o.sink.clone(),
                    (r, false) => {
                        if o.hard().is_some() {
                            rep.add("puts_failed", 1);
                            continue;
                        }
                        return Err(bad("put-failed", format!("step {id}: encoding failed without cause: {}; {}", brief_res(r), brief(op))));
                    }
                };
                if torn {
                    // the client died before the acknowledgement: any prefix may be there
                    let Step::TornPut { at, .. } = s else { continue };
                    let n = (*at as usize).min(bytes.len());
                    rep.add("fault.torn_write", 1);
                    rep.nontrivial = true;
                    disk.insert(*file, File { bytes: bytes[..n].to_vec(), value: None, orig: None, opts: *opts, by: op.node, loose: false });
                    continue;
                }
                rep.add("puts_acknowledged", 1);
                disk.insert(*file, File { bytes, value: Some(v.clone()), orig: Some(v.clone()), opts: *opts, by: op.node, loose: loose(opts) });
            }
            Step::Get { file, dec, chunks, faults } => {
                let Some(f) = disk.get(file).cloned() else { continue };
                let (o, dec) = get(id, &f, dec, chunks, faults, rep)?;
                let Some(v) = &f.value else {
                    if let Some(m) = stray_panic(&o) {
                        return Err(bad("panic", format!("step {id}: decoding a torn file panicked: {m}")));
                    }
                    continue;
                };
                if o.hard().is_some() {
                    continue;
                }
                let want = model::denote(v);
                match &o.res {
                    Res::Ok(Out::Val(j)) if says(&f, &want, j) => {
                        rep.add(if f.loose { "reads_verified_folded" } else { "reads_verified" }, 1);
                    }
                    Res::Unsupported => {}
                    r => {
                        let class = if matches!(r, Res::Ok(_)) { "different-value" } else { "unreadable" };
                        let orig = f.orig.as_ref().map(|v| format!("{:?}", model::denote(v))).unwrap_or_default();
                        return Err(bad(
                            class,
                            format!(
                                "step {id}: [{}] wrote {:?} ({:?}), [{}] {:?} {:?} read {}; sent {}",
                                node::NAMES[f.by as usize],
                                clip(&String::from_utf8_lossy(&f.bytes), 400),
                                f.opts,
                                node::NAMES[dec.node as usize],
                                dec.target,
                                dec.opts,
                                brief_res(r),
                                clip(&orig, 400)
                            ),
                        ));
                    }
                }
            }
            Step::Relay { from, to, dec, node: n, api, opts } => {
                let Some(f) = disk.get(from).cloned() else { continue };
                let Some(v) = &f.value else { continue };
                let mut d = *dec;
                if d.target == Target::Typed {
                    d.target = Target::Any;
                }
                let (o, d) = get(id, &f, &d, &[], &[], rep)?;
                let j = match &o.res {
                    Res::Ok(Out::Val(j)) if says(&f, &model::denote(v), j) => j.clone(),
                    Res::Unsupported => continue,
                    r => {
                        return Err(bad(
                            if matches!(r, Res::Ok(_)) { "different-value" } else { "unreadable" },
                            format!(
                                "step {id}: relay could not read {:?} ({:?}) with [{}] {:?}: {}",
                                clip(&String::from_utf8_lossy(&f.bytes), 400),
                                f.opts,
                                node::NAMES[d.node as usize],
                                d.opts,
                                brief_res(r)
                            ),
                        ))
                    }
                };
                let rv = model::relay_value(&j);
                if !node::can_encode(*n, *api, opts) {
                    continue;
                }
                let op = Op {
                    node: *n,
                    kind: Kind::Enc { api: *api, opts: *opts, v: rv.clone() },
                    faults: vec![],
                    chunks: vec![],
                    nested: vec![],
                };
                let o = run_one(&pop(id, &op, vec![], V::Unit), rep)?;
                let bytes = match &o.res {
                    Res::Ok(Out::Text(t)) => t.clone().into_bytes(),
                    Res::Ok(Out::Unit) => o.sink.clone(),
                    Res::Unsupported => continue,
                    r => return Err(bad("put-failed", format!("step {id}: re-encoding failed: {}; {}", brief_res(r), brief(&op)))),
                };
                rep.add("relays", 1);
                // numbers may be re-typed on the way: what was sent still counts
                disk.insert(*to, File { bytes, value: Some(v.clone()), orig: Some(rv), opts: *opts, by: *n, loose: f.loose || loose(opts) });
            }
        }
    }
    Ok(())
}

pub fn clip(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

pub fn run_one(p: &Arc<POp>, rep: &mut Report) -> Result<Outcome, Violation> {
    let o = run_op(0, p, 0).pop().unwrap();
    rep.add("operations", 1);
    for f in &o.fired {
        rep.add(&format!("fault.{}", fault_name(f)), 1);
        rep.nontrivial = true;
    }
    for (k, name) in [(1, "writes"), (3, "reads"), (6, "allocations")] {
        rep.add(&format!("events.{name}"), o.counts[k]);
    }
    rep.add("bytes_io", (o.sink.len() + o.rpos) as u64);
    rep.path = hash_u64(rep.path, o.counts[1] << 32 ^ o.counts[3] << 8 ^ o.fired.len() as u64);
    Ok(o)
}

/// Data whose documents the direct deserializer understands (it reads an older
/// dialect of arrays and no root arrays: see the known findings).
pub fn direct_ok(j: &J, root: bool) -> bool {
    match j {
        J::Obj(m) => {
            !(root && m.is_empty())
                && m.iter().all(|(k, v)| {
                    k.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
                        && k.bytes().next().is_some_and(|c| !c.is_ascii_digit())
                        && direct_ok(v, false)
                })
        }
        J::Arr(a) => {
            let table = !a.is_empty()
                && a.iter().all(|x| {
                    matches!(x, J::Obj(m) if m.len() == keys(&a[0]).len()
                        && m.iter().all(|(k, v)| keys(&a[0]).contains(&k) && !matches!(v, J::Arr(_) | J::Obj(_))))
                });
            let first_array = |x: &J| matches!(x, J::Obj(m) if matches!(m.first(), Some((_, J::Arr(_)))));
            !root && !table && a.iter().all(|x| !matches!(x, J::Arr(_)) && !first_array(x) && direct_ok(x, false))
        }
        _ => !root,
    }
}

fn keys(j: &J) -> Vec<&String> {
    match j {
        J::Obj(m) => m.iter().map(|(k, _)| k).collect(),
        _ => vec![],
    }
}

/// No options, newtypes or enums in it.
fn plain(v: &V) -> bool {
    match v {
        V::None | V::Some(_) | V::UnitVar(_) | V::NtStruct(_) | V::NtVar(..) | V::TVar(..) | V::SVar(..) => false,
        V::Seq(_, a) | V::Tuple(a) | V::TStruct(a) => a.iter().all(plain),
        V::Map(_, m) => m.iter().all(|(k, x)| plain(k) && plain(x)),
        V::Struct(m) => m.iter().all(|x| plain(&x.1)),
        _ => true,
    }
}

fn get(id: usize, f: &File, dec: &Dec, chunks: &[u32], faults: &[Fault], rep: &mut Report) -> Result<(Outcome, Dec), Violation> {
    let mut d = *dec;
    // these two must fit how the file was written
    d.opts.indent = f.opts.indent;
    if f.loose {
        d.opts.expand = false;
        if d.target == Target::Typed {
            d.target = Target::Any;
        }
        if d.node == node::PERF {
            d.target = Target::Json;
        }
    } else if f.opts.fold {
        d.opts.expand = true;
    }
    if d.node == node::PERF && d.target != Target::Json {
        let ok = f.opts.indent == 2
            && !d.opts.expand
            && f.orig.as_ref().is_some_and(|v| direct_ok(&model::denote(v), true) && (d.target == Target::Any || plain(v)));
        if !ok {
            d.target = Target::Json;
        }
    }
    let op = Op {
        node: d.node,
        kind: Kind::Dec { dec: d, src: Src::Raw(vec![]) },
        faults: faults.to_vec(),
        chunks: chunks.to_vec(),
        nested: vec![],
    };
    let shape = f.orig.clone().unwrap_or(V::Unit);
    let o = run_one(&pop(id, &op, f.bytes.clone(), shape), rep)?;
    Ok((o, d))
}

// ---- C04, C05, C06 ------------------------------------------------------------
fn damage(
    prop: &str,
    enc: &Op,
    raw: &Option<Vec<u8>>,
    decs: &[Dec],
    variants: &[Vec<Dmg>],
    rep: &mut Report,
) -> Result<(), Violation> {
    let Kind::Enc { opts, v, api } = &enc.kind else { return Ok(()) };
    let doc = match raw {
        Some(b) => b.clone(),
        None => match document_by(enc.node, *api, opts, v)? {
            Res::Ok(Out::Text(t)) => t.into_bytes(),
            _ => {
                rep.add("documents_refused", 1);
                return Ok(());
            }
        },
    };
    let orig = model::denote(v);
    let small = V::Map(
        Hint::Exact,
        vec![
            (V::Str("a".into()), V::U64(1)),
            (V::Str("b".into()), V::Seq(Hint::Exact, vec![V::Bool(true), V::Str("x y".into())])),
        ],
    );
    let probe = b"a: 1\nb[2]: true,x y".to_vec();
    let cap = 65536;
    let mut intact: Vec<Option<J>> = vec![];
    if prop == "C14" || prop == "C19" {
        for (k, d) in decs.iter().enumerate() {
            let op = Op { node: d.node, kind: Kind::Dec { dec: *d, src: Src::Raw(vec![]) }, faults: vec![], chunks: vec![], nested: vec![] };
            let o = run_one(&pop(200_000 + k, &op, doc.clone(), v.clone()), rep)?;
            intact.push(match o.res {
                Res::Ok(Out::Val(j)) => Some(j),
                _ => None,
            });
        }
    }
    let mut aired: Option<(u64, Vec<u8>)> = None;
    for (i, dmg) in variants.iter().enumerate() {
        let whole = &doc;
        let (doc, dmg) = match &dmg[..] {
            [Dmg::Air(s), rest @ ..] => {
                if aired.as_ref().is_none_or(|a| a.0 != *s) {
                    aired = Some((*s, air(whole, *s, &decs[0], v, rep)?));
                }
                (&aired.as_ref().unwrap().1, rest)
            }
            all => (whole, all),
        };
        let blank = doc.iter().take_while(|c| c.is_ascii_whitespace()).count();
        let first_nl = doc[blank..].iter().position(|c| *c == b'\n').map_or(doc.len(), |n| blank + n);
        let bytes = match dmg {
            [] => doc.clone(),
            [Dmg::Mangle(m, site, arg)] if prop != "C19" => match std::str::from_utf8(doc).ok().and_then(|t| crate::mangle::apply(t, opts.indent as usize, *m, *site, *arg)) {
                Some(t) if t.as_bytes() != &doc[..] => t.into_bytes(),
                _ => continue,
            },
            _ if prop == "C19" => {
                let Ok(mut t) = String::from_utf8(doc.clone()) else { continue };
                for d in dmg {
                    let Dmg::Mangle(m, site, arg) = d else { continue };
                    t = crate::mangle::noise(&t, opts.indent as usize, *m, *site, *arg);
                }
                t.into_bytes()
            }
            _ => gen::apply(doc, dmg, cap),
        };
        for d in dmg {
            rep.add(&format!("fault.{}", dmg_name(d)), 1);
        }
        if bytes != *doc || raw.is_some() {
            rep.nontrivial = true;
        }
        let mut read: Vec<Option<J>> = vec![];
        let mut lines: Option<(Option<usize>, String)> = None;
        for (k, d) in decs.iter().enumerate() {
            let mut d = *d;
            if prop == "C16" || prop == "C17" && dmg_is_bytes(dmg) {
                let f = decs[0].opts;
                d.opts = Opts { delim: d.opts.delim, ..f };
            }
            let d = &d;
            let id = i * decs.len() + k;
            if prop == "C19" && d.opts.strict && !dmg.iter().all(|x| matches!(x, Dmg::Mangle(m, ..) if crate::mangle::harmless(*m))) {
                continue;
            }
            // how the readers get the text: in the encoder's stead
            let (faults, chunks) = if d.reader { (enc.faults.clone(), enc.chunks.clone()) } else { (vec![], vec![]) };
            let op = Op { node: d.node, kind: Kind::Dec { dec: *d, src: Src::Raw(vec![]) }, faults, chunks, nested: vec![] };
            let shape = if d.target == Target::Typed { v.clone() } else { V::Unit };
            let p = pop(id, &op, bytes.clone(), shape);
            let o = run_one(&p, rep)?;
            let e = || format!("variant {i} {:?} of {:?}, [{}] {:?} {:?}", dmg, clip(&String::from_utf8_lossy(doc), 300), node::NAMES[d.node as usize], d.target, d.opts);
            if let Some(m) = stray_panic(&o) {
                return Err(bad("panic", format!("decoding panicked: {m}; {}", e())));
            }
            match prop {
                "C04" => {
                    if let Res::Ok(Out::Val(j)) = &o.res {
                        rep.add("cuts_decoded", 1);
                        if !model::cut_ok(&orig, j, bytes.len() <= first_nl) {
                            return Err(bad(
                                "cut-mistaken",
                                format!("{:?} decoded as {}; {}", clip(&String::from_utf8_lossy(&bytes), 300), brief_res(&o.res), e()),
                            ));
                        }
                    } else {
                        rep.add("cuts_refused", 1);
                    }
                }
                "C16" => {
                    let got = match o.res {
                        Res::Ok(Out::Val(j)) => Some(settled(j)),
                        Res::Unsupported => continue,
                        _ => None,
                    };
                    if let Some(first) = read.first() {
                        rep.add("texts_compared", 1);
                        let alike = match (first, &got) {
                            (Some(a), Some(b)) => model::same(a, b) && model::same(b, a),
                            (None, None) => true,
                            _ => false,
                        };
                        if !alike {
                            return Err(bad(
                                "read-differently",
                                format!("{:?} is {} to {} and {} to {}; {}", clip(&String::from_utf8_lossy(&bytes), 300), brief_read(first), dec_name(&decs[0]), brief_read(&got), dec_name(d), e()),
                            ));
                        }
                    }
                    read.push(got);
                }
                "C14" => {
                    let [Dmg::Mangle(m, ..)] = dmg else { continue };
                    if let Res::Ok(Out::Val(j)) = &o.res {
                        rep.add("mangled_decoded", 1);
                        if !crate::mangle::forgivable(*m) || !matches!(&intact[k], Some(w) if w == j) {
                            return Err(bad(
                                crate::mangle::name(*m),
                                format!("{:?} decoded as {}; {}", clip(&String::from_utf8_lossy(&bytes), 300), brief_res(&o.res), e()),
                            ));
                        }
                    } else {
                        rep.add("mangled_refused", 1);
                    }
                }
                "C19" => {
                    let Some(w) = &intact[k] else { continue };
                    match &o.res {
                        Res::Ok(Out::Val(j)) if j == w => rep.add(if d.opts.strict { "noise_passed_strict" } else { "noise_passed_lenient" }, 1),
                        r => return Err(bad("noise", format!("{:?} instead of {w:?} is {}; {}", clip(&String::from_utf8_lossy(&bytes), 300), brief_res(r), e()))),
                    }
                }
                "C17" => {
                    let Res::Err(m) = &o.res else {
                        rep.add("damaged_decoded", 1);
                        continue;
                    };
                    rep.add("damaged_refused", 1);
                    let text = String::from_utf8_lossy(&bytes);
                    let n = line_named(m);
                    let what = || format!("{:?} is refused with {m:?}; {}", clip(&text, 300), e());
                    if let Some((w, by)) = &lines {
                        if *w != n {
                            return Err(bad("lines-differ", format!("{} (but {by:?} elsewhere)", what())));
                        }
                    }
                    lines = Some((n, m.clone()));
                    let Some(n) = n else {
                        if std::str::from_utf8(&bytes).is_ok() && !d.opts.expand {
                            return Err(bad("no-line", what()));
                        }
                        continue;
                    };
                    if n == 0 || n > text.split('\n').count() {
                        return Err(bad("line-outside", what()));
                    }
                    if let [Dmg::Mangle(m, ..)] = dmg {
                        let at = 1 + bytes.iter().zip(doc).take_while(|(a, b)| a == b).filter(|x| *x.0 == b'\n').count();
                        let next = at + 1 + text.split('\n').skip(at).take_while(|l| l.trim_matches([' ', '\t', '\r']).is_empty()).count();
                        let right = if crate::mangle::local(*m) {
                            n == at
                        } else {
                            // the line after it may be the first that makes no sense, and a header
                            // may find that its array has become another
                            n == at || n == next || n > at && *m == crate::mangle::Mangling::Wrap || n < at && text.split('\n').nth(n - 1).is_some_and(|l| l.contains('['))
                        };
                        if !right {
                            return Err(bad("wrong-line", format!("{} in line {at}: {}", crate::mangle::name(*m), what())));
                        }
                        rep.add("lines_right", 1);
                    }
                }
                "C05" => {
                    if let (Res::Ok(Out::Val(j)), Ok(t)) = (&o.res, std::str::from_utf8(&bytes)) {
                        rep.add("damaged_decoded", 1);
                        if let Err(x) = model::lengths_ok(t, j, true) {
                            return Err(bad("wrong-length", format!("{x}: {:?} decoded as {}; {}", clip(t, 300), brief_res(&o.res), e())));
                        }
                    } else {
                        rep.add("damaged_refused", 1);
                    }
                }
                _ => {
                    let bound = (4 << 20) + 1500 * bytes.len() as u64 + table_bound(&bytes);
                    if o.peak > bound {
                        return Err(bad("memory", format!("{} bytes in use for {} bytes of input; {}", o.peak, bytes.len(), e())));
                    }
                    rep.add(if matches!(o.res, Res::Ok(_)) { "damaged_decoded" } else { "damaged_refused" }, 1);
                }
            }
        }
        if let (Some(Some(j)), "C16") = (read.first(), prop) {
            rep.add("texts_read", 1);
            rep.nontrivial = true;
            pass_on(i, &bytes, j, decs, opts, rep)?;
        }
        if prop == "C06" && (i % 8 == 7 || i + 1 == variants.len()) {
            // the process is still usable
            let mut seen = vec![];
            for d in decs {
                if seen.contains(&d.node) {
                    continue;
                }
                seen.push(d.node);
                let dd = Dec { node: d.node, target: Target::Json, opts: Opts::default(), reader: false };
                let op = Op { node: d.node, kind: Kind::Dec { dec: dd, src: Src::Raw(vec![]) }, faults: vec![], chunks: vec![], nested: vec![] };
                let o = run_one(&pop(100_000 + i, &op, probe.clone(), small.clone()), rep)?;
                match &o.res {
                    Res::Ok(Out::Val(j)) if model::same(&model::denote(&small), j) => {}
                    r => return Err(bad("unusable-afterwards", format!("after variant {i}: an intact document gives {}", brief_res(r)))),
                }
            }
        }
    }
    Ok(())
}

fn brief_read(r: &Option<J>) -> String {
    match r {
        Some(j) => clip(&format!("{j:?}"), 300),
        None => "not readable".into(),
    }
}
fn dec_name(d: &Dec) -> String {
    format!("[{}] {:?}", node::NAMES[d.node as usize], d.target)
}

/// In terms of what a document can say, and as a map takes it: of entries with the same key the last one counts.
fn settled(j: J) -> J {
    match j {
        J::Arr(a) => J::Arr(a.into_iter().map(settled).collect()),
        J::Obj(m) => {
            let mut at = std::collections::HashMap::new();
            let mut out: Vec<(String, J)> = Vec::new();
            for (k, v) in m {
                let v = settled(v);
                match at.get(&k) {
                    Some(&i) => {
                        let e: &mut (String, J) = &mut out[i];
                        e.1 = v
                    }
                    None => {
                        at.insert(k.clone(), out.len());
                        out.push((k, v))
                    }
                }
            }
            J::Obj(out)
        }
        // a literal beyond f64 is an infinity, which has no text
        J::Float(f) if !f.is_finite() => J::Null,
        j => j,
    }
}

/// What was read can be passed on: lenient reading gives the same, and all
/// builds write it the same way, and what they write reads as the same again.
/// Every row of a table repeats its header: that much may a short row take.
fn table_bound(t: &[u8]) -> u64 {
    let lines: Vec<&[u8]> = t.split(|c| *c == b'\n').collect();
    let cost = |l: &&[u8]| l.len() as u64 + 150 * (1 + l.iter().filter(|c| matches!(c, b',' | b'|' | b'\t' | b' ')).count() as u64);
    let header = |l: &&&[u8]| l.contains(&b'{') || l.iter().find(|c| !matches!(c, b' ' | b'-' | b'\t')) == Some(&b'@');
    lines.iter().filter(header).map(|l| cost(l)).max().unwrap_or(0) * lines.len() as u64
}
/// The document with blank lines where this reader accepts them and reads the same.
fn air(doc: &[u8], seed: u64, d: &Dec, v: &V, rep: &mut Report) -> Result<Vec<u8>, Violation> {
    let mut r = crate::rng::Rng::new(seed);
    let mut out = doc.to_vec();
    let mut read = |b: &[u8], k: usize| -> Result<Option<J>, Violation> {
        let op = Op { node: d.node, kind: Kind::Dec { dec: *d, src: Src::Raw(vec![]) }, faults: vec![], chunks: vec![], nested: vec![] };
        Ok(match run_one(&pop(300_000 + k, &op, b.to_vec(), v.clone()), rep)?.res {
            Res::Ok(Out::Val(j)) => Some(j),
            _ => None,
        })
    };
    let Some(want) = read(doc, 0)? else { return Ok(out) };
    for k in 1..=r.range(1, 5) {
        let starts: Vec<usize> = (0..out.len()).filter(|i| *i == 0 || out[i - 1] == b'\n').collect();
        if starts.is_empty() {
            break;
        }
        let at = *r.pick(&starts);
        let blank = *r.pick(&["\n", "\n", "\n\n", "  \n", "    \n"]);
        let mut t = out.clone();
        t.splice(at..at, blank.bytes());
        if read(&t, k as usize)?.is_some_and(|j| model::same(&want, &j) && model::same(&j, &want)) {
            out = t;
        }
    }
    Ok(out)
}
fn dmg_is_bytes(d: &[Dmg]) -> bool {
    !matches!(d, [Dmg::Mangle(..)])
}
fn line_named(m: &str) -> Option<usize> {
    let (_, x) = m.split_once("line ")?;
    x[..x.find(|c: char| !c.is_ascii_digit()).unwrap_or(x.len())].parse().ok()
}

fn pass_on(i: usize, bytes: &[u8], j: &J, decs: &[Dec], opts: &Opts, rep: &mut Report) -> Result<(), Violation> {
    let id = 300_000 + i * 100;
    let text = || clip(&String::from_utf8_lossy(bytes), 300);
    let read = |id, d: Dec, doc: &[u8], rep: &mut Report| -> Result<Res, Violation> {
        let op = Op { node: d.node, kind: Kind::Dec { dec: d, src: Src::Raw(vec![]) }, faults: vec![], chunks: vec![], nested: vec![] };
        Ok(run_one(&pop(id, &op, doc.to_vec(), V::Unit), rep)?.res)
    };
    let d = decs[0];
    if d.opts.strict {
        let l = Dec { opts: Opts { strict: false, ..d.opts }, ..d };
        match read(id, l, bytes, rep)? {
            Res::Ok(Out::Val(k)) if model::same(j, &settled(k.clone())) => {}
            r => return Err(bad("lenient-differs", format!("strict reading of {:?} gives {j:?}, lenient reading {}; {}", text(), brief_res(&r), dec_name(&d)))),
        }
    }
    if d.opts.indent == 2 && !d.opts.expand && d.node != node::WASM {
        match read(id + 50, Dec { target: Target::Parse, reader: false, ..d }, bytes, rep)? {
            Res::Ok(Out::Val(k)) if model::same(j, &settled(k.clone())) => {}
            r => return Err(bad("parser-differs", format!("reading of {:?} gives {j:?}, the parser {}; {}", text(), brief_res(&r), dec_name(&d)))),
        }
    }
    if !d.opts.strict && d.opts.indent == 2 && !d.opts.expand && matches!(d.node, node::DEF | node::PERF) {
        match read(id + 60, Dec { target: Target::Lax, reader: false, ..d }, bytes, rep)? {
            Res::Ok(Out::Val(k)) if model::same(j, &settled(k.clone())) => {}
            r => return Err(bad("parser-differs", format!("reading of {:?} gives {j:?}, parse_to_value {}; {}", text(), brief_res(&r), dec_name(&d)))),
        }
    }
    if model::depth(j) > 40 {
        return Ok(());
    }
    let v = model::relay_value(j);
    let opts = Opts { delim: d.opts.delim, ..*opts };
    let mut first: Option<(u8, String)> = None;
    let mut nodes: Vec<u8> = decs.iter().map(|d| d.node).collect();
    nodes.sort();
    nodes.dedup();
    for n in nodes {
        if !node::can_encode(n, EncApi::ToString, &opts) {
            continue;
        }
        let op = Op { node: n, kind: Kind::Enc { api: EncApi::ToString, opts, v: v.clone() }, faults: vec![], chunks: vec![], nested: vec![] };
        match run_one(&pop(id + 1 + n as usize, &op, vec![], V::Unit), rep)?.res {
            Res::Ok(Out::Text(t)) => match &first {
                None => first = Some((n, t)),
                Some((m, f)) if *f != t => {
                    return Err(bad("written-differently", format!("{:?} is passed on by [{}] as {:?}, by [{}] as {:?}", text(), node::NAMES[*m as usize], clip(f, 300), node::NAMES[n as usize], clip(&t, 300))));
                }
                _ => {}
            },
            r => return Err(bad("not-passed-on", format!("{:?} is read as {j:?}, [{}] cannot write it: {}", text(), node::NAMES[n as usize], brief_res(&r)))),
        }
    }
    let Some((n, t)) = first else { return Ok(()) };
    for d in decs {
        let d = Dec { opts: Opts { strict: true, expand: false, ..d.opts }, ..*d };
        match read(id + 20, d, t.as_bytes(), rep)? {
            Res::Ok(Out::Val(k)) if model::same(j, &settled(k.clone())) => {}
            r => {
                return Err(bad(
                    "changed-on-the-way",
                    format!("{:?} is read as {j:?}, passed on by [{}] as {:?}, and that is {} to {}", text(), node::NAMES[n as usize], clip(&t, 300), brief_res(&r), dec_name(&d)),
                ))
            }
        }
        rep.add("passed_on", 1);
    }
    Ok(())
}

fn dmg_name(d: &Dmg) -> &'static str {
    match d {
        Dmg::Cut(_) => "truncated",
        Dmg::DropLine(_) => "line_lost",
        Dmg::DupLine(_) => "line_repeated",
        Dmg::SwapLines(..) => "lines_swapped",
        Dmg::MoveLine(..) => "line_moved",
        Dmg::DropBlock(..) => "block_lost",
        Dmg::DupBlock(..) => "block_repeated",
        Dmg::SwapBlocks(..) => "blocks_swapped",
        Dmg::ZeroBlock(..) => "block_zeroed",
        Dmg::FlipBit(..) => "bit_flipped",
        Dmg::SetByte(..) => "byte_changed",
        Dmg::Insert(..) => "bytes_inserted",
        Dmg::Remove(..) => "bytes_lost",
        Dmg::Repeat(..) => "bytes_repeated",
        Dmg::Mangle(m, ..) => crate::mangle::name(*m),
        Dmg::Air(_) => "blank_lines_between",
    }
}

// ---- C11 ---------------------------------------------------------------------
fn oom(ops: &[Op], rep: &mut Report) -> Result<(), Violation> {
    let mut id = 0;
    for op in ops {
        let mut r = op.clone();
        r.faults.retain(|f| f.on != EV_ALLOC);
        r.faults.push(Fault { on: EV_ALLOC, at: u64::MAX, act: Act::Err(0), sticky: false });
        let (data, shape) = match &op.kind {
            Kind::Dec { src, .. } => (source(src)?, shape_of(src)),
            _ => (vec![], V::Unit),
        };
        // the same call with enough memory, allocations counted
        let reference = alone(&pop(id, &r, data.clone(), shape.clone()))?;
        if let Some(m) = stray_panic(&reference) {
            return Err(bad("panic", format!("panicked with enough memory: {m}; {}", brief(op))));
        }
        let allocs = reference.counts[EV_ALLOC as usize];
        if allocs == 0 {
            rep.add("calls_without_allocation", 1);
            continue;
        }
        for f in op.faults.iter().filter(|f| f.on == EV_ALLOC) {
            id += 1;
            let mut one = op.clone();
            one.faults.retain(|f| f.on != EV_ALLOC);
            let at = f.at % allocs;
            one.faults.push(Fault { at, ..f.clone() });
            let p0 = pop(id, &one, data.clone(), shape.clone());
            let p = Arc::new(POp { expect: Some(reference.sink.clone()), ..Arc::try_unwrap(p0).ok().unwrap() });
            page().set(PG_PREFIX_BAD, 0);
            let e = forked(10, 90, || {
                let mut o = run_op(0, &p, 0).pop().unwrap();
                let mut w = W::default();
                w.u8(o.fired.iter().any(|f| f.on == EV_ALLOC) as u8);
                Resp { res: std::mem::replace(&mut o.res, Res::Unsupported), allocs: 0, peak: 0, total: 0 }.put(&mut w);
                w.bytes(&o.sink);
                w.0
            });
            rep.add("operations", 1);
            rep.nontrivial = true;
            rep.add(if f.sticky { "fault.alloc.out_of_memory_for_good" } else { "fault.alloc.out_of_memory_once" }, 1);
            let w = || format!("allocation {at} of {allocs} failed (for good: {}); {}", f.sticky, brief(op));
            if page().get(PG_PREFIX_BAD) != 0 {
                return Err(bad("wrong-bytes", format!("the writer got bytes that are not the document; {}", w())));
            }
            match e {
                Ended::Signal(libc::SIGABRT) if page().get(PG_ALLOC_FAILED) != 0 => rep.add("ended_by_abort", 1),
                Ended::Ok(b) => {
                    let mut r = R(&b);
                    let _fired = r.u8();
                    let resp = Resp::get(&mut r);
                    let got = r.bytes().to_vec();
                    if !reference.sink.starts_with(&got) {
                        return Err(bad("wrong-bytes", format!("the writer got bytes that are not the document; {}", w())));
                    }
                    match (&resp.res, &reference.res) {
                        (Res::Ok(a), Res::Ok(b)) => {
                            if a != b {
                                return Err(bad("wrong-success", format!("returned {}, with memory {}; {}", brief_res(&resp.res), brief_res(&reference.res), w())));
                            }
                            if got != reference.sink {
                                return Err(bad(
                                    "wrong-success",
                                    format!("returned Ok with {} of {} bytes written; {}", got.len(), reference.sink.len(), w()),
                                ));
                            }
                            rep.add("succeeded_anyway", 1);
                        }
                        (Res::Ok(_), r) => {
                            return Err(bad("wrong-success", format!("returned {}, with memory {}; {}", brief_res(&resp.res), brief_res(r), w())));
                        }
                        (Res::Panic(_), _) => rep.add("ended_by_panic", 1),
                        _ => rep.add("ended_by_error", 1),
                    }
                }
                e => return Err(died(&e, &w())),
            }
            rep.path = hash_u64(rep.path, at << 1 | f.sticky as u64);
        }
    }
    Ok(())
}
