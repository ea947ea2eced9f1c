//! From a seed to a plan, per property.
use crate::gen::{self, Cfg};
use crate::node::*;
use crate::plan::*;
use crate::rng::Rng;
use proto::*;

pub struct Prop {
    pub id: &'static str,
    pub nodes: &'static [u8],
    pub quick: u64,
    pub thorough: u64,
}
pub const PROPS: [Prop; 19] = [
    Prop { id: "C01", nodes: &[DEF, PERF, STD], quick: 30000, thorough: 600000 },
    Prop { id: "C02", nodes: &[DEF, PERF, STD], quick: 24000, thorough: 480000 },
    Prop { id: "C03", nodes: &[DEF, PERF, ALLOC, STD, WASM], quick: 80000, thorough: 1600000 },
    Prop { id: "C04", nodes: &[DEF, PERF, ALLOC, STD], quick: 60000, thorough: 1200000 },
    Prop { id: "C05", nodes: &[DEF, PERF, ALLOC, STD], quick: 80000, thorough: 1600000 },
    Prop { id: "C06", nodes: &[DEF, PERF, ALLOC, WASM], quick: 56000, thorough: 1120000 },
    Prop { id: "C07", nodes: &[DEF, PERF, ALLOC, STD], quick: 80000, thorough: 1600000 },
    Prop { id: "C08", nodes: &[DEF, PERF, ALLOC, STD], quick: 56000, thorough: 1120000 },
    Prop { id: "C09", nodes: &[DEF, PERF, ALLOC, STD], quick: 14000, thorough: 280000 },
    Prop { id: "C10", nodes: &[DEF], quick: 20000, thorough: 400000 },
    Prop { id: "C11", nodes: &[DEF, PERF, ALLOC], quick: 14000, thorough: 280000 },
    Prop { id: "C12", nodes: &[DEF], quick: 24000, thorough: 480000 },
    Prop { id: "C13", nodes: &[DEF, PERF, ALLOC, STD, WASM], quick: 40000, thorough: 800000 },
    Prop { id: "C14", nodes: &[DEF, PERF, ALLOC, STD, WASM], quick: 40000, thorough: 800000 },
    Prop { id: "C15", nodes: &[DEF, PERF, ALLOC, STD], quick: 20000, thorough: 400000 },
    Prop { id: "C16", nodes: &[DEF, PERF, ALLOC, STD, WASM], quick: 40000, thorough: 800000 },
    Prop { id: "C17", nodes: &[DEF, PERF, ALLOC, STD, WASM], quick: 20000, thorough: 400000 },
    Prop { id: "C19", nodes: &[DEF, PERF, ALLOC, STD, WASM], quick: 40000, thorough: 800000 },
    Prop { id: "C18", nodes: &[SDEF, SPERF, SALLOC], quick: 20000, thorough: 400000 },
];
pub fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

/// Rough length of the text of a value.
pub fn size(v: &V) -> u64 {
    match v {
        V::Str(s) | V::Disp(s) | V::UnitVar(s) => 2 + s.len() as u64,
        V::Bytes(b) => 3 + 3 * b.len() as u64,
        V::Some(x) | V::NtStruct(x) => size(x),
        V::NtVar(n, x) => 3 + n.len() as u64 + size(x),
        V::Seq(_, a) | V::Tuple(a) | V::TStruct(a) => 4 + a.iter().map(|x| 1 + size(x)).sum::<u64>(),
        V::TVar(n, a) => 7 + n.len() as u64 + a.iter().map(|x| 1 + size(x)).sum::<u64>(),
        V::Map(_, m) => m.iter().map(|(k, x)| 2 + size(k) + size(x)).sum(),
        V::Struct(m) => m.iter().map(|(k, x)| 4 + k.len() as u64 + size(x)).sum(),
        V::SVar(n, m) => 4 + n.len() as u64 + m.iter().map(|(k, x)| 4 + k.len() as u64 + size(x)).sum::<u64>(),
        _ => 4,
    }
}
pub fn parts(v: &V) -> u64 {
    1 + match v {
        V::Some(x) | V::NtStruct(x) | V::NtVar(_, x) => parts(x),
        V::Seq(_, a) | V::Tuple(a) | V::TStruct(a) | V::TVar(_, a) => a.iter().map(parts).sum(),
        V::Map(_, m) => m.iter().map(|(k, x)| parts(k) + parts(x)).sum(),
        V::Struct(m) | V::SVar(_, m) => m.iter().map(|x| parts(&x.1)).sum(),
        _ => 0,
    }
}

fn op(node: u8, kind: Kind) -> Op {
    Op { node, kind, faults: vec![], chunks: vec![], nested: vec![] }
}

fn value(r: &mut Rng, c: &mut Cfg, big: u64) -> V {
    if big > 0 && r.one_in(big) {
        let n = *r.pick(&[3000, 8100, 8192, 20_000, 66_000, 140_000, 300_000]);
        let n = r.range(n / 2, n + 100);
        gen::big(r, c, n)
    } else {
        gen::root(r, c)
    }
}

fn writer_api(r: &mut Rng, node: u8) -> EncApi {
    if node == STD {
        *r.pick(&[EncApi::ToWriter, EncApi::SerWriterStreaming])
    } else {
        *r.pick(&[EncApi::ToWriter, EncApi::SerToWriter, EncApi::SerWriterStreaming])
    }
}

fn ser_fault(r: &mut Rng, v: &V, panics: bool) -> Fault {
    let n = parts(v);
    let id = if r.one_in(3) { n - 1 - r.log(n).min(n - 1) } else { r.below(n) };
    let leave = r.one_in(5) as u64;
    let act = if panics && r.one_in(4) { Act::Panic } else { Act::Err(gen::style(r)) };
    Fault { on: EV_SER, at: id * 2 + leave, act, sticky: true }
}

pub fn plan(id: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed ^ crate::rng::hash_bytes(7, id.as_bytes()));
    let r = &mut r;
    let body = match id {
        "C01" => c01(r),
        "C02" => c02(r),
        "C03" => c03(r),
        "C04" => c04(r),
        "C05" => c05(r),
        "C06" => c06(r),
        "C07" => c07(r),
        "C08" => c08(r),
        "C09" => c09(r),
        "C11" => c11(r),
        "C13" => c13(r),
        "C14" => c14(r),
        "C15" => c15(r),
        "C16" => c16(r),
        "C17" => c17(r),
        "C18" => c18(r),
        "C19" => c19(r),
        _ => crate::cli::plan(id, r),
    };
    let mut body = body;
    if let Body::Damage { enc, raw, decs, variants } = &mut body {
        // the writers here are strings: chunks and faults are for the readers
        let Kind::Enc { v, .. } = &enc.kind else { unreachable!() };
        let len = raw.as_ref().map_or(size(v), |x| x.len() as u64);
        if decs.iter().any(|d| d.reader) && len * (variants.len() as u64) < 100_000 {
            enc.chunks = gen::chunks(r);
            enc.faults = gen::soft(r, EV_READ, len);
        }
    }
    settle(&mut body);
    Plan { prop: id.to_string(), seed, body }
}

/// `encode_value` takes a `serde_json::Value`, and serde_json has its own idea
/// of keys: values with other keys go through another entry point.
fn settle(b: &mut Body) {
    fn op(o: &mut Op) {
        if let Kind::Enc { api, v, .. } = &mut o.kind {
            if *api == EncApi::EncodeValue && json_keys_differ(v) {
                *api = EncApi::ToString;
            }
        }
        o.nested.iter_mut().for_each(|n| op(&mut n.2));
    }
    match b {
        Body::Hist { clients, .. } => clients.iter_mut().flatten().for_each(op),
        Body::Store { steps } => {
            for s in steps {
                if let Step::Put { op: o, .. } | Step::TornPut { op: o, .. } = s {
                    op(o)
                }
            }
        }
        Body::Damage { enc, .. } => op(enc),
        Body::Scale { op: o, .. } => op(o),
        Body::Oom { ops } | Body::Rounds { ops, .. } => ops.iter_mut().for_each(op),
        Body::Fleet { v, writers, .. } => {
            if json_keys_differ(v) {
                for w in writers {
                    if w.api == EncApi::EncodeValue {
                        w.api = EncApi::ToString;
                    }
                }
            }
        }
        _ => {}
    }
}
fn json_keys_differ(v: &V) -> bool {
    fn key(k: &V) -> bool {
        match k {
            V::NtStruct(x) => key(x),
            V::Some(_) | V::F32(_) | V::F64(_) | V::Unit | V::None | V::UnitStruct => true,
            k => !key_fits(k),
        }
    }
    any_part(v, &|x| matches!(x, V::Map(_, m) if m.iter().any(|(k, _)| key(k))))
}
fn preempts(r: &mut Rng, max: u64, gap: u64) -> Vec<(u32, u8)> {
    let n = r.below(max + 1);
    (0..n).map(|_| (r.log(gap) as u32, r.below(4) as u8)).collect()
}

fn write_op(r: &mut Rng, c: &mut Cfg, nodes: &[u8]) -> Op {
    let node = *r.pick(nodes);
    let v = value(r, c, 8);
    let opts = gen::opts(r, c);
    let len = size(&v);
    let mut o = op(node, Kind::Enc { api: writer_api(r, node), opts, v });
    o.chunks = gen::chunks(r);
    if len > 20_000 && o.chunks.iter().all(|x| *x < 16) {
        o.chunks = vec![*r.pick(&[100, 1000, 4096, 8192])];
    }
    o.faults = gen::soft(r, EV_WRITE, len);
    if r.one_in(2) {
        o.faults.push(gen::hard(r, EV_WRITE, len));
    }
    o.faults.sort_by_key(|f| f.at);
    if r.one_in(10) {
        let Kind::Enc { v, .. } = &o.kind else { unreachable!() };
        o.faults.push(ser_fault(r, v, false));
    }
    o
}

fn c01(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    c.bad_keys = r.one_in(4);
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    let clients = (0..n)
        .map(|_| {
            let k = r.range(1, if n == 1 { 4 } else { 2 });
            (0..k).map(|_| write_op(r, &mut c, &[DEF, DEF, PERF, STD])).collect()
        })
        .collect();
    Body::Hist { clients, preempt: if n > 1 { preempts(r, 20, 12) } else { vec![] } }
}

fn text_damage(r: &mut Rng, len: u64) -> Vec<Dmg> {
    match r.below(6) {
        0 => vec![Dmg::SetByte(r.below(len), *r.pick(&[0xff, 0xc3, 0x80, 0xe2, 0xf0]))],
        1 => vec![gen::bytes_damage(r, len)],
        2 => vec![Dmg::Insert(r.below(len), "\u{1F600}\u{e9}".as_bytes()[..r.range(1, 5) as usize].to_vec())],
        _ => vec![],
    }
}

/// Any text: written by hand, or no document at all.
fn text(r: &mut Rng, c: &Cfg) -> Vec<u8> {
    if r.one_in(3) {
        gen::soup(r)
    } else {
        gen::hand(r, c)
    }
}

fn src(r: &mut Rng, c: &mut Cfg, nodes: &[u8], big: u64, damage: bool) -> (Src, u64, Opts) {
    let opts = gen::opts(r, c);
    if damage && r.one_in(12) {
        let s = text(r, c);
        let n = s.len() as u64;
        return (Src::Raw(s), n, opts);
    }
    let v = value(r, c, big);
    let len = size(&v).max(1);
    let dmg = if damage { text_damage(r, len) } else { vec![] };
    (Src::Doc { node: *r.pick(nodes), opts, v, dmg }, len, opts)
}

fn target(r: &mut Rng) -> Target {
    *r.pick(&[Target::Json, Target::Json, Target::Any, Target::Typed])
}

fn c02(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    if r.one_in(3) {
        c.str_class = *r.pick(&[0, 5]);
        c.odd_str = 60;
    }
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    let mut clients = Vec::new();
    for _ in 0..n {
        let k = r.range(1, if n == 1 { 4 } else { 2 });
        let mut ops = Vec::new();
        for _ in 0..k {
            let (s, len, e) = src(r, &mut c, &[DEF, STD], 8, true);
            let node = *r.pick(&[DEF, DEF, PERF, STD]);
            let dec = Dec { node, target: target(r), opts: gen::dec_opts(r, &c, &e), reader: true };
            let mut o = op(node, Kind::Dec { dec, src: s });
            o.chunks = gen::chunks(r);
            if len > 20_000 && o.chunks.iter().all(|x| *x < 16) {
                o.chunks = vec![*r.pick(&[100, 1000, 4096, 8192])];
            }
            o.faults = gen::soft(r, EV_READ, len);
            if r.one_in(2) {
                o.faults.push(gen::hard(r, EV_READ, len));
            }
            o.faults.sort_by_key(|f| f.at);
            ops.push(o);
        }
        clients.push(ops);
    }
    Body::Hist { clients, preempt: if n > 1 { preempts(r, 20, 12) } else { vec![] } }
}

const FLEET: [u8; 6] = [DEF, DEF, PERF, ALLOC, STD, WASM];

fn enc_choice(r: &mut Rng, opts: &Opts, nodes: &[u8]) -> (u8, EncApi) {
    loop {
        let n = *r.pick(nodes);
        let a = *r.pick(&ENC_APIS);
        if can_encode_static(n, a, opts) {
            return (n, a);
        }
    }
}
fn can_encode_static(n: u8, a: EncApi, o: &Opts) -> bool {
    crate::node::can_encode(n, a, o)
}

fn dec_choice(r: &mut Rng, c: &Cfg, e: &Opts) -> Dec {
    let node = *r.pick(&FLEET);
    let mut opts = gen::dec_opts(r, c, e);
    let mut target = target(r);
    match node {
        WASM => {
            target = Target::Json;
            opts.expand = e.expand;
        }
        _ => {}
    }
    let reader = node != WASM && node != ALLOC && r.one_in(2);
    Dec { node, target, opts, reader }
}

fn c03(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    let n = r.range(2, 9);
    let files = r.range(1, 3);
    let mut steps = Vec::new();
    let mut opts_of = std::collections::HashMap::new();
    for i in 0..n {
        let f = r.below(files) as u8;
        let kind = if i == 0 { 0 } else { r.below(12) };
        match kind {
            0..=3 => {
                let opts = gen::opts(r, &c);
                let (node, api) = enc_choice(r, &opts, &FLEET);
                let v = value(r, &mut c, 60);
                let len = size(&v);
                let mut o = op(node, Kind::Enc { api, opts, v });
                if api.is_writer() {
                    o.chunks = gen::chunks(r);
                    o.faults = gen::soft(r, EV_WRITE, len);
                    if r.one_in(8) {
                        o.faults.push(gen::hard(r, EV_WRITE, len));
                        o.faults.sort_by_key(|f| f.at);
                    }
                }
                if r.one_in(12) {
                    let at = r.below(len + 1);
                    steps.push(Step::TornPut { file: f, op: o, at });
                } else {
                    steps.push(Step::Put { file: f, op: o });
                    opts_of.insert(f, opts);
                }
            }
            4 => steps.push(Step::Crash),
            5 | 6 => {
                let opts = gen::opts(r, &c);
                let (node, api) = enc_choice(r, &opts, &FLEET);
                let e = *opts_of.get(&f).unwrap_or(&opts);
                let dec = dec_choice(r, &c, &e);
                let to = r.below(files) as u8;
                opts_of.insert(to, opts);
                steps.push(Step::Relay { from: f, to, dec, node, api, opts });
            }
            _ => {
                let e = *opts_of.get(&f).unwrap_or(&Opts::default());
                let dec = dec_choice(r, &c, &e);
                let (mut chunks, mut faults) = (vec![], vec![]);
                if dec.reader {
                    chunks = gen::chunks(r);
                    faults = gen::soft(r, EV_READ, 100);
                }
                steps.push(Step::Get { file: f, dec, chunks, faults });
            }
        }
    }
    // finally every file is read
    for f in 0..files {
        let e = *opts_of.get(&(f as u8)).unwrap_or(&Opts::default());
        for _ in 0..3 {
            let dec = dec_choice(r, &c, &e);
            steps.push(Step::Get { file: f as u8, dec, chunks: vec![], faults: vec![] });
        }
    }
    Body::Store { steps }
}

fn strict(mut o: Opts) -> Opts {
    o.strict = true;
    o.fold = false;
    o.expand = false;
    o
}

fn decs(r: &mut Rng, e: &Opts, n: u64) -> Vec<Dec> {
    (0..n)
        .map(|_| {
            let node = *r.pick(&[DEF, DEF, PERF, ALLOC, STD]);
            let opts = strict(Opts { delim: *r.pick(&[0, 1, 2]), indent: e.indent, ..*e });
            let target = if node == PERF { Target::Json } else { *r.pick(&[Target::Json, Target::Any]) };
            Dec { node, target, opts, reader: r.one_in(4) && node != ALLOC }
        })
        .collect()
}

fn c04(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    c.tables = *r.pick(&[5, 30, 60]);
    let v = gen::root(r, &mut c);
    let opts = strict(gen::opts(r, &c));
    let (node, api) = enc_string(r, &opts);
    let n = decs_count(r);
    let decs = decs(r, &opts, n);
    let est = size(&v) * 3 / 2 + 20;
    let variants = if est <= 220 {
        (0..est).map(|p| vec![Dmg::Cut(p)]).collect()
    } else {
        (0..copies(120, est)).map(|_| vec![Dmg::Cut(r.below(est))]).collect()
    };
    Body::Damage { enc: op(node, Kind::Enc { api, opts, v }), raw: None, decs, variants: aired(r, variants) }
}
/// In some runs the document is one with blank lines in it.
fn aired(r: &mut Rng, mut variants: Vec<Vec<Dmg>>) -> Vec<Vec<Dmg>> {
    if r.one_in(3) {
        let s = r.below(1 << 20);
        variants.iter_mut().for_each(|d| d.insert(0, Dmg::Air(s)));
    }
    variants
}
/// How many damaged copies of a document of this size are read.
fn copies(want: u64, size: u64) -> u64 {
    want.min((1 << 20) / (size + 1)).max(4)
}
fn decs_count(r: &mut Rng) -> u64 {
    *r.pick(&[1, 1, 2, 3])
}
fn enc_string(r: &mut Rng, opts: &Opts) -> (u8, EncApi) {
    loop {
        let (n, a) = enc_choice(r, opts, &[DEF, DEF, PERF, ALLOC, STD]);
        if !a.is_writer() {
            return (n, a);
        }
    }
}

fn c05(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    c.unique_arrays = true;
    c.tables = *r.pick(&[5, 30, 60]);
    let v = gen::root(r, &mut c);
    let opts = strict(gen::opts(r, &c));
    let (node, api) = enc_string(r, &opts);
    let n = decs_count(r);
    let decs = decs(r, &opts, n);
    let lines = parts(&v).min(40);
    let len = size(&v);
    let variants = (0..copies(80, len))
        .map(|_| {
            let k = *r.pick(&[1, 1, 1, 2, 3]);
            (0..k)
                .map(|_| {
                    if r.one_in(4) {
                        let b = *r.pick(&[4, 8, 16, 32, 64, 512]);
                        let i = r.below(len / b + 1);
                        match r.below(3) {
                            0 => Dmg::DropBlock(b, i),
                            1 => Dmg::DupBlock(b, i),
                            _ => Dmg::SwapBlocks(b, i, r.below(len / b + 1)),
                        }
                    } else {
                        gen::line_damage(r, lines + 2)
                    }
                })
                .collect()
        })
        .collect();
    Body::Damage { enc: op(node, Kind::Enc { api, opts, v }), raw: None, decs, variants: aired(r, variants) }
}

fn c14(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    c.tables = *r.pick(&[5, 30, 60]);
    let v = gen::root(r, &mut c);
    let opts = strict(gen::opts(r, &c));
    let (node, api) = enc_string(r, &opts);
    let n = decs_count(r);
    let mut decs = decs(r, &opts, n);
    if opts.indent == 2 && r.one_in(4) {
        decs.push(Dec { node: WASM, target: Target::Json, opts: strict(opts), reader: false });
    }
    let variants = (0..copies(60, size(&v)))
        .map(|_| {
            let m = *r.pick(&crate::mangle::ALL);
            let site = if r.one_in(4) { u64::MAX - r.log(64) } else { r.below(1 << 20) };
            vec![Dmg::Mangle(m, site, r.below(1 << 20))]
        })
        .collect();
    Body::Damage { enc: op(node, Kind::Enc { api, opts, v }), raw: None, decs, variants: aired(r, variants) }
}

fn c19(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    c.tables = *r.pick(&[5, 30, 60]);
    let v = gen::root(r, &mut c);
    let opts = strict(gen::opts(r, &c));
    let (node, api) = enc_string(r, &opts);
    let n = decs_count(r);
    let mut decs = decs(r, &opts, n);
    if opts.indent == 2 && r.one_in(4) {
        decs.push(Dec { node: WASM, target: Target::Json, opts, reader: false });
    }
    for d in decs.iter_mut() {
        d.opts.strict = r.one_in(4);
    }
    let raw = if r.one_in(4) { Some(gen::hand(r, &c)) } else { None };
    let kinds: Vec<_> = crate::mangle::NOISE.into_iter().filter(|m| raw.is_none() || crate::mangle::anywhere(*m)).collect();
    let len = raw.as_ref().map_or(size(&v), |x| x.len() as u64);
    let variants = (0..copies(40, len))
        .map(|_| {
            let k = *r.pick(&[1, 1, 1, 2, 3]);
            (0..k).map(|_| Dmg::Mangle(*r.pick(&kinds), r.below(1 << 20), r.below(1 << 20))).collect()
        })
        .collect();
    Body::Damage { enc: op(node, Kind::Enc { api, opts, v }), raw, decs, variants }
}

fn c17(r: &mut Rng) -> Body {
    if r.one_in(4) {
        let Body::Damage { enc, raw, mut decs, variants } = c16(r) else { unreachable!() };
        decs.iter_mut().for_each(|d| d.opts.strict = true);
        return Body::Damage { enc, raw, decs, variants };
    }
    let Body::Damage { enc, raw, mut decs, variants } = c14(r) else { unreachable!() };
    for d in decs.iter_mut() {
        if d.target == Target::Typed || d.node == PERF {
            d.target = Target::Json;
        }
        d.reader = r.one_in(3) && d.node != ALLOC && d.node != WASM;
    }
    Body::Damage { enc, raw, decs, variants }
}

fn c06(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    let v = value(r, &mut c, 25);
    let opts = gen::opts(r, &c);
    let (node, api) = loop {
        let (n, a) = enc_choice(r, &opts, &[DEF, DEF, PERF, ALLOC]);
        if !a.is_writer() {
            break (n, a);
        }
    };
    let raw = match r.below(6) {
        0 => Some(gen::soup(r)),
        1 | 2 => Some(gen::hand(r, &c)),
        _ => None,
    };
    let len = raw.as_ref().map_or(size(&v), |x| x.len() as u64);
    let n = r.range(1, 4);
    let decs = (0..n)
        .map(|_| {
            let node = *r.pick(&[DEF, DEF, PERF, ALLOC, WASM]);
            let mut o = gen::dec_opts(r, &c, &opts);
            o.expand = r.one_in(3);
            o.indent = *r.pick(&[opts.indent, opts.indent, 0, 1, 2, 3, 255]);
            let mut t = if node == WASM { Target::Json } else { target(r) };
            if node != WASM && r.one_in(8) {
                t = Target::Parse;
            }
            if node == WASM {
                o.indent = 2;
                o.expand = false;
            }
            Dec { node, target: t, opts: o, reader: t != Target::Parse && (node == DEF || node == PERF) && r.one_in(3) }
        })
        .collect();
    let k = if len > 5000 { 8 } else { 48 };
    let variants = (0..k)
        .map(|i| {
            if i == 0 && raw.is_some() {
                return vec![];
            }
            let k = *r.pick(&[1, 1, 2, 3, 6]);
            (0..k).map(|_| gen::bytes_damage(r, len)).collect()
        })
        .collect();
    Body::Damage { enc: op(node, Kind::Enc { api, opts, v }), raw, decs, variants }
}

fn c16(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    let v = value(r, &mut c, 60);
    let opts = Opts { fold: false, expand: false, flatten: -1, ..gen::opts(r, &c) };
    let (node, api) = enc_string(r, &opts);
    let raw = match r.below(8) {
        0 => Some(gen::soup(r)),
        1..=5 => Some(gen::hand(r, &c)),
        _ => None,
    };
    let len = raw.as_ref().map_or(size(&v), |x| x.len() as u64);
    let strict = r.one_in(2);
    let expand = r.one_in(4);
    let n = r.range(2, 5);
    let decs = (0..n)
        .map(|_| {
            let (node, target) = *r.pick(&[
                (DEF, Target::Json),
                (DEF, Target::Any),
                (PERF, Target::Json),
                (PERF, Target::Json),
                (ALLOC, Target::Any),
                (STD, Target::Any),
                (if opts.indent == 2 && !expand { WASM } else { PERF }, Target::Json),
            ]);
            let reader = r.one_in(4) && node != ALLOC && node != WASM;
            Dec { node, target, opts: Opts { delim: r.below(3) as u8, strict, expand, ..opts }, reader }
        })
        .collect();
    let variants = (0..if len > 5000 { 4 } else { 16 })
        .map(|i| {
            let k = if i == 0 { 0 } else { *r.pick(&[0, 1, 1, 2]) };
            (0..k.max((i > 0) as u64)).map(|_| gen::bytes_damage(r, len)).collect()
        })
        .collect();
    Body::Damage { enc: op(node, Kind::Enc { api, opts, v }), raw, decs, variants }
}

fn c07(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    c.bad_keys = r.one_in(4);
    c.lies = r.one_in(2);
    let n = *r.pick(&[1, 1, 1, 2]);
    let mut clients = Vec::new();
    for _ in 0..n {
        let k = r.range(1, 4);
        let mut ops = Vec::new();
        for _ in 0..k {
            let v = value(r, &mut c, 0);
            let opts = gen::opts(r, &c);
            let (node, api) = loop {
                let (n, a) = enc_choice(r, &opts, &[DEF, DEF, PERF, ALLOC, STD]);
                // here the harness itself calls serde_json
                if a != EncApi::EncodeValue {
                    break (n, a);
                }
            };
            let mut o = op(node, Kind::Enc { api, opts, v: v.clone() });
            if !r.one_in(4) {
                o.faults.push(ser_fault(r, &v, true));
            }
            if api.is_writer() {
                o.chunks = gen::chunks(r);
            }
            ops.push(o);
        }
        clients.push(ops);
    }
    Body::Hist { clients, preempt: if n > 1 { preempts(r, 20, 12) } else { vec![] } }
}

fn de_fault(r: &mut Rng, v: &V) -> Fault {
    let n = parts(v) * 2;
    let at = if r.one_in(3) { r.log(n) - 1 } else { r.below(n) };
    let act = match r.below(5) {
        0 => Act::Panic,
        1 => Act::Stop,
        _ => Act::Err(gen::style(r)),
    };
    Fault { on: EV_DE, at, act, sticky: false }
}

fn c08(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    c.typed = *r.pick(&[0, 20, 40]);
    let n = *r.pick(&[1, 1, 1, 2]);
    let mut clients = Vec::new();
    for _ in 0..n {
        let k = r.range(1, 4);
        let mut ops = Vec::new();
        for _ in 0..k {
            let (s, len, e) = src(r, &mut c, &[DEF, STD, ALLOC], 0, true);
            let node = *r.pick(&[DEF, DEF, PERF, PERF, ALLOC, STD]);
            let reader = node != ALLOC && r.one_in(3);
            let dec = Dec { node, target: *r.pick(&[Target::Any, Target::Typed]), opts: gen::dec_opts(r, &c, &e), reader };
            let shape = crate::exec::shape_of(&s);
            let mut o = op(node, Kind::Dec { dec, src: s });
            if r.pct(75) {
                o.faults.push(de_fault(r, &shape));
            }
            if reader {
                o.chunks = gen::chunks(r);
                o.faults.append(&mut gen::soft(r, EV_READ, len));
            }
            ops.push(o);
        }
        clients.push(ops);
    }
    Body::Hist { clients, preempt: if n > 1 { preempts(r, 20, 12) } else { vec![] } }
}

fn c09(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    c.bad_keys = r.one_in(4);
    // a few values and options, shared by all clients
    let nv = r.range(1, 3);
    let vs: Vec<V> = (0..nv).map(|_| value(r, &mut c, 40)).collect();
    let no = r.range(1, 3);
    let os: Vec<Opts> = (0..no).map(|_| gen::opts(r, &c)).collect();
    let home = *r.pick(&[DEF, DEF, DEF, PERF, ALLOC, STD]);
    let n = r.range(1, 4);
    let mut clients = Vec::new();
    for _ in 0..n {
        let k = r.range(1, 4);
        clients.push((0..k).map(|_| any_op(r, &c, &vs, &os, home, 0)).collect());
    }
    Body::Hist { clients, preempt: if n > 1 { preempts(r, 60, 60) } else { vec![] } }
}

pub fn any_op(r: &mut Rng, c: &Cfg, vs: &[V], os: &[Opts], home: u8, depth: u32) -> Op {
    let node = if r.one_in(6) { *r.pick(&[DEF, PERF, ALLOC, STD]) } else { home };
    let v = r.pick(vs).clone();
    let len = size(&v);
    let opts = *r.pick(os);
    let mut o = if r.one_in(2) {
        let api = loop {
            let a = *r.pick(&ENC_APIS);
            if crate::node::can_encode(node, a, &opts) {
                break a;
            }
        };
        let mut o = op(node, Kind::Enc { api, opts, v: v.clone() });
        if api.is_writer() {
            o.chunks = gen::chunks(r);
            o.faults = gen::soft(r, EV_WRITE, len);
            if r.one_in(4) {
                o.faults.push(gen::hard(r, EV_WRITE, len));
                o.faults.sort_by_key(|f| f.at);
            }
        }
        if r.one_in(4) {
            o.faults.push(ser_fault(r, &v, true));
        }
        o
    } else {
        let dmg = if r.one_in(4) { vec![gen::bytes_damage(r, len.max(1))] } else { vec![] };
        let reader = node != ALLOC && r.one_in(2);
        let dopts = gen::dec_opts(r, c, &opts);
        let dec = Dec { node, target: target(r), opts: dopts, reader };
        let mut o = op(node, Kind::Dec { dec, src: Src::Doc { node: home, opts, v: v.clone(), dmg } });
        if reader {
            o.chunks = gen::chunks(r);
            o.faults = gen::soft(r, EV_READ, len);
            if r.one_in(6) {
                o.faults.push(gen::hard(r, EV_READ, len));
                o.faults.sort_by_key(|f| f.at);
            }
        }
        if r.one_in(4) {
            o.faults.push(de_fault(r, &v));
        }
        o
    };
    if len > 3000 && o.chunks.iter().all(|x| *x < 64) {
        o.chunks = vec![];
    }
    if depth < 2 && r.one_in(4) {
        let k = r.range(1, 2);
        for _ in 0..k {
            let kind = match &o.kind {
                Kind::Enc { api, .. } if api.is_writer() && r.one_in(2) => EV_WRITE,
                Kind::Enc { .. } => EV_SER,
                Kind::Dec { dec, .. } if dec.reader && (dec.target == Target::Json || r.one_in(2)) => EV_READ,
                _ => EV_DE,
            };
            let at = r.log(parts(&v)) - 1;
            o.nested.push((kind, at, any_op(r, c, vs, os, home, depth + 1)));
        }
    }
    o
}

fn c15(r: &mut Rng) -> Body {
    let home = *r.pick(&[DEF, DEF, PERF, ALLOC, STD]);
    if r.one_in(80) {
        let size = *r.pick(&[2000, 10_000, 30_000]);
        return Body::Fresh { seed: r.next(), home, rounds: 100, size };
    }
    let mut c = Cfg::swarm(r);
    c.bad_keys = r.one_in(4);
    let n = r.range(1, 3);
    let vs: Vec<V> = (0..n).map(|_| value(r, &mut c, 60)).collect();
    let os = vec![gen::opts(r, &c)];
    let n = r.range(1, 4);
    let ops = (0..n).map(|_| any_op(r, &c, &vs, &os, home, 2)).collect();
    Body::Rounds { ops, rounds: 6 }
}

fn c18(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    c.tables = *r.pick(&[5, 30, 60]);
    let home = *r.pick(&[SDEF, SDEF, SPERF, SALLOC]);
    let opts = gen::opts(r, &c);
    let how = *r.pick(&[Grow::Many, Grow::Many, Grow::Many, Grow::Many, Grow::Long, Grow::Key, Grow::Wide, Grow::Wide, Grow::Deep, Grow::DeepList, Grow::DeepBoth]);
    let first = *r.pick(&[2048, 2048, 2048, 8192]);
    let v = loop {
        let v = gen::root(r, &mut c);
        if size(&v) < 1000 {
            break v;
        }
    };
    let value = Pump::Value { site: r.below(1 << 20), how };
    if r.one_in(3) {
        let (node, api) = loop {
            let a = *r.pick(&ENC_APIS);
            if crate::node::can_encode(home, a, &opts) {
                break (home, a);
            }
        };
        let mut o = op(node, Kind::Enc { api, opts, v });
        if api.is_writer() && r.one_in(2) {
            o.chunks = vec![r.log(9000) as u32];
        }
        return Body::Scale { op: o, pump: value, first };
    }
    let reader = home != SALLOC && r.one_in(3);
    let mut d = gen::dec_opts(r, &c, &opts);
    d.expand = r.one_in(3);
    let target = *r.pick(&[Target::Json, Target::Any, Target::Any, Target::Lax]);
    let dec = Dec { node: home, target, opts: d, reader };
    let unit = *r.pick(&[Unit::Bytes, Unit::Lines, Unit::Cell]);
    let (src, pump) = match r.below(6) {
        0 => {
            let t = text(r, &c);
            (Src::Raw(t), Pump::Text { at: r.below(1 << 20), len: r.below(24), unit, numbered: r.one_in(2) })
        }
        1 => {
            // rare in hand-written documents
            let rare = *r.pick(&["@,", "@|", "{", "- - ", "|]", "- ["]);
            let mut t = vec![];
            for _ in 0..20 {
                t = gen::hand(r, &c);
                if t.windows(rare.len()).any(|w| w == rare.as_bytes()) {
                    break;
                }
            }
            (Src::Raw(t), Pump::Text { at: r.below(1 << 20), len: r.below(24), unit, numbered: r.one_in(2) })
        }
        2 => {
            let len = size(&v).max(1);
            let dmg = text_damage(r, len);
            (Src::Doc { node: home, opts, v, dmg }, Pump::Text { at: r.below(1 << 20), len: r.below(24), unit, numbered: r.one_in(2) })
        }
        _ => (Src::Doc { node: home, opts, v, dmg: vec![] }, value),
    };
    let mut o = op(home, Kind::Dec { dec, src });
    if reader && r.one_in(2) {
        o.chunks = vec![r.log(9000) as u32];
    }
    Body::Scale { op: o, pump, first }
}

fn c11(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    let n = r.range(1, 3);
    let mut ops = Vec::new();
    for _ in 0..n {
        let node = *r.pick(&[DEF, DEF, PERF, ALLOC]);
        let v = value(r, &mut c, 10);
        let opts = gen::opts(r, &c);
        let mut o = if r.one_in(2) {
            let api = loop {
                let a = *r.pick(&ENC_APIS);
                if crate::node::can_encode(node, a, &opts) {
                    break a;
                }
            };
            op(node, Kind::Enc { api, opts, v })
        } else {
            let reader = node != ALLOC && r.one_in(2);
            let dec = Dec { node, target: target(r), opts: gen::dec_opts(r, &c, &opts), reader };
            let mut o = op(node, Kind::Dec { dec, src: Src::Doc { node: DEF, opts, v, dmg: vec![] } });
            if reader {
                o.chunks = vec![*r.pick(&[64, 512, 4096])];
            }
            o
        };
        let k = r.range(4, 10);
        for _ in 0..k {
            let at = match r.below(4) {
                0 => r.log(64) - 1,
                1 => u64::MAX - r.log(1 << 20),
                _ => r.next(),
            };
            o.faults.push(Fault { on: EV_ALLOC, at, act: Act::Err(0), sticky: r.one_in(2) });
        }
        ops.push(o);
    }
    Body::Oom { ops }
}

fn writer(r: &mut Rng, opts: &Opts, len: u64) -> Writer {
    let (node, api) = enc_choice(r, opts, &FLEET);
    let (mut chunks, mut faults) = (vec![], vec![]);
    if api.is_writer() {
        chunks = gen::chunks(r);
        if len > 20_000 && chunks.iter().all(|x| *x < 16) {
            chunks = vec![4096];
        }
        faults = gen::soft(r, EV_WRITE, len);
        if r.one_in(10) {
            faults.push(gen::hard(r, EV_WRITE, len));
            faults.sort_by_key(|f| f.at);
        }
    }
    Writer { node, api, chunks, faults }
}

fn c13(r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    c.bad_keys = r.one_in(4);
    let v = value(r, &mut c, 60);
    let opts = gen::opts(r, &c);
    let len = size(&v);
    let n = r.range(2, 5);
    let writers = (0..n).map(|_| writer(r, &opts, len)).collect();
    let n = r.below(4);
    let hops = (0..n)
        .map(|_| {
            let mut dec = dec_choice(r, &c, &opts);
            if dec.target == Target::Typed {
                dec.target = Target::Any;
            }
            (dec, writer(r, &opts, len))
        })
        .collect();
    Body::Fleet { opts, v, writers, hops }
}

/// What ran real code and what ran a stand-in, for the evidence.
pub fn components(p: &Prop) -> serde_json::Value {
    use serde_json::json;
    if p.id == "C10" || p.id == "C12" {
        return json!({
            "real": ["toon-cli (built from the working tree) as separate processes", "toon-rs", "Rust std I/O", "kernel pipes and files in a scratch directory"],
            "simulated": ["results of read, write and open calls on the input and on standard output (LD_PRELOAD seam)", "process death (SIGKILL at a chosen byte)"]
        });
    }
    let names: Vec<String> = p
        .nodes
        .iter()
        .map(|n| {
            let f = match *n {
                DEF => "toon-rs with std+json",
                PERF => "toon-rs with std+json+de_direct+perf_*+chrono",
                ALLOC => "toon-rs with alloc only (no_std)",
                STD => "toon-rs with std, without json",
                SDEF => "toon-rs with std+json, counting steps",
                SPERF => "toon-rs with std+json+de_direct+perf_*+chrono, counting steps",
                SALLOC => "toon-rs with alloc only (no_std), counting steps",
                _ => "toon-wasm bindings compiled natively",
            };
            f.to_string()
        })
        .collect();
    json!({
        "real": names,
        "simulated": ["writers and readers", "Serialize and Deserialize implementations of the data", "the global allocator's decisions", "thread scheduling", "the file store and process crashes (C03)", "damage in storage or transport (C04, C05, C06)"]
    })
}
