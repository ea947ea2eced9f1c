//! Smaller plans that may still fail the same way.
use crate::plan::*;
use proto::*;

struct Out {
    v: Vec<Body>,
    most: usize,
}
impl Out {
    fn push(&mut self, b: Body) {
        if self.v.len() < self.most {
            self.v.push(b)
        }
    }
}

pub fn candidates(p: &Plan) -> Vec<Plan> {
    let mut out = Out { v: Vec::new(), most: (400_000_000 / plan_weight(p) + 4) as usize };
    match &p.body {
        Body::Hist { clients, preempt } => {
            let mk = |c: Vec<Vec<Op>>, q: Vec<(u32, u8)>| Body::Hist { clients: c, preempt: q };
            for i in 0..clients.len() {
                if clients.len() > 1 {
                    let mut c = clients.clone();
                    c.remove(i);
                    out.push(mk(c, preempt.clone()));
                }
            }
            if !preempt.is_empty() {
                out.push(mk(clients.clone(), vec![]));
                let h = preempt.len() / 2;
                out.push(mk(clients.clone(), preempt[..h].to_vec()));
                out.push(mk(clients.clone(), preempt[h..].to_vec()));
                for i in 0..preempt.len() {
                    let mut q = preempt.clone();
                    q.remove(i);
                    out.push(mk(clients.clone(), q));
                }
            }
            for (i, c) in clients.iter().enumerate() {
                for j in 0..c.len() {
                    let mut d = clients.clone();
                    d[i].remove(j);
                    if d[i].is_empty() && clients.len() > 1 {
                        d.remove(i);
                    }
                    out.push(mk(d, preempt.clone()));
                }
                for (j, o) in c.iter().enumerate() {
                    for s in ops(o) {
                        let mut d = clients.clone();
                        d[i][j] = s;
                        out.push(mk(d, preempt.clone()));
                    }
                }
            }
        }
        Body::Store { steps } => {
            for i in (0..steps.len()).rev() {
                let mut s = steps.clone();
                s.remove(i);
                out.push(Body::Store { steps: s });
            }
            for (i, st) in steps.iter().enumerate() {
                let mut put = |x: Step| {
                    let mut s = steps.clone();
                    s[i] = x;
                    out.push(Body::Store { steps: s });
                };
                match st {
                    Step::Put { file, op } => {
                        ops(op).into_iter().for_each(|o| put(Step::Put { file: *file, op: o }));
                    }
                    Step::TornPut { file, op, at } => {
                        ops(op).into_iter().for_each(|o| put(Step::TornPut { file: *file, op: o, at: *at }));
                    }
                    Step::Get { file, dec, chunks, faults } => {
                        if !chunks.is_empty() || !faults.is_empty() || dec.reader {
                            put(Step::Get { file: *file, dec: Dec { reader: false, ..*dec }, chunks: vec![], faults: vec![] });
                            put(Step::Get { file: *file, dec: *dec, chunks: vec![], faults: vec![] });
                        }
                        for d in dec_opts(dec) {
                            put(Step::Get { file: *file, dec: d, chunks: chunks.clone(), faults: faults.clone() });
                        }
                    }
                    Step::Relay { from, to, dec, node, api, opts } => {
                        for o in opts_smaller(opts) {
                            put(Step::Relay { from: *from, to: *to, dec: *dec, node: *node, api: *api, opts: o });
                        }
                    }
                    Step::Crash => {}
                }
            }
        }
        Body::Damage { enc, raw, decs, variants } => {
            let mk = |e: Op, r: Option<Vec<u8>>, d: Vec<Dec>, v: Vec<Vec<Dmg>>| Body::Damage { enc: e, raw: r, decs: d, variants: v };
            let n = variants.len();
            if n > 1 {
                for w in halves(n) {
                    let v: Vec<_> = variants[w.0..w.1].to_vec();
                    out.push(mk(enc.clone(), raw.clone(), decs.clone(), v));
                }
                if n <= 24 {
                    for i in 0..n {
                        let mut v = variants.clone();
                        v.remove(i);
                        out.push(mk(enc.clone(), raw.clone(), decs.clone(), v));
                    }
                }
            }
            if decs.len() > 1 {
                for i in 0..decs.len() {
                    let mut d = decs.clone();
                    d.remove(i);
                    out.push(mk(enc.clone(), raw.clone(), d, variants.clone()));
                }
            }
            if n <= 4 {
                for (i, v) in variants.iter().enumerate() {
                    for j in 0..v.len() {
                        let mut w = variants.clone();
                        w[i].remove(j);
                        out.push(mk(enc.clone(), raw.clone(), decs.clone(), w));
                    }
                }
                for (i, d) in decs.iter().enumerate() {
                    for x in dec_opts(d) {
                        let mut e = decs.clone();
                        e[i] = x;
                        out.push(mk(enc.clone(), raw.clone(), e, variants.clone()));
                    }
                }
                for o in ops(enc) {
                    out.push(mk(o, raw.clone(), decs.clone(), variants.clone()));
                }
                if let Some(b) = raw {
                    for x in bytes_smaller(b) {
                        out.push(mk(enc.clone(), Some(x), decs.clone(), variants.clone()));
                    }
                }
                // offsets move when the document shrinks
                for (i, v) in variants.iter().enumerate() {
                    for (j, d) in v.iter().enumerate() {
                        for x in dmg_smaller(d) {
                            let mut w = variants.clone();
                            w[i][j] = x;
                            out.push(mk(enc.clone(), raw.clone(), decs.clone(), w));
                        }
                    }
                }
            }
        }
        Body::Fresh { seed, home, rounds, size } => {
            for n in [size / 2, size * 3 / 4] {
                out.push(Body::Fresh { seed: *seed, home: *home, rounds: *rounds, size: n });
            }
        }
        Body::Scale { op, pump, first } => {
            for y in ops(op) {
                out.push(Body::Scale { op: y, pump: pump.clone(), first: *first });
            }
            let sites: Vec<Pump> = match pump {
                Pump::Text { at, len, unit, numbered } => {
                    let mk = |at: u64, len: u64, numbered: bool| Pump::Text { at, len, unit: *unit, numbered };
                    let mut v: Vec<Pump> = less(*at).into_iter().map(|a| mk(a, *len, *numbered)).collect();
                    v.extend(less(*len).into_iter().map(|l| mk(*at, l, *numbered)));
                    if *numbered {
                        v.push(mk(*at, *len, false));
                    }
                    v
                }
                Pump::Value { site, how } => less(*site).into_iter().map(|s| Pump::Value { site: s, how: *how }).collect(),
            };
            for p in sites {
                out.push(Body::Scale { op: op.clone(), pump: p, first: *first });
            }
        }
        Body::Rounds { ops: o, rounds } => {
            for i in 0..o.len() {
                if o.len() > 1 {
                    let mut x = o.clone();
                    x.remove(i);
                    out.push(Body::Rounds { ops: x, rounds: *rounds });
                }
            }
            for i in 0..o.len() {
                for y in ops(&o[i]) {
                    let mut x = o.clone();
                    x[i] = y;
                    out.push(Body::Rounds { ops: x, rounds: *rounds });
                }
            }
        }
        Body::Oom { ops: o } => {
            for i in 0..o.len() {
                if o.len() > 1 {
                    let mut x = o.clone();
                    x.remove(i);
                    out.push(Body::Oom { ops: x });
                }
            }
            for (i, op) in o.iter().enumerate() {
                for s in ops(op) {
                    let mut x = o.clone();
                    x[i] = s;
                    out.push(Body::Oom { ops: x });
                }
            }
        }
        Body::Fleet { opts, v, writers, hops } => {
            let mk = |o: &Opts, v: &V, w: &[Writer], h: &[(Dec, Writer)]| Body::Fleet {
                opts: *o,
                v: v.clone(),
                writers: w.to_vec(),
                hops: h.to_vec(),
            };
            for i in 0..writers.len() {
                if writers.len() > 1 {
                    let mut w = writers.clone();
                    w.remove(i);
                    out.push(mk(opts, v, &w, hops));
                }
            }
            for i in 0..hops.len() {
                let mut h = hops.clone();
                h.remove(i);
                out.push(mk(opts, v, writers, &h));
            }
            for i in 0..writers.len() {
                if !writers[i].faults.is_empty() || !writers[i].chunks.is_empty() {
                    let mut w = writers.clone();
                    w[i].faults.clear();
                    w[i].chunks.clear();
                    out.push(mk(opts, v, &w, hops));
                }
            }
            for s in values(v) {
                out.push(mk(opts, &s, writers, hops));
            }
            for o in opts_smaller(opts) {
                out.push(mk(&o, v, writers, hops));
            }
            for i in 0..hops.len() {
                for d in dec_opts(&hops[i].0) {
                    let mut h = hops.clone();
                    h[i].0 = d;
                    out.push(mk(opts, v, writers, &h));
                }
            }
        }
        Body::Witness(_) => {}
        Body::Cli { runs } => {
            for i in 0..runs.len() {
                if runs.len() > 1 {
                    let mut x = runs.clone();
                    x.remove(i);
                    out.push(Body::Cli { runs: x });
                }
            }
            for (i, r) in runs.iter().enumerate() {
                let mut put = |f: &dyn Fn(&mut CliRun)| {
                    let mut x = runs.clone();
                    f(&mut x[i]);
                    if x[i] != *r {
                        out.push(Body::Cli { runs: x });
                    }
                };
                for k in 0..r.script.len() {
                    put(&|x| {
                        x.script.remove(k);
                    });
                }
                for k in 0..r.script2.len() {
                    put(&|x| {
                        x.script2.remove(k);
                    });
                }
                put(&|x| x.chunks_in.clear());
                put(&|x| x.chunks_out.clear());
                put(&|x| x.pretty = false);
                put(&|x| x.delim = 0);
                put(&|x| x.from_file = false);
                put(&|x| x.strict_flag = false);
                match &r.input {
                    CliInput::Value(v) => {
                        for s in values(v) {
                            put(&|x| x.input = CliInput::Value(s.clone()));
                        }
                    }
                    CliInput::Raw(b) => {
                        for s in bytes_smaller(b) {
                            put(&|x| x.input = CliInput::Raw(s.clone()));
                        }
                    }
                    CliInput::Damaged(v, d) => {
                        for s in values(v) {
                            put(&|x| x.input = CliInput::Damaged(s.clone(), d.clone()));
                        }
                        for k in 0..d.len() {
                            let mut e = d.clone();
                            e.remove(k);
                            put(&|x| x.input = CliInput::Damaged(v.clone(), e.clone()));
                        }
                    }
                    CliInput::Missing => {}
                }
            }
        }
    }
    out.v.into_iter().map(|b| Plan { prop: p.prop.clone(), seed: p.seed, body: b }).collect()
}

fn halves(n: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut w = n.div_ceil(2);
    for _ in 0..2 {
        let mut i = 0;
        while i < n {
            v.push((i, (i + w).min(n)));
            i += w;
        }
        w = w.div_ceil(4).max(1);
    }
    v.retain(|(a, b)| b - a < n);
    v
}

fn opts_smaller(o: &Opts) -> Vec<Opts> {
    let d = Opts::default();
    let mut v = vec![
        Opts { delim: d.delim, ..*o },
        Opts { strict: true, ..*o },
        Opts { indent: 2, ..*o },
        Opts { fold: false, flatten: -1, ..*o },
        Opts { flatten: -1, ..*o },
        Opts { expand: false, ..*o },
    ];
    v.retain(|x| x != o);
    v
}

fn dec_opts(d: &Dec) -> Vec<Dec> {
    let mut v: Vec<Dec> = opts_smaller(&d.opts).into_iter().map(|o| Dec { opts: o, ..*d }).collect();
    if d.reader {
        v.push(Dec { reader: false, ..*d });
    }
    if d.target != Target::Json && d.node == 0 {
        v.push(Dec { target: Target::Json, ..*d });
    }
    if d.node != 0 {
        v.push(Dec { node: 0, ..*d });
    }
    v
}

fn less(p: u64) -> Vec<u64> {
    let mut v = vec![];
    for x in [0, p / 2, p.saturating_sub(8), p.saturating_sub(1)] {
        if x < p {
            v.push(x)
        }
    }
    v
}
fn dmg_smaller(d: &Dmg) -> Vec<Dmg> {
    match d {
        Dmg::Cut(p) => less(*p).into_iter().map(Dmg::Cut).collect(),
        Dmg::DropLine(p) => less(*p).into_iter().map(Dmg::DropLine).collect(),
        Dmg::DupLine(p) => less(*p).into_iter().map(Dmg::DupLine).collect(),
        Dmg::Remove(p, n) => less(*n).into_iter().map(|n| Dmg::Remove(*p, n)).collect(),
        Dmg::Air(s) => less(*s).into_iter().map(Dmg::Air).collect(),
        Dmg::Mangle(m, s, a) => less(*s)
            .into_iter()
            .map(|s| Dmg::Mangle(*m, s, *a))
            .chain(less(*a).into_iter().map(|a| Dmg::Mangle(*m, *s, a)))
            .collect(),
        Dmg::Repeat(p, n, k) => less(*k).into_iter().map(|k| Dmg::Repeat(*p, *n, k)).collect(),
        Dmg::Insert(p, s) => bytes_smaller(s).into_iter().map(|s| Dmg::Insert(*p, s)).collect(),
        _ => vec![],
    }
}

fn bytes_smaller(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let n = b.len();
    let mut w = n / 2;
    while w >= 1 {
        let mut i = 0;
        while i < n && v.len() < 80 {
            let mut x = b[..i].to_vec();
            x.extend_from_slice(&b[(i + w).min(n)..]);
            v.push(x);
            i += w;
        }
        w /= 2;
    }
    v
}

/// Simpler versions of one operation.
fn ops(o: &Op) -> Vec<Op> {
    let mut v = Vec::new();
    let most = 200_000_000 / op_weight(o) + 4;
    let mut put = |x: Op| {
        if (v.len() as u64) < most {
            v.push(x)
        }
    };
    for i in 0..o.nested.len() {
        let mut x = o.clone();
        x.nested.remove(i);
        put(x);
    }
    for i in 0..o.faults.len() {
        let mut x = o.clone();
        x.faults.remove(i);
        put(x);
    }
    if !o.chunks.is_empty() {
        put(Op { chunks: vec![], ..o.clone() });
    }
    match &o.kind {
        Kind::Enc { api, opts, v } => {
            for s in values(v) {
                put(Op { kind: Kind::Enc { api: *api, opts: *opts, v: s }, ..o.clone() });
            }
            for s in opts_smaller(opts) {
                put(Op { kind: Kind::Enc { api: *api, opts: s, v: v.clone() }, ..o.clone() });
            }
            if *api == EncApi::SerToString || *api == EncApi::SerStreaming {
                put(Op { kind: Kind::Enc { api: EncApi::ToString, opts: *opts, v: v.clone() }, ..o.clone() });
            }
            if o.node != 0 {
                put(Op { node: 0, ..o.clone() });
            }
        }
        Kind::Dec { dec, src } => {
            if let Src::Doc { node, opts, v, dmg } = src {
                for s in values(v) {
                    let src = Src::Doc { node: *node, opts: *opts, v: s, dmg: dmg.clone() };
                    put(Op { kind: Kind::Dec { dec: *dec, src }, ..o.clone() });
                }
                if !dmg.is_empty() {
                    let src = Src::Doc { node: *node, opts: *opts, v: v.clone(), dmg: vec![] };
                    put(Op { kind: Kind::Dec { dec: *dec, src }, ..o.clone() });
                }
                for s in opts_smaller(opts) {
                    let src = Src::Doc { node: *node, opts: s, v: v.clone(), dmg: dmg.clone() };
                    put(Op { kind: Kind::Dec { dec: *dec, src }, ..o.clone() });
                }
            }
            if let Src::Raw(b) = src {
                for s in bytes_smaller(b) {
                    put(Op { kind: Kind::Dec { dec: *dec, src: Src::Raw(s) }, ..o.clone() });
                }
            }
            for s in opts_smaller(&dec.opts) {
                put(Op { kind: Kind::Dec { dec: Dec { opts: s, ..*dec }, src: src.clone() }, ..o.clone() });
            }
        }
    }
    for i in 0..o.nested.len() {
        for s in ops(&o.nested[i].2) {
            let mut x = o.clone();
            x.nested[i].2 = s;
            put(x);
        }
    }
    for (i, f) in o.faults.iter().enumerate() {
        if let (Act::Err(c), false) = (f.act, f.on == EV_ALLOC) {
            let c0 = if f.on == EV_SER || f.on == EV_DE { 0 } else { c & 0xff };
            if c0 != c {
                let mut x = o.clone();
                x.faults[i].act = Act::Err(c0);
                put(x);
            }
        }
        if f.at > 0 && f.at < u64::MAX / 2 {
            for at in [0, f.at / 2, f.at - 1] {
                let mut x = o.clone();
                x.faults[i].at = at;
                put(x);
            }
        }
    }
    v.retain(|x| x != o);
    v
}

thread_local! {
    /// how many more parts the candidates may have together
    static ROOM: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
fn room(bytes: u64) -> bool {
    ROOM.with(|r| {
        r.set(r.get() - bytes as i64);
        r.get() > 0
    })
}
fn weight(v: &V) -> u64 {
    crate::props::size(v) + 64 * crate::props::parts(v)
}
fn op_weight(o: &Op) -> u64 {
    let own = match &o.kind {
        Kind::Enc { v, .. } | Kind::Dec { src: Src::Doc { v, .. }, .. } => weight(v),
        Kind::Dec { src: Src::Raw(b), .. } => b.len() as u64,
    };
    200 + own + o.nested.iter().map(|x| op_weight(&x.2)).sum::<u64>()
}
fn plan_weight(p: &Plan) -> u64 {
    200 + match &p.body {
        Body::Hist { clients, .. } => clients.iter().flatten().map(op_weight).sum(),
        Body::Store { steps } => steps
            .iter()
            .map(|s| match s {
                Step::Put { op, .. } | Step::TornPut { op, .. } => op_weight(op),
                _ => 100,
            })
            .sum(),
        Body::Damage { enc, raw, variants, .. } => {
            op_weight(enc) + raw.as_ref().map_or(0, |r| r.len() as u64) + 80 * variants.len() as u64
        }
        Body::Oom { ops } | Body::Rounds { ops, .. } => ops.iter().map(op_weight).sum(),
        Body::Fresh { rounds, size, .. } => *rounds as u64 * size,
        Body::Scale { op, pump, first } => {
            op_weight(op)
                + first / 64
                + match pump {
                    Pump::Text { at, len, numbered, .. } => at.min(&1000) + len.min(&100) + *numbered as u64,
                    Pump::Value { site, .. } => *site.min(&1000),
                }
        }
        Body::Cli { runs } => runs
            .iter()
            .map(|r| match &r.input {
                CliInput::Value(v) | CliInput::Damaged(v, _) => weight(v),
                CliInput::Raw(b) => b.len() as u64,
                CliInput::Missing => 0,
            })
            .sum(),
        Body::Fleet { v, .. } => weight(v),
        Body::Witness(_) => 0,
    }
}

/// Simpler values.
pub fn values(v: &V) -> Vec<V> {
    ROOM.with(|r| r.set(100_000_000));
    simpler(v)
}
fn simpler(v: &V) -> Vec<V> {
    let mut out: Vec<V> = Vec::new();
    fn list(a: &[V], out: &mut Vec<V>, mk: &dyn Fn(Vec<V>) -> V) {
        let n: u64 = a.iter().map(weight).sum();
        if a.len() > 3 {
            out.push(mk(a[..a.len() / 2].to_vec()));
            out.push(mk(a[a.len() / 2..].to_vec()));
        }
        if a.len() <= 24 {
            for i in 0..a.len() {
                if !room(n) {
                    return;
                }
                let mut b = a.to_vec();
                b.remove(i);
                out.push(mk(b));
            }
        }
        for i in 0..a.len().min(24) {
            for s in simpler(&a[i]) {
                if !room(n) {
                    return;
                }
                let mut b = a.to_vec();
                b[i] = s;
                out.push(mk(b));
            }
        }
    }
    fn fields<K: Clone>(a: &[(K, V)], out: &mut Vec<V>, mk: &dyn Fn(Vec<(K, V)>) -> V) {
        let n: u64 = a.iter().map(|x| 80 + weight(&x.1)).sum();
        if a.len() > 3 {
            out.push(mk(a[..a.len() / 2].to_vec()));
            out.push(mk(a[a.len() / 2..].to_vec()));
        }
        if a.len() <= 24 {
            for i in 0..a.len() {
                if !room(n) {
                    return;
                }
                let mut b = a.to_vec();
                b.remove(i);
                out.push(mk(b));
            }
        }
        for i in 0..a.len().min(24) {
            for s in simpler(&a[i].1) {
                if !room(n) {
                    return;
                }
                let mut b = a.to_vec();
                b[i].1 = s;
                out.push(mk(b));
            }
        }
    }
    match v {
        V::Some(x) | V::NtStruct(x) | V::NtVar(_, x) => {
            out.push((**x).clone());
            for s in simpler(x) {
                out.push(match v {
                    V::Some(_) => V::Some(Box::new(s)),
                    V::NtStruct(_) => V::NtStruct(Box::new(s)),
                    V::NtVar(n, _) => V::NtVar(n.clone(), Box::new(s)),
                    _ => unreachable!(),
                });
            }
        }
        V::Seq(h, a) => {
            out.extend(a.iter().take(4).filter(|x| !matches!(x, V::Unit)).cloned());
            if !matches!(h, Hint::Exact) {
                out.push(V::Seq(Hint::Exact, a.clone()));
            }
            list(a, &mut out, &|b| V::Seq(*h, b));
        }
        V::Tuple(a) => {
            out.push(V::Seq(Hint::Exact, a.clone()));
            list(a, &mut out, &V::Tuple);
        }
        V::TStruct(a) => {
            out.push(V::Seq(Hint::Exact, a.clone()));
            list(a, &mut out, &V::TStruct);
        }
        V::TVar(n, a) => list(a, &mut out, &|b| V::TVar(n.clone(), b)),
        V::Map(h, m) => {
            out.extend(m.iter().take(4).filter(|x| !matches!(x.1, V::Unit)).map(|x| x.1.clone()));
            if !matches!(h, Hint::Exact) {
                out.push(V::Map(Hint::Exact, m.clone()));
            }
            fields(m, &mut out, &|b| V::Map(*h, b));
            let plain = V::Map(
                *h,
                m.iter()
                    .enumerate()
                    .map(|(i, (_, x))| (V::Str(((b'a' + (i % 26) as u8) as char).to_string().repeat(1 + i / 26)), x.clone()))
                    .collect(),
            );
            if plain != *v {
                out.push(plain);
            }
        }
        V::Struct(m) => {
            out.push(V::Map(Hint::Exact, m.iter().map(|(k, x)| (V::Str(k.clone()), x.clone())).collect()));
            fields(m, &mut out, &V::Struct);
        }
        V::SVar(n, m) => {
            out.push(V::Struct(m.clone()));
            fields(m, &mut out, &|b| V::SVar(n.clone(), b));
        }
        V::Str(s) if !s.is_empty() && s != "a" => {
            out.push(V::Str("a".into()));
            let c: Vec<char> = s.chars().collect();
            if c.len() > 1 {
                out.push(V::Str(c[..c.len() / 2].iter().collect()));
                out.push(V::Str(c[c.len() / 2..].iter().collect()));
                out.push(V::Str(c[1..].iter().collect()));
                out.push(V::Str(c[..c.len() - 1].iter().collect()));
            }
        }
        V::Disp(s) | V::UnitVar(s) => out.push(V::Str(s.clone())),
        V::Bytes(b) if !b.is_empty() => out.push(V::Bytes(b[..b.len() - 1].to_vec())),
        V::Unit | V::Bool(_) | V::Str(_) | V::Bytes(_) => {}
        V::U64(1) => {}
        _ => {
            out.push(V::Unit);
            out.push(V::U64(1));
        }
    }
    out
}
