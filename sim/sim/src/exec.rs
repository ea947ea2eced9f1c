//! One execution: operations of simulated clients against real builds of the
//! library. The simulator answers every seam event and decides who runs.
use crate::fork::{forked, Ended, Page};
use crate::gen;
use crate::model;
use crate::node;
use crate::plan::*;
use crate::rng::{hash_bytes, hash_u64};
use proto::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub violation: Option<Violation>,
    pub harness: Option<String>,
    pub stats: BTreeMap<String, u64>,
    /// hash of the event log
    pub log: u64,
    /// hash of the schedule and fault decisions taken
    pub path: u64,
    pub nontrivial: bool,
    pub trace: Vec<String>,
}
impl Report {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.stats.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.violation.is_none() {
            self.violation = Some(Violation { class: class.to_string(), detail });
        }
    }
}

// ---- shared page: what was going on when a process died -----------------
pub const PG_OP: usize = 0;
pub const PG_LIVELOCK: usize = 2;
pub const PG_ALLOC_FAILED: usize = 3;
pub const PG_PREFIX_BAD: usize = 4;
static PAGE: std::sync::atomic::AtomicPtr<Page> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub fn page() -> &'static Page {
    let p = PAGE.load(std::sync::atomic::Ordering::Relaxed);
    if p.is_null() {
        fresh_page();
        return page();
    }
    unsafe { &*p }
}
/// A page of one's own for a new worker.
pub fn fresh_page() {
    PAGE.store(Box::leak(Box::new(Page::new())), std::sync::atomic::Ordering::Relaxed);
}

pub static TRACE: OnceLock<bool> = OnceLock::new();
fn tracing() -> bool {
    *TRACE.get().unwrap_or(&false)
}
static LOG: Mutex<(u64, Vec<String>)> = Mutex::new((0, Vec::new()));
pub fn note(f: impl FnOnce() -> String) {
    if tracing() {
        let mut g = LOG.lock().unwrap();
        if g.1.len() < 4000 {
            let s = f();
            g.1.push(s);
        }
    }
}
pub fn log_hash(x: u64) {
    let mut g = LOG.lock().unwrap();
    g.0 = hash_u64(g.0, x);
}
pub fn take_log() -> (u64, Vec<String>) {
    let mut g = LOG.lock().unwrap();
    (g.0, std::mem::take(&mut g.1))
}

// ---- a prepared operation -------------------------------------------------
#[derive(Clone, Debug, Default)]
pub struct Refs {
    /// fault-free string result of the same call
    pub twin: Option<Res>,
    /// the same call with the same faults, alone in a fresh process
    pub full: Option<(Res, Vec<u8>)>,
}

pub struct POp {
    pub id: usize,
    pub op: Op,
    pub req: Vec<u8>,
    /// what the reader delivers
    pub data: Vec<u8>,
    pub refs: Refs,
    pub nested: Vec<(u32, u64, Arc<POp>)>,
    /// accepted bytes must be a prefix of this
    pub expect: Option<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Fired {
    pub on: u32,
    pub at: u64,
    pub act: Act,
    pub id: u64,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub id: usize,
    pub res: Res,
    pub sink: Vec<u8>,
    pub fired: Vec<Fired>,
    pub prefix_bad: Option<String>,
    pub peak: u64,
    pub allocs: u64,
    pub counts: [u64; 8],
    pub rpos: usize,
}
impl Outcome {
    /// The first fault that is not merely an interruption.
    pub fn hard(&self) -> Option<&Fired> {
        self.fired.iter().find(|f| f.act != Act::Intr)
    }
}

struct Run {
    client: usize,
    p: Arc<POp>,
    pending: Vec<Fault>,
    fired: Vec<Fired>,
    ci: usize,
    rpos: usize,
    sink: Vec<u8>,
    prefix_bad: Option<String>,
    counts: [u64; 8],
    outcomes: Vec<Outcome>,
    depth: u32,
}

const EVENT_CAP: u64 = 3_000_000;
const ALLOC_CAP: u64 = 60_000_000;

static SCHED: OnceLock<Sched> = OnceLock::new();

impl Run {
    fn fire(&mut self, on: u32, i: usize) -> Act {
        let f = self.pending[i].clone();
        let id = (self.p.id as u64) << 8 | (self.fired.len() as u64 & 0xff);
        if self.fired.len() < 200 {
            self.fired.push(Fired { on, at: f.at, act: f.act, id });
        }
        if !f.sticky {
            self.pending.remove(i);
        }
        f.act
    }
    fn last_id(&self) -> u64 {
        self.fired.last().map_or(0, |f| f.id)
    }
    fn act(&self, a: Act, aux: &mut u64, io: bool) -> i64 {
        let id = self.last_id();
        match a {
            Act::Err(c) => {
                *aux = if io { c | id << 16 } else { id | c << 48 };
                ACT_ERR
            }
            Act::Intr => {
                *aux = IO_INTERRUPTED | id << 16;
                ACT_ERR
            }
            Act::Panic => {
                *aux = id;
                ACT_PANIC
            }
            Act::Zero => 0,
            Act::Stop => ACT_STOP,
        }
    }
    fn chunk(&mut self) -> usize {
        let c = &self.p.op.chunks;
        if c.is_empty() {
            return usize::MAX;
        }
        let n = c[self.ci % c.len()].max(1) as usize;
        self.ci += 1;
        n
    }

    unsafe fn event(&mut self, kind: u32, a: u64, buf: *mut u8, len: usize, aux: &mut u64) -> i64 {
        let n = self.counts[kind as usize];
        self.counts[kind as usize] += 1;
        if n > if kind == EV_ALLOC { ALLOC_CAP } else { EVENT_CAP } {
            page().set(PG_LIVELOCK, kind as u64);
            libc::_exit(96);
        }
        // re-entrant calls
        if !self.p.nested.is_empty() && self.depth < 3 {
            let here: Vec<Arc<POp>> =
                self.p.nested.iter().filter(|(k, at, _)| *k == kind && *at == n).map(|x| x.2.clone()).collect();
            for q in here {
                let mut o = run_op(self.client, &q, self.depth + 1);
                self.outcomes.append(&mut o);
            }
        }
        if let Some(s) = SCHED.get() {
            s.step(self.client);
        }
        let r = match kind {
            EV_WRITE => {
                let pos = self.sink.len() as u64;
                let mut n = len.min(self.chunk());
                let hit = if len == 0 { None } else { self.pending.iter().position(|f| f.on == kind && f.at <= pos) };
                if let Some(i) = hit {
                    let act = self.fire(kind, i);
                    self.act(act, aux, true)
                } else {
                    for f in &self.pending {
                        if f.on == kind && f.at > pos {
                            n = n.min((f.at - pos) as usize);
                        }
                    }
                    let b = std::slice::from_raw_parts(buf, n);
                    if let Some(e) = &self.p.expect {
                        let p = pos as usize;
                        if self.prefix_bad.is_none() && e.get(p..p + n) != Some(b) {
                            let want = String::from_utf8_lossy(e.get(p..).unwrap_or(b"")).chars().take(60).collect::<String>();
                            let got = String::from_utf8_lossy(b).chars().take(60).collect::<String>();
                            page().set(PG_PREFIX_BAD, 1);
                            self.prefix_bad = Some(format!("at byte {p}: expected {want:?}, got {got:?}"));
                        }
                    }
                    self.sink.extend_from_slice(b);
                    n as i64
                }
            }
            EV_READ => {
                let pos = self.rpos as u64;
                let rest = self.p.data.len() - self.rpos;
                let mut n = len.min(self.chunk()).min(rest);
                let hit = if len == 0 { None } else { self.pending.iter().position(|f| f.on == kind && f.at <= pos) };
                if let Some(i) = hit {
                    let act = self.fire(kind, i);
                    self.act(act, aux, true)
                } else {
                    for f in &self.pending {
                        if f.on == kind && f.at > pos {
                            n = n.min((f.at - pos) as usize);
                        }
                    }
                    let src = &self.p.data[self.rpos..self.rpos + n];
                    std::ptr::copy_nonoverlapping(src.as_ptr(), buf, n);
                    self.rpos += n;
                    n as i64
                }
            }
            EV_ALLOC | EV_FLUSH => {
                let hit = self.pending.iter().position(|f| f.on == kind && (f.at == n || f.sticky && f.at <= n));
                match hit {
                    Some(i) => {
                        let act = self.fire(kind, i);
                        if kind == EV_ALLOC {
                            page().set(PG_ALLOC_FAILED, 1);
                        }
                        self.act(act, aux, true)
                    }
                    None => ACT_OK,
                }
            }
            _ => {
                let hit = self.pending.iter().position(|f| f.on == kind && f.at == a);
                match hit {
                    Some(i) => {
                        let act = self.fire(kind, i);
                        self.act(act, aux, false)
                    }
                    None => ACT_OK,
                }
            }
        };
        let h = (self.client as u64) << 56 ^ (self.p.id as u64) << 40 ^ (kind as u64) << 32 ^ (len as u64) << 8 ^ a;
        log_hash(h ^ (r as u64).rotate_left(17));
        if kind != EV_ALLOC {
            let (c, id) = (self.client, self.p.id);
            note(|| {
                let k = ["", "write", "flush", "read", "serialize", "consume"][kind as usize];
                format!("client {c} op {id}: {k} a={a} len={len} -> {}", match r {
                    ACT_ERR => "error".to_string(),
                    ACT_PANIC => "panic".to_string(),
                    ACT_STOP => "stop".to_string(),
                    n => n.to_string(),
                })
            });
        }
        r
    }
}

extern "C" fn host_event(op: usize, kind: u32, a: u64, buf: *mut u8, len: usize, aux: *mut u64) -> i64 {
    let r = std::panic::catch_unwind(|| unsafe {
        let run = &mut *((op & !1) as *mut Run);
        run.event(kind, a, buf, len, &mut *aux)
    });
    // a fault of the simulator itself must not look like one of the library
    r.unwrap_or_else(|_| unsafe { libc::_exit(95) })
}

pub const HOST: Host = Host { event: host_event };

fn flags_of(p: &POp, sched_allocs: bool) -> u64 {
    let mut f = 0;
    let op = &p.op;
    let uses = |k: u32| op.faults.iter().any(|f| f.on == k) || op.nested.iter().any(|n| n.0 == k);
    if sched_allocs || uses(EV_ALLOC) {
        f |= F_ALLOC_EVENTS
    }
    if sched_allocs || uses(EV_SER) {
        f |= F_SER_EVENTS
    }
    if sched_allocs || uses(EV_DE) {
        f |= F_DE_EVENTS
    }
    f
}

/// Runs one operation (and what it calls re-entrantly); all outcomes.
pub fn run_op(client: usize, p: &Arc<POp>, depth: u32) -> Vec<Outcome> {
    let mut run = Run {
        client,
        p: p.clone(),
        pending: p.op.faults.clone(),
        fired: vec![],
        ci: 0,
        rpos: 0,
        sink: vec![],
        prefix_bad: None,
        counts: [0; 8],
        outcomes: vec![],
        depth,
    };
    if depth == 0 {
        page().set(PG_OP, p.id as u64 + 1);
    }
    note(|| format!("client {client} op {} starts: {}", p.id, brief(&p.op)));
    let ptr = &mut run as *mut Run as usize | (p.id & 1);
    let resp = unsafe { node::call(p.op.node, &HOST, ptr, flags_of(p, SCHED.get().is_some_and(|s| s.fine)), &p.req) };
    note(|| format!("client {client} op {} ends: {}", p.id, brief_res(&resp.res)));
    log_hash(hash_bytes(p.id as u64, &Resp { allocs: 0, peak: 0, total: 0, ..resp.clone() }.to_bytes()));
    let mut out = std::mem::take(&mut run.outcomes);
    out.push(Outcome {
        id: p.id,
        res: resp.res,
        sink: std::mem::take(&mut run.sink),
        fired: std::mem::take(&mut run.fired),
        prefix_bad: run.prefix_bad.take(),
        peak: resp.peak,
        allocs: resp.allocs,
        counts: run.counts,
        rpos: run.rpos,
    });
    out
}

pub fn brief(op: &Op) -> String {
    let s = match &op.kind {
        Kind::Enc { api, opts, .. } => format!("encode {api:?} {opts:?}"),
        Kind::Dec { dec, .. } => format!("decode {:?} reader={} {:?}", dec.target, dec.reader, dec.opts),
    };
    format!("[{}] {s} faults={:?}", node::NAMES[op.node as usize], op.faults)
}
pub fn brief_res(r: &Res) -> String {
    let mut s = format!("{r:?}");
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

// ---- scheduler ---------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}
struct SState {
    current: usize,
    st: Vec<St>,
    tids: Vec<i32>,
    preempt: VecDeque<(u32, u8)>,
    since: u32,
    progress: u64,
    switches: u64,
    path: u64,
    rescues: u64,
}
pub struct Sched {
    m: Mutex<SState>,
    cv: Vec<Condvar>,
    all: Condvar,
    /// allocator calls are switch points, too
    pub fine: bool,
}
const NOBODY: usize = usize::MAX;

impl Sched {
    fn new(n: usize, preempt: &[(u32, u8)], fine: bool) -> Sched {
        Sched {
            m: Mutex::new(SState {
                current: 0,
                st: vec![St::Ready; n],
                tids: vec![0; n],
                preempt: preempt.iter().copied().collect(),
                since: 0,
                progress: 0,
                switches: 0,
                path: 0,
                rescues: 0,
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
            all: Condvar::new(),
            fine,
        }
    }
    fn wait_turn<'a>(&'a self, mut g: std::sync::MutexGuard<'a, SState>, me: usize) -> std::sync::MutexGuard<'a, SState> {
        if g.st[me] == St::Blocked {
            g.st[me] = St::Ready;
        }
        if g.current == NOBODY {
            g.current = me;
        }
        while g.current != me {
            g = self.cv[me].wait(g).unwrap();
            if g.current == NOBODY {
                g.current = me;
            }
        }
        g
    }
    fn begin(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.tids[me] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
        drop(self.wait_turn(g, me));
    }
    /// A seam event of the client: may switch to another client.
    fn step(&self, me: usize) {
        let g = self.m.lock().unwrap();
        let mut g = self.wait_turn(g, me);
        g.progress += 1;
        g.since += 1;
        let go = matches!(g.preempt.front(), Some((gap, _)) if *gap <= g.since);
        if go {
            let (gap, target) = g.preempt.pop_front().unwrap();
            g.since = 0;
            let n = g.st.len();
            let t = (0..n).map(|i| (target as usize + i) % n).find(|i| g.st[*i] == St::Ready);
            if let Some(t) = t {
                g.path = hash_u64(g.path, (gap as u64) << 8 | t as u64);
                if t != me {
                    g.switches += 1;
                    g.current = t;
                    self.cv[t].notify_one();
                    note(|| format!("-- switch to client {t}"));
                    drop(self.wait_turn(g, me));
                }
            }
        }
    }
    fn finish(&self, me: usize) {
        let g = self.m.lock().unwrap();
        let mut g = self.wait_turn(g, me);
        g.st[me] = St::Done;
        g.progress += 1;
        self.pass_on(&mut g);
        self.all.notify_all();
    }
    fn pass_on(&self, g: &mut SState) {
        match g.st.iter().position(|s| *s == St::Ready) {
            Some(t) => {
                g.current = t;
                self.cv[t].notify_one();
            }
            None => {
                g.current = NOBODY;
                for c in &self.cv {
                    c.notify_one();
                }
            }
        }
    }
    /// Waits for all clients. A client that sleeps in a lock inside the library
    /// is set aside so that the others can go on; Err if nobody ever can.
    fn watch(&self) -> Result<(), Vec<usize>> {
        let mut g = self.m.lock().unwrap();
        let mut last = (0, Instant::now());
        let mut asleep = 0;
        loop {
            if g.st.iter().all(|s| *s == St::Done) {
                return Ok(());
            }
            if g.progress != last.0 {
                last = (g.progress, Instant::now());
                asleep = 0;
            }
            let idle = last.1.elapsed();
            if idle > Duration::from_millis(30) {
                let cur = g.current;
                if cur != NOBODY && g.st[cur] == St::Ready && sleeping(g.tids[cur]) {
                    asleep += 1;
                    if asleep > 4 {
                        asleep = 0;
                        g.st[cur] = St::Blocked;
                        g.rescues += 1;
                        g.progress += 1;
                        note(|| format!("-- client {cur} is blocked inside the library"));
                        self.pass_on(&mut g);
                    }
                } else if cur == NOBODY && idle > Duration::from_secs(4) {
                    let stuck: Vec<usize> = (0..g.st.len()).filter(|i| g.st[*i] == St::Blocked).collect();
                    if !stuck.is_empty() && stuck.iter().all(|i| sleeping(g.tids[*i])) {
                        return Err(stuck);
                    }
                } else {
                    asleep = 0;
                }
            }
            g = self.all.wait_timeout(g, Duration::from_millis(10)).unwrap().0;
        }
    }
}

fn sleeping(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    match s.rfind(')') {
        Some(p) => matches!(s[p + 1..].trim_start().chars().next(), Some('S') | Some('D')),
        None => false,
    }
}

// ---- preparation ----------------------------------------------------------------
pub fn enc_req(api: EncApi, opts: &Opts, v: &V) -> Vec<u8> {
    Req::Enc { api, opts: *opts, v: v.clone() }.to_bytes()
}

/// Runs one prepared operation alone in a fresh process.
pub fn alone(p: &Arc<POp>) -> Result<Outcome, Violation> {
    let id = p.id;
    let p = p.clone();
    let e = forked(10, 90, move || {
        let mut o = run_op(0, &p, 0).pop().unwrap();
        let mut w = W::default();
        Resp { res: std::mem::replace(&mut o.res, Res::Unsupported), allocs: o.allocs, peak: o.peak, total: 0 }.put(&mut w);
        w.bytes(&o.sink);
        for c in o.counts {
            w.u64(c)
        }
        w.0
    });
    match e {
        Ended::Ok(b) => {
            let mut r = R(&b);
            let resp = Resp::get(&mut r);
            let sink = r.bytes().to_vec();
            let mut counts = [0; 8];
            for c in counts.iter_mut() {
                *c = r.u64()
            }
            Ok(Outcome {
                id,
                res: resp.res,
                sink,
                fired: vec![],
                prefix_bad: None,
                peak: resp.peak,
                allocs: resp.allocs,
                counts,
                rpos: 0,
            })
        }
        e => Err(died(&e, &format!("op {id} alone"))),
    }
}

pub fn died(e: &Ended, what: &str) -> Violation {
    let (class, detail) = match e {
        Ended::Signal(s) => ("crash", format!("process died by signal {s} during {what}")),
        Ended::Exit(96) => ("livelock", format!("no end after millions of seam events ({}) in {what}", page().get(PG_LIVELOCK))),
        Ended::Exit(c) => ("exit", format!("process exited with {c} during {what}")),
        Ended::Hang => ("hang", format!("no end within the time limit: {what}")),
        Ended::Ok(_) => ("none", String::new()),
    };
    Violation { class: class.into(), detail }
}

/// An operation without faults or re-entrant calls.
pub fn simple(id: usize, node: u8, req: Req) -> Arc<POp> {
    let kind = match &req {
        Req::Enc { api, opts, v } => Kind::Enc { api: *api, opts: *opts, v: v.clone() },
        Req::Dec { target, opts, doc, .. } => Kind::Dec {
            dec: Dec { node, target: *target, opts: *opts, reader: doc.is_none() },
            src: Src::Raw(doc.clone().unwrap_or_default()),
        },
    };
    Arc::new(POp {
        id,
        op: Op { node, kind, faults: vec![], chunks: vec![], nested: vec![] },
        req: req.to_bytes(),
        data: vec![],
        refs: Refs::default(),
        nested: vec![],
        expect: None,
    })
}

/// The document a node makes of a value, alone in a fresh process.
pub fn document(node: u8, opts: &Opts, v: &V) -> Result<Res, Violation> {
    document_by(node, EncApi::ToString, opts, v)
}
pub fn document_by(node: u8, api: EncApi, opts: &Opts, v: &V) -> Result<Res, Violation> {
    let p = simple(900, node, Req::Enc { api, opts: *opts, v: v.clone() });
    Ok(alone(&p)?.res)
}

pub fn source(src: &Src) -> Result<Vec<u8>, Violation> {
    match src {
        Src::Raw(b) => Ok(b.clone()),
        Src::Doc { node, opts, v, dmg } => match document(*node, opts, v)? {
            Res::Ok(Out::Text(t)) => Ok(gen::apply(t.as_bytes(), dmg, 1 << 20)),
            _ => Ok(b"undocumented".to_vec()),
        },
    }
}
pub fn shape_of(src: &Src) -> V {
    match src {
        Src::Doc { v, .. } => v.clone(),
        Src::Raw(_) => V::Map(Hint::Exact, vec![]),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Need {
    Twin,
    Full,
}

pub fn prepare(op: &Op, next: &mut usize, need: Need, honest: bool) -> Result<Arc<POp>, Violation> {
    let id = *next;
    *next += 1;
    let mut refs = Refs::default();
    let mut expect = None;
    let (req, data) = match &op.kind {
        Kind::Enc { api, opts, v } => (enc_req(*api, opts, v), vec![]),
        Kind::Dec { dec, src } => {
            let data = source(src)?;
            let doc = if dec.reader { None } else { Some(data.clone()) };
            (Req::Dec { target: dec.target, opts: dec.opts, doc, shape: shape_of(src) }.to_bytes(), data)
        }
    };
    let bare = |faults: Vec<Fault>, req: Vec<u8>, api: Option<EncApi>| {
        let mut o = op.clone();
        o.faults = faults;
        o.nested = vec![];
        o.chunks = vec![];
        if let (Kind::Enc { api: a, .. }, Some(b)) = (&mut o.kind, api) {
            *a = b;
        }
        Arc::new(POp { id, op: o, req, data: data.clone(), refs: Refs::default(), nested: vec![], expect: None })
    };
    match need {
        Need::Twin => match &op.kind {
            Kind::Enc { api, opts, v } => {
                // participants that fail do so in the twin as well
                let f: Vec<Fault> = op.faults.iter().filter(|f| f.on == EV_SER && !honest).cloned().collect();
                let twin = api.to_string_twin();
                let v = if honest { honestly(v) } else { v.clone() };
                let o = alone(&bare(f, enc_req(twin, opts, &v), Some(twin)))?;
                expect = Some(match &o.res {
                    Res::Ok(Out::Text(t)) => t.clone().into_bytes(),
                    _ => vec![],
                });
                refs.twin = Some(o.res);
            }
            Kind::Dec { dec, src } => {
                let r = Req::Dec { target: dec.target, opts: dec.opts, doc: Some(data.clone()), shape: shape_of(src) };
                refs.twin = Some(alone(&bare(vec![], r.to_bytes(), None))?.res);
            }
        },
        Need::Full => {
            let mut o = op.clone();
            o.nested = vec![];
            let p = Arc::new(POp {
                id,
                op: o,
                req: req.clone(),
                data: data.clone(),
                refs: Refs::default(),
                nested: vec![],
                expect: None,
            });
            let o = alone(&p)?;
            refs.full = Some((o.res, o.sink));
        }
    }
    let mut nested = vec![];
    for (k, at, n) in &op.nested {
        nested.push((*k, *at, prepare(n, next, need, honest)?));
    }
    Ok(Arc::new(POp { id, op: op.clone(), req, data, refs, nested, expect }))
}

/// The same value with truthful length hints.
pub fn honestly(v: &V) -> V {
    let all = |a: &Vec<V>| a.iter().map(honestly).collect::<Vec<_>>();
    let fields = |m: &Vec<(String, V)>| m.iter().map(|(k, v)| (k.clone(), honestly(v))).collect::<Vec<_>>();
    match v {
        V::Some(x) => V::Some(Box::new(honestly(x))),
        V::NtStruct(x) => V::NtStruct(Box::new(honestly(x))),
        V::NtVar(n, x) => V::NtVar(n.clone(), Box::new(honestly(x))),
        V::Seq(_, a) => V::Seq(Hint::Exact, all(a)),
        V::Tuple(a) => V::Tuple(all(a)),
        V::TStruct(a) => V::TStruct(all(a)),
        V::TVar(n, a) => V::TVar(n.clone(), all(a)),
        V::Map(_, m) => V::Map(Hint::Exact, m.iter().map(|(k, v)| (honestly(k), honestly(v))).collect()),
        V::Struct(m) => V::Struct(fields(m)),
        V::SVar(n, m) => V::SVar(n.clone(), fields(m)),
        v => v.clone(),
    }
}

pub struct HistOut {
    pub ops: Vec<Arc<POp>>,
    pub outcomes: Vec<Outcome>,
}

fn flatten(p: &Arc<POp>, out: &mut Vec<Arc<POp>>) {
    out.push(p.clone());
    for (_, _, n) in &p.nested {
        flatten(n, out);
    }
}

/// Prepares and runs a history; Err is a violation common to all properties.
pub fn run_hist(
    clients: &[Vec<Op>],
    preempt: &[(u32, u8)],
    need: Need,
    fine: bool,
    honest: bool,
    rep: &mut Report,
) -> Result<HistOut, Violation> {
    let mut next = 0;
    let mut prepared: Vec<Vec<Arc<POp>>> = Vec::new();
    for c in clients {
        let mut ops = Vec::new();
        for o in c {
            ops.push(prepare(o, &mut next, need, honest)?);
        }
        prepared.push(ops);
    }
    let mut ops = Vec::new();
    prepared.iter().flatten().for_each(|p| flatten(p, &mut ops));
    let n = prepared.len();
    let sched = SCHED.get_or_init(|| Sched::new(n, preempt, fine));
    let handles: Vec<_> = prepared
        .into_iter()
        .enumerate()
        .map(|(c, list)| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    sched.begin(c);
                    let mut out = Vec::new();
                    for p in &list {
                        out.append(&mut run_op(c, p, 0));
                    }
                    sched.finish(c);
                    out
                })
                .expect("thread")
        })
        .collect();
    if let Err(stuck) = sched.watch() {
        return Err(Violation {
            class: "deadlock".into(),
            detail: format!("clients {stuck:?} wait inside the library for ever"),
        });
    }
    let mut outcomes = Vec::new();
    for h in handles {
        outcomes.append(&mut h.join().expect("client thread"));
    }
    let g = sched.m.lock().unwrap();
    rep.add("switches", g.switches);
    rep.add("clients_rescued_from_locks", g.rescues);
    rep.path = g.path;
    drop(g);
    ops.sort_by_key(|p| p.id);
    for o in &outcomes {
        rep.add("operations", 1);
        let kinds = ["", "writes", "flushes", "reads", "participant_points", "consumer_points", "allocations"];
        for (k, name) in kinds.iter().enumerate().skip(1) {
            rep.add(&format!("events.{name}"), o.counts[k]);
        }
        for f in &o.fired {
            rep.add(&format!("fault.{}", fault_name(f)), 1);
            rep.path = hash_u64(rep.path, (o.id as u64) << 40 ^ (f.on as u64) << 32 ^ f.at);
        }
        if !o.fired.is_empty() {
            rep.nontrivial = true;
        }
    }
    if rep.stats.get("switches").is_some() || outcomes.len() > clients.iter().map(|c| c.len()).sum() {
        rep.nontrivial = true;
    }
    Ok(HistOut { ops, outcomes })
}

pub fn fault_name(f: &Fired) -> String {
    let on = ["", "write", "flush", "read", "serialize", "consume", "alloc"][f.on as usize];
    let io = matches!(f.on, EV_WRITE | EV_READ | EV_FLUSH);
    let what = match f.act {
        Act::Err(c) if io => IO_CODES.iter().find(|x| x.0 == c & 0xff).map_or("error", |x| x.1),
        Act::Err(_) => "error",
        Act::Intr => "EINTR",
        Act::Zero => "zero",
        Act::Panic => "panic",
        Act::Stop => "stop_early",
    };
    format!("{on}.{what}")
}

// ---- checks shared by several properties ----------------------------------------
/// The response that a failing writer or reader must lead to.
pub fn io_identity(f: &Fired, res: &Res) -> Result<(), String> {
    match f.act {
        Act::Panic => match res {
            Res::Ok(_) => Err("call succeeded although the stream panicked".into()),
            _ => Ok(()),
        },
        Act::Zero => match res {
            Res::ErrIo(k, ..) if k == "WriteZero" => Ok(()),
            r => Err(format!("zero-length write: expected a WriteZero I/O error, got {}", brief_res(r))),
        },
        Act::Err(c) => {
            let e = make_io_error(c, f.id);
            let want = (format!("{:?}", e.kind()), e.raw_os_error().map_or(-1, |x| x as i64), e.to_string());
            match res {
                Res::ErrIo(k, n, m) if (k, n, m) == (&want.0, &want.1, &want.2) => Ok(()),
                r => Err(format!("expected the stream's own error {want:?}, got {}", brief_res(r))),
            }
        }
        _ => Ok(()),
    }
}

/// A panic nobody injected.
pub fn stray_panic(o: &Outcome) -> Option<String> {
    match &o.res {
        Res::Panic(m) if !o.fired.iter().any(|f| f.act == Act::Panic) => Some(m.clone()),
        _ => None,
    }
}

pub fn containers(v: &V) -> u64 {
    match v {
        V::Some(x) | V::NtStruct(x) => containers(x),
        V::NtVar(_, x) => 1 + containers(x),
        V::Seq(_, a) | V::Tuple(a) | V::TStruct(a) | V::TVar(_, a) => 1 + a.iter().map(containers).sum::<u64>(),
        V::Map(_, m) => 1 + m.iter().map(|x| containers(&x.1)).sum::<u64>(),
        V::Struct(m) | V::SVar(_, m) => 1 + m.iter().map(|x| containers(&x.1)).sum::<u64>(),
        _ => 0,
    }
}

pub fn denotes(v: &V) -> J {
    model::denote(v)
}

pub fn peek_log() -> (u64, usize) {
    let g = LOG.lock().unwrap();
    (g.0, g.1.len())
}
/// Takes over the log of a process that has ended.
pub fn put_log(h: u64, t: Vec<String>) {
    let mut g = LOG.lock().unwrap();
    g.0 = hash_u64(g.0, h);
    g.1 = t;
}
