//! Seeded search over executions, minimisation, replay and evidence.
use crate::exec::{self, page, Report, Violation};
use crate::fork::{forked, Ended, Page};
use crate::node;
use crate::oracle;
use crate::plan::*;
use crate::props::{self, Prop};
use crate::rng::mix;
use crate::shrink;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

type Opt = HashMap<String, String>;
const ERR_FD: i32 = 200;

fn setup(opt: &Opt, nodes: &[u8]) -> Result<(), String> {
    page();
    std::env::set_var("RUST_BACKTRACE", "0");
    let dir = opt.get("nodes").cloned().unwrap_or("/verif/target".into());
    node::load(&dir, nodes)?;
    crate::cli::setup(&dir, opt);
    std::panic::set_hook(Box::new(|i| {
        let s = format!("simulator: {i}\n");
        unsafe {
            libc::write(ERR_FD, s.as_ptr() as *const _, s.len());
        }
    }));
    unsafe {
        libc::dup2(2, ERR_FD);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 2);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    Ok(())
}
macro_rules! say {
    ($($a:tt)*) => {{
        let s = format!("{}\n", format!($($a)*));
        unsafe { libc::write(ERR_FD, s.as_ptr() as *const _, s.len()); }
    }};
}

pub fn run_plan(plan: &Plan) -> Report {
    crate::random::begin(plan.seed);
    for i in 0..8 {
        page().set(i, 0);
    }
    let e = forked(40, 200, || serde_json::to_vec(&oracle::execute(plan)).unwrap());
    match e {
        Ended::Ok(b) => crate::from_json_bytes(&b).unwrap_or_else(|e| Report { harness: Some(e.to_string()), ..Default::default() }),
        Ended::Exit(c @ (95 | 97 | 98)) => {
            Report { harness: Some(format!("simulator failed with code {c}")), ..Default::default() }
        }
        e => {
            let op = page().get(exec::PG_OP);
            let what = if op == 0 { "preparation".to_string() } else { format!("operation {}", op - 1) };
            Report { violation: Some(exec::died(&e, &what)), ..Default::default() }
        }
    }
}

#[derive(Default, Serialize, Deserialize)]
struct Sum {
    execs: u64,
    stats: BTreeMap<String, u64>,
    nontrivial: Vec<u64>,
    logs: Vec<(u64, u64)>,
    found: Option<(u64, Violation)>,
    harness: Option<(u64, String)>,
    slow_ms: u64,
}

fn seed_of(base: u64, i: u64) -> u64 {
    mix(base.wrapping_mul(0x9E37_79B9).wrapping_add(i + 1))
}

struct Search {
    sum: Sum,
    distinct: usize,
    wall: f64,
    capped: bool,
}

fn search(p: &Prop, base: u64, count: u64, jobs: u64, cap: Duration, keep_logs: bool) -> Search {
    let start = Instant::now();
    let best = Page::new();
    best.set(0, u64::MAX);
    let mut children = Vec::new();
    for w in 0..jobs {
        unsafe {
            let mut fd = [0i32; 2];
            assert_eq!(libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fd[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                exec::fresh_page();
                crate::cli::worker(w);
                let s = worker(p, base, count, w, jobs, &best, start, cap, keep_logs);
                let b = serde_json::to_vec(&s).unwrap();
                let mut o = &b[..];
                while !o.is_empty() {
                    let n = libc::write(fd[1], o.as_ptr() as *const _, o.len());
                    if n <= 0 {
                        libc::_exit(94);
                    }
                    o = &o[n as usize..];
                }
                crate::cli::worker_end();
                libc::_exit(0);
            }
            libc::close(fd[1]);
            children.push((pid, fd[0]));
        }
    }
    let mut sum = Sum::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    for (pid, fd) in children {
        use std::io::Read;
        use std::os::fd::FromRawFd;
        let mut b = Vec::new();
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match crate::from_json_bytes::<Sum>(&b) {
            Ok(s) => {
                sum.execs += s.execs;
                for (k, n) in s.stats {
                    *sum.stats.entry(k).or_insert(0) += n;
                }
                distinct.extend(s.nontrivial);
                sum.logs.extend(s.logs);
                sum.slow_ms = sum.slow_ms.max(s.slow_ms);
                if let Some(f) = s.found {
                    if sum.found.as_ref().is_none_or(|g| f.0 < g.0) {
                        sum.found = Some(f);
                    }
                }
                if let Some(h) = s.harness {
                    sum.harness = Some(h);
                }
            }
            Err(e) => sum.harness = Some((0, format!("worker: status {st}, {e}"))),
        }
    }
    sum.logs.sort();
    let capped = sum.execs < count && sum.found.is_none();
    Search { sum, distinct: distinct.len(), wall: start.elapsed().as_secs_f64(), capped }
}

#[allow(clippy::too_many_arguments)]
fn worker(p: &Prop, base: u64, count: u64, w: u64, jobs: u64, best: &Page, start: Instant, cap: Duration, keep: bool) -> Sum {
    let mut s = Sum::default();
    let mut seen = HashSet::new();
    let mut i = w;
    while i < count {
        if best.get(0) < i || start.elapsed() > cap {
            break;
        }
        let seed = seed_of(base, i);
        let plan = props::plan(p.id, seed);
        let t = Instant::now();
        let r = run_plan(&plan);
        let ms = t.elapsed().as_millis() as u64;
        if ms > 1500 && std::env::var("SIM_SLOW").is_ok() {
            say!("slow: {} seed {seed} {ms} ms", p.id);
        }
        s.slow_ms = s.slow_ms.max(ms);
        s.execs += 1;
        for (k, n) in &r.stats {
            *s.stats.entry(k.clone()).or_insert(0) += n;
        }
        if r.nontrivial && seen.insert(r.path) {
            s.nontrivial.push(r.path);
        }
        if keep {
            s.logs.push((i, r.log));
        }
        if let Some(h) = r.harness {
            s.harness = Some((seed, h));
            break;
        }
        if let Some(v) = r.violation {
            s.found = Some((i, v));
            best.atomic(0).fetch_min(i, Ordering::SeqCst);
            break;
        }
        i += jobs;
    }
    s
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    violation: Violation,
    seed: u64,
    /// how to run it again
    command: String,
    plan: Plan,
    trace: Vec<String>,
}

fn minimise(plan: &Plan, v: &Violation, budget: Duration) -> (Plan, Violation, u64) {
    let end = Instant::now() + budget;
    let (mut best, mut bv, mut tries) = (plan.clone(), v.clone(), 0);
    let slow = matches!(v.class.as_str(), "hang" | "deadlock" | "livelock");
    'again: loop {
        for c in shrink::candidates(&best) {
            if Instant::now() > end || tries > 4000 || (slow && tries > 6) {
                break 'again;
            }
            tries += 1;
            let r = run_plan(&c);
            if let Some(x) = r.violation {
                if x.class == v.class {
                    best = c;
                    bv = x;
                    continue 'again;
                }
            }
        }
        break;
    }
    (best, bv, tries)
}

fn num(opt: &Opt, k: &str, d: u64) -> u64 {
    opt.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
}

pub fn run(id: &str, opt: &Opt) -> i32 {
    let Some(p) = props::prop(id) else {
        eprintln!("no such property: {id}");
        return 2;
    };
    if let Err(e) = setup(opt, p.nodes) {
        eprintln!("{e}");
        return 2;
    }
    let thorough = opt.get("tier").is_some_and(|t| t == "thorough");
    let base = num(opt, "seed", 1);
    let count = num(opt, "count", if thorough { p.thorough } else { p.quick });
    let jobs = num(opt, "jobs", 8);
    let cap = Duration::from_secs(num(opt, "wall", if thorough { 700 } else { 150 }));
    let mut changed = Vec::new();
    if let Some(file) = opt.get("known") {
        match crate::known::check(file, id) {
            Err(e) => {
                say!("{e}");
                return 3;
            }
            Ok((there, other)) => {
                for d in there {
                    println!("KNOWN-FINDING: property={id} {d}");
                }
                changed = other;
            }
        }
    }
    let s = search(p, base, count, jobs, cap, false);
    say!(
        "{id}: {} executions, {} distinct non-trivial, {:.1} s, slowest {} ms{}",
        s.sum.execs,
        s.distinct,
        s.wall,
        s.sum.slow_ms,
        if s.capped { ", stopped by the time limit" } else { "" }
    );
    if let Some((seed, h)) = &s.sum.harness {
        say!("harness error (seed {seed}): {h}");
        return 3;
    }
    let mut code = 0;
    let mut violations = 0;
    let first = match (&s.sum.found, changed.pop()) {
        (Some((i, v)), _) => {
            let seed = seed_of(base, *i);
            say!("violation [{}] in execution {i}: {}", v.class, v.detail);
            Some((props::plan(id, seed), v.clone()))
        }
        (None, Some(plan)) => run_plan(&plan).violation.map(|v| (plan, v)),
        _ => None,
    };
    if let Some((plan, v)) = first {
        let seed = plan.seed;
        crate::cli::worker(99);
        let budget = Duration::from_secs(num(opt, "shrink", 25));
        let small = forked(600, 200, || serde_json::to_vec(&minimise(&plan, &v, budget)).unwrap());
        let (plan, v, tries) = match small {
            Ended::Ok(b) => crate::from_json_bytes(&b).unwrap_or((plan, v, 0)),
            _ => (plan, v, 0),
        };
        let _ = exec::TRACE.set(true);
        let r = run_plan(&plan);
        crate::cli::worker_end();
        let again = r.violation.as_ref().is_some_and(|x| x.class == v.class);
        let dir = opt.get("replays").cloned().unwrap_or("/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-{seed:016x}.json");
        let f = ReplayFile {
            property: id.into(),
            violation: v.clone(),
            seed,
            command: format!("bash run.sh replay {path}"),
            plan,
            trace: r.trace,
        };
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()) {
            say!("cannot write {path}: {e}");
            return 3;
        }
        say!("minimised in {tries} runs, replays: {again}");
        say!("  {}: {}", v.class, v.detail);
        println!("VIOLATION property={id} replay={path}");
        violations = 1;
        code = 1;
    }
    if let Some(path) = opt.get("evidence") {
        if let Err(e) = evidence(path, p, thorough, base, jobs, &s, violations) {
            say!("cannot write evidence: {e}");
            return 3;
        }
    }
    code
}

fn evidence(path: &str, p: &Prop, thorough: bool, base: u64, jobs: u64, s: &Search, violations: u64) -> Result<(), String> {
    use serde_json::json;
    let mut faults = serde_json::Map::new();
    let mut other = serde_json::Map::new();
    for (k, n) in &s.sum.stats {
        match k.strip_prefix("fault.") {
            Some(f) => faults.insert(f.to_string(), (*n).into()),
            None => other.insert(k.clone(), (*n).into()),
        };
    }
    let samples: Vec<serde_json::Value> = (0..3)
        .map(|i| {
            let seed = seed_of(base, i);
            let text = serde_json::to_string(&props::plan(p.id, seed)).unwrap_or_default();
            let short: String = text.chars().take(1500).collect();
            json!({"execution": i, "seed": seed, "plan": short, "plan_length": text.len()})
        })
        .collect();
    let per_hour = if s.wall > 0.0 { (s.sum.execs as f64 / s.wall * 3600.0) as u64 } else { 0 };
    let j = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "wall_s": s.wall,
        "violations": violations,
        "coverage": {
            "evaluations": s.sum.execs,
            "distinct_nontrivial": s.distinct,
            "rule": format!("one execution = one seed: a generated plan (operations of simulated clients, schedule, faults) run in a process of its own; non-trivial: {}; distinct by the hash of the event log together with the schedule and fault decisions taken",
                if p.id == "C18" { "the data grew to three sizes" } else { "at least one fault fired, one preemption took place or one call was re-entrant" }),
            "samples": samples,
            "seeds_per_hour": per_hour,
            "workers": jobs,
            "faults_fired": faults,
            "measured": other,
            "simulated_time": if p.id == "C18" { "one tick for every basic block and every eight bytes moved: see measured: steps" } else { "the library and the tools read no clock and set no timer; progress is counted in seam events (see measured: events.*)" },
            "components": props::components(p),
            "stopped_by_time_limit": s.capped,
        },
        "assumptions": [
            "what crosses the seams (Read, Write, Serialize, Deserialize, the allocator, for the tools read/write/open) is all the library takes from its environment; calls between two seam events are atomic in the simulation",
            "a clean search is evidence over the seeds it ran, not a proof"
        ],
    });
    std::fs::write(path, serde_json::to_string_pretty(&j).unwrap()).map_err(|e| e.to_string())
}

pub fn replay(file: &str, opt: &Opt) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let f: ReplayFile = match crate::from_json_bytes(text.as_bytes()) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let Some(p) = props::prop(&f.property) else { return 2 };
    if let Err(e) = setup(opt, p.nodes) {
        eprintln!("{e}");
        return 2;
    }
    let _ = exec::TRACE.set(true);
    crate::cli::worker(98);
    let r = run_plan(&f.plan);
    crate::cli::worker_end();
    for l in &r.trace {
        println!("{l}");
    }
    if let Some(h) = r.harness {
        say!("harness error: {h}");
        return 3;
    }
    match r.violation {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} replay={file}", f.property);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn show(id: &str, seed: u64, opt: &Opt) -> i32 {
    let Some(p) = props::prop(id) else { return 2 };
    if let Err(e) = setup(opt, p.nodes) {
        eprintln!("{e}");
        return 2;
    }
    let _ = exec::TRACE.set(true);
    let seed = if opt.contains_key("index") { seed_of(num(opt, "seed", 1), seed) } else { seed };
    let plan = props::plan(id, seed);
    println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    crate::cli::worker(97);
    let r = run_plan(&plan);
    crate::cli::worker_end();
    for l in &r.trace {
        println!("{l}");
    }
    println!("{:?} {:?} {:?}", r.violation, r.harness, r.stats);
    0
}

/// The same seeds must give the same event logs, whatever the number of workers.
pub fn selftest(opt: &Opt) -> i32 {
    if let Err(e) = setup(opt, &(0..node::NAMES.len() as u8).collect::<Vec<u8>>()) {
        eprintln!("{e}");
        return 2;
    }
    let n = num(opt, "count", 300);
    let mut bad = 0;
    for p in &props::PROPS {
        if opt.get("only").is_some_and(|o| o != p.id) {
            continue;
        }
        let mut first: Option<Vec<(u64, u64)>> = None;
        for (round, jobs) in [8u64, 3, 16, 8, 5].into_iter().enumerate() {
            let s = search(p, 77, n, jobs, Duration::from_secs(600), true);
            if let Some(h) = s.sum.harness {
                say!("{}: harness error {h:?}", p.id);
                bad += 1;
            }
            if let Some(f) = s.sum.found {
                say!("{}: violation {f:?}", p.id);
                bad += 1;
            }
            match &first {
                None => first = Some(s.sum.logs),
                Some(f) => {
                    let diff: Vec<u64> = f.iter().zip(&s.sum.logs).filter(|(a, b)| a != b).map(|(a, _)| a.0).collect();
                    if !diff.is_empty() || f.len() != s.sum.logs.len() {
                        say!("{} round {round} ({jobs} workers): {} logs differ, first {:?}", p.id, diff.len(), diff.first());
                        bad += 1;
                    }
                }
            }
        }
        say!("{}: {n} seeds x 5 rounds done", p.id);
    }
    if bad > 0 {
        3
    } else {
        0
    }
}
