//! The command line tools: real processes whose system calls on the input and
//! on standard output are answered by a script (C10, C12).
use crate::exec::*;
use crate::gen::{self, Cfg};
use crate::model;
use crate::node::DEF;
use crate::plan::*;
use crate::rng::{hash_bytes, Rng};
use proto::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::sync::Mutex;
use std::time::{Duration, Instant};

static PATHS: Mutex<(String, String, String)> = Mutex::new((String::new(), String::new(), String::new()));

pub fn setup(dir: &str, _opt: &HashMap<String, String>) {
    let mut g = PATHS.lock().unwrap();
    g.0 = format!("{dir}/cli/release/toon-cli");
    g.1 = format!("{dir}/shim/simio.so");
}
/// A scratch directory of the worker's own.
pub fn worker(w: u64) {
    let d = format!("{}/toonsim-{}-{w}", std::env::temp_dir().display(), std::process::id());
    let _ = std::fs::create_dir_all(&d);
    PATHS.lock().unwrap().2 = d;
}
pub fn worker_end() {
    let d = std::mem::take(&mut PATHS.lock().unwrap().2);
    if d.contains("/toonsim-") {
        let _ = std::fs::remove_file(format!("{d}/input"));
        let _ = std::fs::remove_dir(&d);
    }
}

// ---- plans ------------------------------------------------------------------
const READ_ERR: [i32; 6] = [5, 11, 12, 104, 110, 21];
const WRITE_ERR: [i32; 7] = [28, 32, 5, 122, 11, 27, 0];
const OPEN_ERR: [i32; 5] = [13, 24, 23, 5, 12];

fn script(r: &mut Rng, len_in: u64, len_out: u64, file: bool, hard: bool) -> Vec<SysFault> {
    let mut s = Vec::new();
    if r.one_in(2) {
        for _ in 0..r.range(1, 4) {
            let on = r.below(2) as u8;
            let at = gen::offset(r, if on == 0 { len_in } else { len_out });
            for _ in 0..*r.pick(&[1, 1, 3]) {
                s.push(SysFault { on, at, errno: 4, sticky: false });
            }
        }
        if file && r.one_in(3) {
            s.push(SysFault { on: 2, at: 0, errno: 4, sticky: false });
        }
    }
    if hard {
        let sticky = r.one_in(2);
        s.push(match r.below(8) {
            0 if file => SysFault { on: 2, at: 0, errno: *r.pick(&OPEN_ERR), sticky: true },
            0 | 1 => SysFault { on: 0, at: gen::offset(r, len_in), errno: *r.pick(&READ_ERR), sticky },
            2 => SysFault { on: r.below(2) as u8, at: 0, errno: -1, sticky: true },
            3 => {
                let on = r.below(2) as u8;
                SysFault { on, at: gen::offset(r, if on == 0 { len_in } else { len_out }), errno: -1, sticky: true }
            }
            _ => SysFault { on: 1, at: gen::offset(r, len_out), errno: *r.pick(&WRITE_ERR), sticky },
        });
    }
    s.sort_by_key(|f| f.at);
    s.truncate(20);
    s
}

fn chunked(r: &mut Rng, len: u64) -> Vec<u32> {
    let mut c = gen::chunks(r);
    if len > 20_000 && c.iter().all(|x| *x < 64) {
        c = vec![*r.pick(&[100, 1000, 4096, 8192])];
    }
    c.truncate(16);
    c
}

fn val(r: &mut Rng, c: &mut Cfg) -> V {
    let v = if r.one_in(12) {
        let n = *r.pick(&[1000, 4096, 8192, 30_000, 66_000, 200_000, 400_000]);
        let n = r.range(n / 2, n + 100);
        gen::big(r, c, n)
    } else {
        gen::root(r, c)
    };
    model::relay_value(&tame(&model::denote(&v)))
}

/// Numbers that every JSON parser reads exactly.
fn tame(j: &J) -> J {
    let f = |x: f64| {
        let y = (x.clamp(-1e8, 1e8) * 1000.0).round() / 1000.0;
        if y.fract() == 0.0 {
            J::Int(y as i128)
        } else {
            J::Float(y)
        }
    };
    match j {
        J::Float(x) => f(*x),
        J::F32(x) => f(*x as f64),
        J::Arr(a) => J::Arr(a.iter().map(tame).collect()),
        J::Obj(m) => J::Obj(m.iter().map(|(k, v)| (k.clone(), tame(v))).collect()),
        x => x.clone(),
    }
}

pub fn plan(id: &str, r: &mut Rng) -> Body {
    let mut c = Cfg::swarm(r);
    let n = r.range(1, 3);
    let mut runs = Vec::new();
    for _ in 0..n {
        let pipeline = id == "C12";
        let decode = !pipeline && r.one_in(2);
        let input = match r.below(if pipeline { 1 } else { 12 }) {
            9 => CliInput::Raw(gen::soup(r)),
            10 => {
                let v = val(r, &mut c);
                let len = crate::props::size(&v).max(1);
                let k = r.range(1, 3);
                let d = (0..k).map(|_| gen::bytes_damage(r, len)).collect();
                CliInput::Damaged(v, d)
            }
            11 if r.one_in(3) => CliInput::Missing,
            11 => {
                let v = val(r, &mut c);
                let len = crate::props::size(&v).max(1);
                let b = *r.pick(&[0xffu8, 0xc3, 0x80]);
                CliInput::Damaged(v, vec![Dmg::SetByte(r.below(len), b)])
            }
            _ => CliInput::Value(val(r, &mut c)),
        };
        let len = match &input {
            CliInput::Value(v) | CliInput::Damaged(v, _) => crate::props::size(v),
            CliInput::Raw(b) => b.len() as u64,
            CliInput::Missing => 0,
        };
        let from_file = r.one_in(3) || input == CliInput::Missing;
        let hard = r.one_in(2);
        let chunks_in = chunked(r, len);
        let chunks_out = chunked(r, len);
        let script1 = script(r, len, len, from_file, hard);
        let script2 = if pipeline {
            let h = r.one_in(3);
            script(r, len, len, false, h)
        } else {
            vec![]
        };
        runs.push(CliRun {
            decode,
            delim: *r.pick(&[0, 0, 1, 2]),
            delim2: *r.pick(&[0, 0, 1, 2]),
            pretty: r.one_in(3),
            strict_flag: r.one_in(3),
            from_file,
            pipeline,
            input,
            script: script1,
            script2,
            chunks_in,
            chunks_out,
        });
    }
    Body::Cli { runs }
}

// ---- one process ------------------------------------------------------------
struct Ran {
    /// exit status, or minus the signal
    code: i32,
    out: Vec<u8>,
    rec: [u64; 64],
    script: Vec<SysFault>,
}
impl Ran {
    fn killed(&self) -> bool {
        self.fired(|f| f.errno == -1)
    }
    fn fired(&self, p: impl Fn(&SysFault) -> bool) -> bool {
        self.script.iter().enumerate().any(|(i, f)| self.rec[16 + i] > 0 && p(f))
    }
    fn hard(&self) -> bool {
        self.fired(|f| f.errno != 4)
    }
    fn brief(&self) -> String {
        let f: Vec<String> = self
            .script
            .iter()
            .enumerate()
            .filter(|(i, _)| self.rec[16 + i] > 0)
            .map(|(i, f)| format!("{} x{}", fname(f), self.rec[16 + i]))
            .collect();
        format!(
            "status {}, {} bytes out, {} reads {} writes, faults that fired: [{}]",
            self.code,
            self.out.len(),
            self.rec[2],
            self.rec[3],
            f.join(", ")
        )
    }
}

fn fname(f: &SysFault) -> String {
    let on = ["read", "write", "open"][f.on as usize];
    let e = match f.errno {
        -1 => "kill",
        0 => "zero",
        4 => "EINTR",
        5 => "EIO",
        11 => "EAGAIN",
        12 => "ENOMEM",
        13 => "EACCES",
        21 => "EISDIR",
        23 => "ENFILE",
        24 => "EMFILE",
        27 => "EFBIG",
        28 => "ENOSPC",
        32 => "EPIPE",
        104 => "ECONNRESET",
        110 => "ETIMEDOUT",
        122 => "EDQUOT",
        _ => "other",
    };
    format!("{on}.{e}")
}

fn memfd(data: &[u8]) -> i32 {
    unsafe {
        let fd = libc::memfd_create(c"sim".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0);
        let mut o = data;
        while !o.is_empty() {
            let n = libc::write(fd, o.as_ptr() as *const _, o.len());
            assert!(n > 0);
            o = &o[n as usize..];
        }
        libc::lseek(fd, 0, libc::SEEK_SET);
        fd
    }
}
fn slurp(fd: i32) -> Vec<u8> {
    let mut v = Vec::new();
    let mut b = vec![0u8; 1 << 16];
    let mut off = 0;
    loop {
        let n = unsafe { libc::pread(fd, b.as_mut_ptr() as *mut _, b.len(), off) };
        if n <= 0 {
            return v;
        }
        v.extend_from_slice(&b[..n as usize]);
        off += n as i64;
    }
}

struct Call<'a> {
    flags: Vec<&'a str>,
    /// None: a file that does not exist
    input: Option<&'a [u8]>,
    from_file: bool,
    script: &'a [SysFault],
    cin: &'a [u32],
    cout: &'a [u32],
}

fn spawn(c: &Call, rep: &mut Report) -> Result<Ran, Violation> {
    let (bin, shim, dir) = PATHS.lock().unwrap().clone();
    let path = if !c.from_file {
        String::new()
    } else if c.input.is_none() {
        format!("{dir}/missing")
    } else {
        let p = format!("{dir}/input");
        if let Err(e) = std::fs::write(&p, c.input.unwrap()) {
            panic!("cannot write {p}: {e}");
        }
        p
    };
    let list = |x: &[u32]| x.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",");
    let faults: Vec<String> =
        c.script.iter().map(|f| format!("{}:{}:{}:{}", f.on, f.at, f.errno, f.sticky as u8)).collect();
    let seed = crate::random::next() & 0xffff_ffff;
    let simio = format!("SIMIO=9;{}:{path};{};{};{};{seed}", path.len(), list(c.cin), list(c.cout), faults.join(","));
    let cs = |s: &str| CString::new(s).unwrap();
    let mut argv = vec![cs("toon-cli")];
    argv.extend(c.flags.iter().map(|f| cs(f)));
    if c.from_file {
        argv.push(cs(&path));
    }
    let env = [cs(&simio), cs(&format!("LD_PRELOAD={shim}")), cs("RUST_BACKTRACE=0"), cs("PATH=/usr/bin:/bin")];
    let bin = cs(&bin);
    let ptrs = |v: &[CString]| {
        let mut p: Vec<*const libc::c_char> = v.iter().map(|s| s.as_ptr()).collect();
        p.push(std::ptr::null());
        p
    };
    let (ap, ep) = (ptrs(&argv), ptrs(&env));
    let fin = memfd(if c.from_file { &[] } else { c.input.unwrap_or(&[]) });
    let fout = memfd(&[]);
    let frec = memfd(&[0u8; 4096]);
    let (status, hang) = unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 10, rlim_max: 12 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            // out of the way of the numbers they get
            let a = libc::fcntl(fin, libc::F_DUPFD_CLOEXEC, 40);
            let b = libc::fcntl(fout, libc::F_DUPFD_CLOEXEC, 40);
            let r = libc::fcntl(frec, libc::F_DUPFD_CLOEXEC, 40);
            libc::dup2(a, 0);
            libc::dup2(b, 1);
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(n, 2);
            libc::dup2(r, 9);
            libc::signal(libc::SIGPIPE, libc::SIG_DFL);
            libc::execve(bin.as_ptr(), ap.as_ptr(), ep.as_ptr());
            libc::_exit(95);
        }
        let end = Instant::now() + Duration::from_secs(45);
        let mut st = 0;
        let mut hang = false;
        let mut nap = 50;
        loop {
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                break;
            }
            if Instant::now() > end {
                hang = true;
                libc::kill(pid, libc::SIGKILL);
                while libc::waitpid(pid, &mut st, 0) < 0 {}
                break;
            }
            libc::usleep(nap);
            nap = (nap + 50).min(2000);
        }
        (st, hang)
    };
    let out = slurp(fout);
    let raw = slurp(frec);
    unsafe {
        libc::close(fin);
        libc::close(fout);
        libc::close(frec);
    }
    let mut rec = [0u64; 64];
    for (i, x) in rec.iter_mut().enumerate() {
        *x = u64::from_le_bytes(raw[i * 8..i * 8 + 8].try_into().unwrap());
    }
    let code = if libc::WIFSIGNALED(status) { -libc::WTERMSIG(status) } else { libc::WEXITSTATUS(status) };
    let ran = Ran { code, out, rec, script: c.script.to_vec() };
    if code == 95 {
        panic!("the tool or its shim did not start");
    }
    log_hash(rec[6]);
    log_hash(code as u64);
    log_hash(hash_bytes(1, &ran.out));
    rep.path = hash_bytes(rep.path ^ rec[6], &(code as u64).to_le_bytes());
    rep.add("processes", 1);
    rep.add("events.read", rec[2]);
    rep.add("events.write", rec[3]);
    rep.add("events.open", rec[4]);
    for (i, f) in c.script.iter().enumerate() {
        if rec[16 + i] > 0 {
            rep.add(&format!("fault.{}", fname(f)), rec[16 + i]);
            rep.nontrivial = true;
        }
    }
    if !c.cin.is_empty() && rec[2] > 2 {
        rep.add("fault.read.short", rec[2]);
        rep.nontrivial = true;
    }
    if !c.cout.is_empty() && rec[3] > 1 {
        rep.add("fault.write.short", rec[3]);
        rep.nontrivial = true;
    }
    note(|| format!("toon-cli {:?}{}: {}", c.flags, if c.from_file { " FILE" } else { "" }, ran.brief()));
    let v = |class: &str, s: String| Violation { class: class.into(), detail: format!("toon-cli {:?}: {s}; {}", c.flags, ran.brief()) };
    if hang || code == -libc::SIGXCPU || (code == -libc::SIGKILL && !ran.killed()) {
        return Err(v("hang", "no end".into()));
    }
    if code == 96 {
        return Err(v("livelock", "no end after millions of system calls".into()));
    }
    if code < 0 && !ran.killed() && code != -libc::SIGPIPE {
        return Err(v("crash", format!("died by signal {}", -code)));
    }
    Ok(ran)
}

// ---- what should come out -----------------------------------------------------
pub fn to_json(j: &J) -> serde_json::Value {
    use serde_json::Value;
    match j {
        J::Null => Value::Null,
        J::Bool(b) => (*b).into(),
        J::Int(i) => {
            if let Ok(x) = i64::try_from(*i) {
                x.into()
            } else {
                (*i as u64).into()
            }
        }
        J::Float(f) => serde_json::Number::from_f64(*f).map_or(Value::Null, Value::Number),
        J::F32(f) => serde_json::Number::from_f64(*f as f64).map_or(Value::Null, Value::Number),
        J::Str(s) => Value::String(s.clone()),
        J::Arr(a) => Value::Array(a.iter().map(to_json).collect()),
        J::Obj(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), to_json(v))).collect()),
    }
}
fn from_json(v: &serde_json::Value) -> J {
    use serde_json::Value;
    match v {
        Value::Null => J::Null,
        Value::Bool(b) => J::Bool(*b),
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                J::Int(i as i128)
            } else if let Some(u) = n.as_u64() {
                J::Int(u as i128)
            } else {
                J::Float(n.as_f64().unwrap_or(f64::NAN))
            }
        }
        Value::String(s) => J::Str(s.clone()),
        Value::Array(a) => J::Arr(a.iter().map(from_json).collect()),
        Value::Object(m) => J::Obj(m.iter().map(|(k, v)| (k.clone(), from_json(v))).collect()),
    }
}
fn has_float(j: &J) -> bool {
    match j {
        J::Float(_) | J::F32(_) => true,
        J::Arr(a) => a.iter().any(has_float),
        J::Obj(m) => m.iter().any(|(_, v)| has_float(v)),
        _ => false,
    }
}
fn text(j: &J, pretty: bool) -> Vec<u8> {
    let v = to_json(j);
    if pretty { serde_json::to_vec_pretty(&v) } else { serde_json::to_vec(&v) }.unwrap()
}

enum Want {
    /// the input is no document
    Refuse,
    Bytes(Vec<u8>),
    /// accepted, the exact text is not predicted
    Any,
}

fn opts(delim: u8) -> Opts {
    Opts { delim, ..Opts::default() }
}

fn encoded(j: &J, delim: u8) -> Result<Want, Violation> {
    match document(DEF, &opts(delim), &model::relay_value(j))? {
        Res::Ok(Out::Text(t)) => Ok(Want::Bytes((t + "\n").into_bytes())),
        r => Err(Violation { class: "encode".into(), detail: format!("the library refuses a JSON value: {}", brief_res(&r)) }),
    }
}

fn decoded(doc: &[u8], delim: u8, pretty: bool) -> Result<Want, Violation> {
    if std::str::from_utf8(doc).is_err() {
        return Ok(Want::Refuse);
    }
    let req = Req::Dec { target: Target::Json, opts: opts(delim), doc: Some(doc.to_vec()), shape: V::Unit };
    Ok(match alone(&simple(901, DEF, req))?.res {
        Res::Ok(Out::Val(j)) => {
            let mut b = text(&j, pretty);
            b.push(b'\n');
            Want::Bytes(b)
        }
        _ => Want::Refuse,
    })
}

fn flags(run: &CliRun, decode: bool, delim: u8) -> Vec<&'static str> {
    let mut f = Vec::new();
    if decode {
        f.push("--decode");
    }
    match delim {
        1 => f.extend(["--delimiter", "tab"]),
        2 => f.extend(["--delimiter", "pipe"]),
        _ => {}
    }
    if run.strict_flag {
        f.push("--strict");
    }
    if run.pretty {
        f.push("--pretty");
    }
    f
}

fn clip(b: &[u8]) -> String {
    let s: String = String::from_utf8_lossy(b).chars().take(200).collect();
    format!("{s:?}")
}

pub fn execute(_p: &str, runs: &[CliRun], rep: &mut Report) -> Result<(), Violation> {
    for (i, run) in runs.iter().enumerate() {
        page().set(PG_OP, 1 + i as u64);
        if run.pipeline {
            pipeline(run, rep)?;
        } else {
            single(run, rep)?;
        }
    }
    Ok(())
}

fn single(run: &CliRun, rep: &mut Report) -> Result<(), Violation> {
    // the input
    let make = |v: &V| -> Result<Vec<u8>, Violation> {
        let j = model::denote(v);
        if run.decode {
            match encoded(&j, run.delim2)? {
                Want::Bytes(mut b) => {
                    if !run.pretty {
                        b.pop();
                    }
                    Ok(b)
                }
                _ => unreachable!(),
            }
        } else {
            Ok(text(&j, run.pretty))
        }
    };
    let input = match &run.input {
        CliInput::Value(v) => Some(make(v)?),
        CliInput::Damaged(v, d) => Some(gen::apply(&make(v)?, d, 1 << 20)),
        CliInput::Raw(b) => Some(b.clone()),
        CliInput::Missing => None,
    };
    let want = match (&input, run.decode) {
        (None, _) => Want::Refuse,
        (Some(b), true) => decoded(b, run.delim, run.pretty)?,
        (Some(b), false) => match serde_json::from_slice::<serde_json::Value>(b) {
            Err(_) => Want::Refuse,
            Ok(v) => {
                let j = from_json(&v);
                if has_float(&j) && !matches!(run.input, CliInput::Value(_)) {
                    Want::Any
                } else {
                    encoded(&j, run.delim)?
                }
            }
        },
    };
    if matches!(want, Want::Refuse) {
        rep.add("fault.input.invalid", 1);
        rep.nontrivial = true;
    }
    let ran = spawn(
        &Call {
            flags: flags(run, run.decode, run.delim),
            input: input.as_deref(),
            from_file: run.from_file,
            script: &run.script,
            cin: &run.chunks_in,
            cout: &run.chunks_out,
        },
        rep,
    )?;
    let bad = |class: &str, s: &str| {
        let w = match &want {
            Want::Bytes(b) => clip(b),
            Want::Refuse => "refusal".into(),
            Want::Any => "success".into(),
        };
        Err(Violation {
            class: class.into(),
            detail: format!(
                "{s}: toon-cli {:?}{} with input {} printed {} where {w} was due; {}",
                flags(run, run.decode, run.delim),
                if run.from_file { " FILE" } else { "" },
                clip(input.as_deref().unwrap_or(b"(missing file)")),
                clip(&ran.out),
                ran.brief()
            ),
        })
    };
    if ran.code == 0 {
        match &want {
            Want::Refuse => return bad("false-success", "success on invalid input"),
            Want::Bytes(b) if *b != ran.out => {
                let class = if b.starts_with(&ran.out) { "lost-output" } else { "wrong-output" };
                return bad(class, "success without the complete result");
            }
            _ => {}
        }
        if ran.fired(|f| f.on == 0 && f.errno != 4) && ran.rec[5] == 0 && ran.rec[7] > 0 {
            return bad("unread-input", "success although reading failed and the end of the input was never seen");
        }
        if let CliInput::Value(v) = &run.input {
            // the meaning, by the model
            let orig = model::denote(v);
            let got = if run.decode {
                crate::from_json_bytes::<serde_json::Value>(&ran.out).ok().map(|v| from_json(&v))
            } else {
                let req =
                    Req::Dec { target: Target::Json, opts: opts(run.delim), doc: Some(ran.out.clone()), shape: V::Unit };
                match alone(&simple(902, DEF, req))?.res {
                    Res::Ok(Out::Val(j)) => Some(j),
                    _ => None,
                }
            };
            if !got.is_some_and(|g| model::same(&orig, &g)) {
                return bad("wrong-output", "the result does not mean what the input means");
            }
        }
        rep.add("succeeded", 1);
    } else {
        rep.add("failed", 1);
        if !matches!(want, Want::Refuse) && !ran.hard() {
            return bad("false-failure", "failure on valid input without a failing call");
        }
        match &want {
            Want::Refuse if !ran.out.is_empty() => return bad("wrong-output", "output although the input was refused"),
            Want::Bytes(b) if !b.starts_with(&ran.out) => return bad("wrong-output", "what was written is no prefix of the result"),
            _ => {}
        }
    }
    Ok(())
}

fn pipeline(run: &CliRun, rep: &mut Report) -> Result<(), Violation> {
    let CliInput::Value(v) = &run.input else { return Ok(()) };
    let orig = model::denote(v);
    let json = text(&orig, run.pretty);
    let enc = spawn(
        &Call {
            flags: flags(run, false, run.delim),
            input: Some(&json),
            from_file: run.from_file,
            script: &run.script,
            cin: &run.chunks_in,
            cout: &run.chunks_out,
        },
        rep,
    )?;
    // the pipe: the decoder gets what the encoder got rid of, in other pieces
    let dec = spawn(
        &Call {
            flags: flags(run, true, run.delim2),
            input: Some(&enc.out),
            from_file: false,
            script: &run.script2,
            cin: &run.chunks_out,
            cout: &run.chunks_in,
        },
        rep,
    )?;
    let bad = |class: &str, s: &str| {
        Err(Violation {
            class: class.into(),
            detail: format!(
                "{s}: JSON {} -> {} -> {}; encoder {:?} {}; decoder {:?} {}",
                clip(&json),
                clip(&enc.out),
                clip(&dec.out),
                flags(run, false, run.delim),
                enc.brief(),
                flags(run, true, run.delim2),
                dec.brief()
            ),
        })
    };
    if enc.code != 0 && !enc.hard() {
        return bad("false-failure", "the encoder failed on valid JSON without a failing call");
    }
    if dec.code != 0 {
        if enc.code == 0 && !dec.hard() {
            return bad("false-failure", "the decoder refused what the encoder reported complete");
        }
        rep.add(if enc.code == 0 { "decoder_failed" } else { "both_failed" }, 1);
        return Ok(());
    }
    let Ok(got) = crate::from_json_bytes::<serde_json::Value>(&dec.out) else {
        return bad("broken-json", "the decoder reported success but its output is no JSON document");
    };
    let got = from_json(&got);
    if enc.code == 0 {
        rep.add("delivered", 1);
        if !model::same(&orig, &got) {
            return bad("pipeline-differs", "both tools reported success but the data is not the original");
        }
    } else {
        rep.add("encoder_cut_off", 1);
        let first_line = !enc.out.contains(&b'\n');
        if !model::cut_ok(&orig, &got, first_line) {
            return bad("cut-accepted", "the encoder was cut off and the decoder reported a complete document with other data");
        }
    }
    Ok(())
}
