//! `euverif eval`: a JSON-lines server over the real driver path
//! (prepare -> Executor), one program per line.
use eucalypt::driver::eval::Executor;
use eucalypt::driver::options::{ErrorFormat, EucalyptOptions};
use eucalypt::driver::prepare::{self, Command};
use eucalypt::driver::source::SourceLoader;
use eucalypt::driver::statistics::{Statistics, Timings};
use eucalypt::eval::error::ExecutionError;
use eucalypt::syntax::input::{Input, Locator};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{self, Write};
use std::path::PathBuf;
use std::rc::Rc;
use std::str::FromStr;

#[derive(Clone, Default)]
pub struct SharedBuf(pub Rc<RefCell<Vec<u8>>>);
impl Write for SharedBuf {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A writer that accepts `limit` bytes in total and then fails with `kind`.
pub struct FaultyBuf {
    pub got: Rc<RefCell<Vec<u8>>>,
    pub limit: usize,
    pub kind: io::ErrorKind,
    /// the most one call accepts
    pub chunk: usize,
    /// whether every other call is interrupted
    pub interrupts: bool,
    pub calls: usize,
}
impl Write for FaultyBuf {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts && self.calls % 2 == 1 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut g = self.got.borrow_mut();
        let room = self.limit.saturating_sub(g.len());
        if room == 0 && !buf.is_empty() {
            if self.kind == io::ErrorKind::WriteZero {
                return Ok(0);
            }
            return Err(io::Error::new(self.kind, "injected"));
        }
        let n = room.min(buf.len()).min(self.chunk);
        g.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The writing end of a pipe nobody reads.
fn closed_pipe() -> std::fs::File {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        libc::close(fds[0]);
        <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1])
    }
}

pub fn peel(e: &ExecutionError) -> &ExecutionError {
    match e {
        ExecutionError::Traced(inner, _) => peel(inner),
        e => e,
    }
}

pub fn variant(e: &ExecutionError) -> String {
    let d = format!("{:?}", peel(e));
    d.split(|c: char| !c.is_alphanumeric())
        .next()
        .unwrap_or("")
        .to_string()
}

fn s(v: &Value, k: &str) -> Option<String> {
    v.get(k).and_then(|x| x.as_str()).map(|x| x.to_string())
}
fn b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}

/// Options mirroring what `EucalyptOptions::process_defaults` sets up, with the
/// yaml `build-meta` resource (unreadable in this build) replaced by an empty
/// toml unit under the same name.
pub fn options(job: &Value) -> EucalyptOptions {
    let mut o = EucalyptOptions {
        no_dce: b(job, "no_dce"),
        allow_io: b(job, "allow_io"),
        target: s(job, "target"),
        collect_as: s(job, "collect_as"),
        name_inputs: b(job, "name_inputs"),
        export_type: Some(s(job, "format").unwrap_or_else(|| "json".into())),
        ..Default::default()
    };
    if job.get("noformat").is_some() {
        o.export_type = None;
    }
    match s(job, "dump").as_deref() {
        Some("inlined") => o.dump_inlined = true,
        Some("pruned") => o.dump_pruned = true,
        Some("demands") => o.dump_demands = true,
        Some("cooked") => o.dump_cooked = true,
        Some("stg") => o.dump_stg = true,
        _ => {}
    }
    o.seed = job.get("seed").and_then(|x| x.as_i64());
    if let Some(a) = job.get("args").and_then(|x| x.as_array()) {
        o.args = a.iter().map(|x| x.as_str().unwrap().to_string()).collect();
    }
    if b(job, "json_errors") {
        o.error_format = ErrorFormat::Json;
    }
    o.stg_settings.generate_annotations = true;
    o.stg_settings.suppress_demand_analysis = b(job, "no_demand");
    o.stg_settings.suppress_optimiser = b(job, "no_opt");
    o.stg_settings.suppress_inlining = b(job, "no_inl");
    o.stg_settings.suppress_updates = b(job, "no_upd");
    o.stg_settings.heap_limit_mib = job
        .get("heap_mib")
        .and_then(|x| x.as_u64())
        .map(|x| x as usize);
    if let Some(l) = job.get("lib_path").and_then(|x| x.as_array()) {
        o.lib_path = l.iter().map(|x| PathBuf::from(x.as_str().unwrap())).collect();
    }
    // defaults, in the order of process_defaults (each is prepended)
    let mut pro = vec![
        Input::new(Locator::Pseudo("args".into()), Some("__args".into()), "core"),
        Input::new(Locator::Pseudo("io".into()), Some("__io".into()), "core"),
        Input::new(
            Locator::Literal("[none]\n".into()),
            Some("__build".into()),
            "toml",
        ),
    ];
    if b(job, "prelude") {
        pro.push(Input::new(
            Locator::Resource("prelude".into()),
            None,
            "eu",
        ));
    }
    o.prologue_inputs = pro;
    if let Some(src) = s(job, "src") {
        o.explicit_inputs
            .push(Input::new(Locator::Literal(src), None, "eu"));
    }
    if let Some(ins) = job.get("inputs").and_then(|x| x.as_array()) {
        for i in ins {
            let i = i.as_str().unwrap();
            o.explicit_inputs
                .push(Input::from_str(i).unwrap_or_else(|_| Input::from(Locator::Fs(i.into()))));
        }
    }
    if let Some(e) = s(job, "evaluate") {
        o.evaluate = Some(e.clone());
        o.epilogue_inputs.push(Input::from(Locator::Cli(e)));
    }
    o
}

fn read_stat(stats: &Statistics) -> Value {
    json!({"ticks": stats.ticks(), "collections": stats.collections_count()})
}

pub fn run_job(job: &Value) -> Value {
    if job.get("syntax").is_some() {
        return crate::syntax::run(job);
    }
    let o = options(job);
    let mut loader = SourceLoader::new(o.lib_path.clone())
        .with_args(o.args.clone())
        .with_seed(o.seed);
    let mut timings = Timings::default();
    match prepare::prepare(&o, &mut loader, &mut timings) {
        Ok(Command::Continue) => {}
        Ok(Command::Exit) => return json!({"stage": "prepare", "exit": true}),
        Err(e) => {
            let d = e.to_diagnostic(loader.source_map());
            let dbg = format!("{:?}", e);
            return json!({"stage": "prepare", "err": dbg.chars().take(400).collect::<String>(),
                          "msg": d.message});
        }
    }
    let fmt = if let Some(f) = &o.export_type {
        f.clone()
    } else {
        let tf = o
            .target()
            .and_then(|n| loader.core().target(n))
            .and_then(|t| t.format().clone());
        tf.unwrap_or_else(|| "json".into())
    };
    let out = SharedBuf::default();
    let err = SharedBuf::default();
    let mut stats = Statistics::default();
    let res = {
        let blame = loader.blame_table();
        let _ = blame;
        let mut ex = Executor::from(loader);
        if let Some(f) = job.get("fault") {
            let kind = match s(f, "kind").as_deref() {
                Some("pipe") => io::ErrorKind::BrokenPipe,
                Some("zero") => io::ErrorKind::WriteZero,
                Some("denied") => io::ErrorKind::PermissionDenied,
                Some("memory") => io::ErrorKind::OutOfMemory,
                Some("reset") => io::ErrorKind::ConnectionReset,
                _ => io::ErrorKind::StorageFull,
            };
            // a device of the system that fails by itself, or a writer that fails as told
            let sink: Box<dyn Write> = match s(f, "device").as_deref() {
                Some("full") => Box::new(
                    std::fs::OpenOptions::new()
                        .write(true)
                        .open("/dev/full")
                        .expect("/dev/full"),
                ),
                Some("pipe") => Box::new(closed_pipe()),
                _ => Box::new(FaultyBuf {
                    got: out.0.clone(),
                    limit: f["limit"].as_u64().unwrap() as usize,
                    kind,
                    chunk: f["chunk"].as_u64().unwrap_or(1 << 30) as usize,
                    interrupts: b(f, "interrupts"),
                    calls: 0,
                }),
            };
            ex.capture_output(sink, Box::new(err.clone()));
        } else {
            ex.capture_output(Box::new(out.clone()), Box::new(err.clone()));
        }
        ex.execute(&o, &mut stats, fmt)
    };
    let outs = String::from_utf8_lossy(&out.0.borrow()).to_string();
    let errs = String::from_utf8_lossy(&err.0.borrow()).to_string();
    match res {
        Ok(code) => json!({"stage": "run", "ok": true, "code": code, "out": outs, "stderr": errs,
                           "stats": read_stat(&stats)}),
        Err(e) => {
            let p = peel(&e);
            let dbg: String = format!("{:?}", p).chars().take(4000).collect();
            json!({"stage": "run", "err": variant(&e), "dbg": dbg, "msg": format!("{p}"),
                   "out": outs, "stderr": errs, "stats": read_stat(&stats)})
        }
    }
}
