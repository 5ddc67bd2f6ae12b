mod eval;
mod par;
mod syntax;
use serde_json::{json, Value};
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Serve JSON-lines jobs: one result line per job line. A panic in the code
/// under test is data, not a crash of the harness.
fn serve(f: fn(&Value) -> Value) {
    let stdin = io::stdin();
    // Keep the protocol away from anything the code under test prints.
    let out_fd = unsafe { libc::dup(1) };
    unsafe {
        let fd1 = libc::memfd_create(c"fd1".as_ptr(), 0);
        libc::dup2(fd1, 1);
    }
    // What the code under test writes to its standard error, per job.
    let fd2 = unsafe { libc::memfd_create(c"fd2".as_ptr(), 0) };
    if fd2 >= 0 {
        unsafe { libc::dup2(fd2, 2) };
    }
    let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(out_fd) };
    std::panic::set_hook(Box::new(|_| {}));
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let job: Value = serde_json::from_str(&line).expect("bad job");
        unsafe {
            for fd in [1, 2] {
                libc::ftruncate(fd, 0);
                libc::lseek(fd, 0, libc::SEEK_SET);
            }
        }
        par::begin(&job);
        let r = catch_unwind(AssertUnwindSafe(|| f(&job)));
        let mut v = match r {
            Ok(v) => v,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({"panic": m})
            }
        };
        par::end(&job, &mut v);
        if job.get("fd2").is_some() {
            if let Some(o) = v.as_object_mut() {
                o.insert("fd2".into(), read_fd(2).into());
                o.insert("fd1".into(), read_fd(1).into());
            }
        }
        if let (Some(o), Some(id)) = (v.as_object_mut(), job.get("id")) {
            o.insert("id".into(), id.clone());
        }
        writeln!(out, "{v}").unwrap();
        out.flush().unwrap();
    }
}

fn read_fd(fd: i32) -> String {
    unsafe {
        let n = libc::lseek(fd, 0, libc::SEEK_END).max(0) as usize;
        let mut b = vec![0u8; n];
        let m = libc::pread(fd, b.as_mut_ptr() as *mut _, n, 0).max(0) as usize;
        b.truncate(m);
        String::from_utf8_lossy(&b).to_string()
    }
}

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || match cmd.as_str() {
            "eval" => serve(eval::run_job),
            _ => {
                eprintln!("usage: euverif eval");
                std::process::exit(2)
            }
        })
        .unwrap();
    h.join().unwrap();
}
