//! A process that forks under a schedule: each fork of a job can fail, or give
//! a child that dies at once, is slow, is cut off, or dies as it leaves; waits
//! can be interrupted. What the parent did is logged.
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static CHILD: AtomicBool = AtomicBool::new(false);
static FORKS: AtomicUsize = AtomicUsize::new(0);
static EINTR: AtomicUsize = AtomicUsize::new(0);
static LATE: AtomicI32 = AtomicI32::new(0);
static PLAN: Mutex<Vec<String>> = Mutex::new(Vec::new());
static PIDS: Mutex<Vec<libc::pid_t>> = Mutex::new(Vec::new());

unsafe fn next(name: &std::ffi::CStr) -> *mut libc::c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    assert!(!p.is_null());
    p
}

fn number(s: &str) -> i64 {
    s.split(':').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0)
}

unsafe fn die() -> ! {
    libc::syscall(libc::SYS_kill, libc::syscall(libc::SYS_getpid), libc::SIGKILL);
    loop {
        libc::pause();
    }
}

#[no_mangle]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    let real: extern "C" fn() -> libc::pid_t = std::mem::transmute(next(c"fork"));
    if !ACTIVE.load(SeqCst) || CHILD.load(SeqCst) {
        return real();
    }
    let k = FORKS.fetch_add(1, SeqCst);
    let what = PLAN.lock().unwrap().get(k).cloned().unwrap_or_default();
    if what == "forkfail" {
        *libc::__errno_location() = libc::EAGAIN;
        return -1;
    }
    let pid = real();
    if pid == 0 {
        CHILD.store(true, SeqCst);
        match what.split(':').next().unwrap_or("") {
            "early0" => {
                libc::syscall(libc::SYS_exit_group, 0);
            }
            "early9" => die(),
            "slow" => {
                libc::usleep(number(&what) as u32);
            }
            "alarm" => {
                let t = libc::itimerval {
                    it_interval: std::mem::zeroed(),
                    it_value: libc::timeval { tv_sec: 0, tv_usec: number(&what).max(1) },
                };
                libc::signal(libc::SIGALRM, libc::SIG_DFL);
                libc::syscall(libc::SYS_setitimer, libc::ITIMER_REAL, &t, 0);
            }
            "late9" => LATE.store(9, SeqCst),
            "late1" => LATE.store(1, SeqCst),
            _ => {}
        }
    } else if pid > 0 {
        PIDS.lock().unwrap().push(pid);
    }
    pid
}

#[no_mangle]
pub unsafe extern "C" fn _exit(code: libc::c_int) -> ! {
    match LATE.load(SeqCst) {
        9 => die(),
        1 => {
            libc::syscall(libc::SYS_exit_group, 1);
        }
        _ => {
            libc::syscall(libc::SYS_exit_group, code);
        }
    }
    loop {
        libc::pause();
    }
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(
    pid: libc::pid_t,
    status: *mut libc::c_int,
    options: libc::c_int,
) -> libc::pid_t {
    if ACTIVE.load(SeqCst)
        && !CHILD.load(SeqCst)
        && EINTR.fetch_update(SeqCst, SeqCst, |n| n.checked_sub(1)).is_ok()
    {
        *libc::__errno_location() = libc::EINTR;
        return -1;
    }
    let real: extern "C" fn(libc::pid_t, *mut libc::c_int, libc::c_int) -> libc::pid_t =
        std::mem::transmute(next(c"waitpid"));
    real(pid, status, options)
}

/// Set the schedule and the environment of a job.
pub fn begin(job: &Value) {
    let Some(par) = job.get("par") else { return };
    let texts = |k: &str| -> Vec<String> {
        par.get(k)
            .and_then(|x| x.as_array())
            .map(|a| a.iter().filter_map(|s| s.as_str()).map(String::from).collect())
            .unwrap_or_default()
    };
    *PLAN.lock().unwrap() = texts("faults");
    PIDS.lock().unwrap().clear();
    FORKS.store(0, SeqCst);
    EINTR.store(par.get("eintr").and_then(|x| x.as_u64()).unwrap_or(0) as usize, SeqCst);
    for k in ["EU_PP_WORKERS", "EU_PP_THRESHOLD", "EU_PP_STRICT", "EU_PP_TRACE"] {
        std::env::remove_var(k);
    }
    for e in texts("env") {
        if let Some((k, v)) = e.split_once('=') {
            std::env::set_var(k, v);
        }
    }
    std::env::set_var("EU_PP_ASSUME_SINGLE_THREADED", "1");
    ACTIVE.store(true, SeqCst);
}

/// What the schedule came to: how many forks, and how many children are left.
pub fn end(job: &Value, out: &mut Value) {
    if job.get("par").is_none() {
        return;
    }
    ACTIVE.store(false, SeqCst);
    std::env::remove_var("EU_PP_ASSUME_SINGLE_THREADED");
    let mut left = 0;
    for pid in PIDS.lock().unwrap().iter() {
        if unsafe { libc::kill(*pid, 0) } == 0 {
            left += 1;
            unsafe {
                libc::kill(*pid, libc::SIGKILL);
                let mut s = 0;
                libc::waitpid(*pid, &mut s, 0);
            }
        }
    }
    if let Some(o) = out.as_object_mut() {
        o.insert("par".into(), json!({"forks": FORKS.load(SeqCst), "left": left}));
    }
}
