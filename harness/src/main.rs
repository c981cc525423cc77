//! Executes programs on the real collectors and records what happens.
//!
//! usage: gcharness run PROGRAMS OUT JOBS
mod arena;
mod exec;
mod heap;
mod log;
mod sched;

use std::io::Write;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicI32, AtomicU64, AtomicUsize, Ordering::SeqCst};

#[global_allocator]
static ARENA: arena::Arena = arena::Arena;

static OUT_FD: AtomicI32 = AtomicI32::new(-1);
static HEADER: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static HASH: AtomicU64 = AtomicU64::new(0);

pub fn set_hash_seed(s: u64) {
    HASH.store(s.wrapping_mul(0x9E37_79B9_7F4A_7C15), SeqCst);
}

/// Replaces the C library's source of randomness: hash tables become reproducible.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let mut x = HASH.fetch_add(0x1234_5678_9ABC_DEF1, SeqCst);
        x ^= x >> 29;
        x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x ^= x >> 32;
        *buf.add(i) = x as u8;
    }
    len as isize
}

fn emit(header: &str, events: &str) {
    let (pts, sw, foreign) = sched::stats();
    let line = format!("{header}\"pts\":{pts},\"sw\":{sw},\"foreign\":{},\"ev\":[{events}]}}\n", foreign as u8);
    write_all(line.as_bytes());
}

fn write_all(mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(OUT_FD.load(SeqCst), b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}

/// Write the trace so far and end the process.
pub fn finish_process(code: i32) -> ! {
    let ev = log::take_nowait();
    let h = HEADER.lock().map(|h| h.clone()).unwrap_or_default();
    emit(&h, &ev);
    unsafe { libc::_exit(code) }
}

extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        let addr = (*info).si_addr() as usize;
        let (o, _) = arena::lookup(addr);
        if sig != libc::SIGABRT && o != 0 {
            ev!("[\"uaf\",{},{}]", sched::tid(), o);
        } else {
            ev!("[\"crash\",{},{}]", sched::tid(), sig);
        }
        finish_process(77);
    }
}

fn handlers() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGTRAP, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

fn set_header(p: &exec::Program) {
    let fl: Vec<String> = p.flags.iter().map(|(a, b)| format!("{a}={b}")).collect();
    *HEADER.lock().unwrap() = format!(
        "{{\"id\":\"{}\",\"thr\":{},\"fl\":\"{}\",",
        p.id,
        p.threads.len(),
        fl.join(",")
    );
}

fn run_one(p: &exec::Program) {
    set_header(p);
    exec::run(p);
    let ev = log::take();
    let h = HEADER.lock().unwrap().clone();
    emit(&h, &ev);
}

/// Wait for a child with a deadline; returns false if it had to be killed.
fn wait_child(pid: i32, cur: &AtomicUsize, secs: u64) -> (i32, bool) {
    let mut last = (cur.load(SeqCst), std::time::Instant::now());
    let mut status = 0;
    let mut nap = 20;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid {
            return (status, true);
        }
        let c = cur.load(SeqCst);
        if c != last.0 {
            last = (c, std::time::Instant::now());
        }
        if last.1.elapsed().as_secs() >= secs {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
            }
            return (status, false);
        }
        std::thread::sleep(std::time::Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(2000);
    }
}

fn worker(progs: &[exec::Program], out: &str) {
    let file = std::fs::File::create(out).expect("out");
    OUT_FD.store(file.as_raw_fd(), SeqCst);
    let cur: &AtomicUsize = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        &*(p as *const AtomicUsize)
    };
    let mut i = 0;
    let mut hangs = 0;
    while i < progs.len() {
        // programs without process-wide effects share a process
        let mut j = i + 1;
        if !progs[i].isolated() {
            while j < progs.len() && !progs[j].isolated() && j - i < 500 {
                j += 1;
            }
        }
        cur.store(i, SeqCst);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            handlers();
            for k in i..j {
                cur.store(k, SeqCst);
                arena::reset();
                run_one(&progs[k]);
            }
            unsafe { libc::_exit(0) };
        }
        let before = file.metadata().map(|m| m.len()).unwrap_or(0);
        let _ = before;
        let (status, ended) = wait_child(pid, cur, if hangs < 3 { 12 } else { 3 });
        hangs += !ended as u32;
        let clean = ended && libc::WIFEXITED(status);
        let code = libc::WEXITSTATUS(status);
        if clean && code == 0 {
            i = j;
        } else {
            let k = cur.load(SeqCst);
            if !clean {
                // killed or died without writing its trace
                set_header(&progs[k]);
                let h = HEADER.lock().unwrap().clone();
                let what = if ended { "[\"crash\",0,0]" } else { "[\"hang\",0]" };
                emit(&h, what);
            }
            i = k + 1;
            if hangs > 4 {
                break; // enough to report
            }
        }
    }
    let _ = (&file).flush();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 || a[1] != "run" {
        eprintln!("usage: gcharness run PROGRAMS OUT JOBS");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| ()));
    arena::init();
    dumpster::verif::set_hook(sched::hook);
    let text = std::fs::read_to_string(&a[2]).expect("programs");
    let progs: Vec<exec::Program> = text.lines().filter_map(exec::Program::parse).collect();
    let jobs: usize = a[4].parse().unwrap_or(1);
    let mut shards: Vec<Vec<exec::Program>> = (0..jobs).map(|_| Vec::new()).collect();
    for (i, p) in progs.into_iter().enumerate() {
        shards[i % jobs].push(p);
    }
    let mut pids = Vec::new();
    for (j, sh) in shards.iter().enumerate() {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            worker(sh, &format!("{}.{}", a[3], j));
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut bad = false;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        bad |= st != 0;
    }
    std::process::exit(if bad { 2 } else { 0 });
}
