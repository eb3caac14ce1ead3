//! Isolation: every execution happens in a freshly forked child.
use crate::checks::Ran;
use crate::exec::{Exec, Mode, Out};
use crate::plan::Plan;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

pub const HANG_S: u64 = 60;

pub fn pipe() -> (std::fs::File, std::fs::File) {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            die("pipe failed");
        }
        (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1]))
    }
}

pub fn die(msg: &str) -> ! {
    eprintln!("harness error: {}", msg);
    println!("HARNESS-ERROR {}", msg);
    std::process::exit(2)
}

/// Must be called from a process without other threads.
pub fn isolated(plan: &Plan, mode: &Mode) -> Ran {
    let memory = crate::seam::FAILED_PAGE.load(SeqCst);
    let memory = if memory.is_null() {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0,
            )
        };
        if p == libc::MAP_FAILED {
            die("mmap failed");
        }
        crate::seam::FAILED_PAGE.store(p as *mut u64, SeqCst);
        p as *mut u64
    } else {
        memory
    };
    unsafe { memory.write_volatile(0) };
    let (mut rd, wr) = pipe();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        die("fork failed");
    }
    if pid == 0 {
        drop(rd);
        child(plan, mode, wr);
    }
    drop(wr);
    let mut buf = Vec::new();
    let start = Instant::now();
    let mut hung = false;
    // Billions of inserts may take long without being stuck: cut those short.
    let vast = plan.flavor == "huge" || plan.flavor == "soak";
    let limit = if vast { 3 * HANG_S } else { HANG_S };
    unsafe {
        use std::os::fd::AsRawFd;
        let fd = rd.as_raw_fd();
        loop {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let left = Duration::from_secs(limit).saturating_sub(start.elapsed());
            if left.is_zero() {
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if libc::poll(&mut p, 1, left.as_millis() as i32) > 0 {
                let mut b = [0u8; 65536];
                match rd.read(&mut b) {
                    Ok(0) => break,
                    Ok(n) => buf.extend_from_slice(&b[..n]),
                    Err(_) => break,
                }
            }
        }
    }
    let mut st = 0i32;
    unsafe {
        libc::waitpid(pid, &mut st, 0);
    }
    if hung && vast {
        let mut o = Out::default();
        o.counters.insert("cut_short".into(), 1);
        return Ran::Done(Box::new(o));
    }
    if hung {
        return Ran::Died("hang".into(), format!("the execution did not end within {} s", limit));
    }
    // Without memory a process may end; it may not go on wrongly.
    if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGABRT && unsafe { memory.read_volatile() } == 1 {
        let mut o = Out::default();
        o.counters.insert("fault_alloc".into(), 1);
        o.counters.insert("ended_for_memory".into(), 1);
        return Ran::Done(Box::new(o));
    }
    if libc::WIFSIGNALED(st) {
        return Ran::Died("crash".into(), format!("the process died of signal {}", libc::WTERMSIG(st)));
    }
    match buf.first() {
        Some(b'O') => match bincode::deserialize::<Out>(&buf[1..]) {
            Ok(o) => Ran::Done(Box::new(o)),
            Err(e) => die(&format!("result of an execution: {}", e)),
        },
        Some(b'P') => Ran::Died("panic".into(), String::from_utf8_lossy(&buf[1..]).replace("harness: ", "a comparison panicked: ")),
        Some(b'H') => die(&String::from_utf8_lossy(&buf[1..])),
        None if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == crate::sched::DEADLOCK => {
            Ran::Died("deadlock".into(), "every thread waits for a lock that another one holds".into())
        }
        _ => Ran::Died("crash".into(), format!("the process exited with status {}", libc::WEXITSTATUS(st))),
    }
}

fn child(plan: &Plan, mode: &Mode, mut wr: std::fs::File) -> ! {
    unsafe {
        let most = (4 << 30) + crate::seam::ARENA_SIZE as u64;
        let lim = libc::rlimit { rlim_cur: most, rlim_max: most };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
        // What an aborting process has to say about it is not for our stderr.
        let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(nul, 2);
    }
    let r = std::panic::catch_unwind(|| Exec::run(plan, mode));
    let bytes = match r {
        Ok(o) => {
            let mut b = vec![b'O'];
            b.extend(bincode::serialize(&o).unwrap());
            b
        }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().unwrap_or_else(|| "panic in the harness".into());
            // A panic of the library where the oracles use it is none of ours.
            let ours = !crate::exec::FROM_LIBRARY.load(SeqCst);
            let mut b = vec![if ours { b'H' } else { b'P' }];
            b.extend(m.as_bytes());
            b
        }
    };
    let _ = wr.write_all(&bytes);
    drop(wr);
    unsafe { libc::_exit(0) }
}
