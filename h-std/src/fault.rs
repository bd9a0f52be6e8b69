//! Runs an operation in a forked child, with a fault at a chosen system call.
//!
//! A single-threaded helper process forks a child per request and traces it:
//! the child can be killed before or after any system call it makes on files,
//! a call can be made to fail with an error, and a write can be cut short.
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Fault {
    None,
    /// Killed at the n-th call on files, before or after it is done.
    Kill { at: u32, after: bool },
    /// The n-th call fails.
    Fail { at: u32, errno: i32 },
    /// The n-th call, if it writes, writes at most so many bytes.
    Short { at: u32, len: u32 },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Outcome {
    /// The calls made on files, with what they returned.
    pub calls: Vec<(i64, i64)>,
    pub killed: bool,
    /// What the operation said, if it came back.
    pub said: Option<serde_json::Value>,
    /// The child ended in another way.
    pub crashed: Option<String>,
}

/// Marks the end of the operation for the tracer.
const END: i64 = 9999;

pub const READS: &[i64] = &[
    libc::SYS_stat, libc::SYS_lstat, libc::SYS_fstat, libc::SYS_newfstatat, libc::SYS_statx, libc::SYS_access, libc::SYS_faccessat, libc::SYS_faccessat2,
    libc::SYS_readlink, libc::SYS_readlinkat, libc::SYS_statfs, libc::SYS_fstatfs,
];
pub const FILES: &[i64] = &[
    libc::SYS_open, libc::SYS_openat, libc::SYS_openat2, libc::SYS_creat, libc::SYS_read, libc::SYS_pread64, libc::SYS_write, libc::SYS_pwrite64, libc::SYS_writev, libc::SYS_close,
    libc::SYS_rename, libc::SYS_renameat, libc::SYS_renameat2, libc::SYS_link, libc::SYS_linkat, libc::SYS_symlink, libc::SYS_symlinkat, libc::SYS_unlink, libc::SYS_unlinkat,
    libc::SYS_mkdir, libc::SYS_mkdirat, libc::SYS_rmdir, libc::SYS_chmod, libc::SYS_fchmod, libc::SYS_fchmodat, libc::SYS_truncate, libc::SYS_ftruncate, libc::SYS_fsync, libc::SYS_fdatasync,
    libc::SYS_lseek, libc::SYS_copy_file_range, libc::SYS_sendfile, libc::SYS_splice, libc::SYS_getdents64, libc::SYS_flock, libc::SYS_utimensat, libc::SYS_fallocate, libc::SYS_fchown, libc::SYS_ioctl,
];
pub const UNLINKS: &[i64] = &[libc::SYS_unlink, libc::SYS_unlinkat, libc::SYS_rmdir];

fn counted(nr: i64) -> bool {
    READS.contains(&nr) || FILES.contains(&nr)
}

unsafe fn trace(pid: i32, fault: Fault) -> (Vec<(i64, i64)>, bool, Option<String>) {
    let mut st = 0;
    let mut calls: Vec<(i64, i64)> = vec![];
    let gone = |st: i32| {
        if libc::WIFSIGNALED(st) {
            Some(format!("ended by signal {}", libc::WTERMSIG(st)))
        } else if libc::WIFEXITED(st) {
            Some(format!("exited with {}", libc::WEXITSTATUS(st)))
        } else {
            None
        }
    };
    libc::waitpid(pid, &mut st, 0);
    if let Some(g) = gone(st) {
        return (calls, false, Some(g));
    }
    libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL);
    let mut sig = 0;
    // Whether the next stop is the end of a call, and what to do with it.
    let mut inside = false;
    let mut change: Option<i64> = None;
    let kill = |pid: i32| {
        libc::kill(pid, libc::SIGKILL);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
    };
    loop {
        libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, sig);
        sig = 0;
        libc::waitpid(pid, &mut st, 0);
        if let Some(g) = gone(st) {
            return (calls, false, Some(g));
        }
        let s = libc::WSTOPSIG(st);
        if s != libc::SIGTRAP | 0x80 {
            sig = s;
            continue;
        }
        let mut regs: libc::user_regs_struct = std::mem::zeroed();
        libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut regs as *mut _);
        let nr = regs.orig_rax as i64;
        if !inside {
            inside = true;
            if nr == END {
                libc::ptrace(libc::PTRACE_DETACH, pid, 0, 0);
                libc::waitpid(pid, &mut st, 0);
                return (calls, false, gone(st).filter(|g| g != "exited with 0"));
            }
            if !counted(nr) {
                continue;
            }
            let at = calls.len() as u32;
            calls.push((nr, 0));
            match fault {
                Fault::Kill { at: n, after: false } if n == at => {
                    kill(pid);
                    return (calls, true, None);
                }
                Fault::Fail { at: n, errno } if n == at => {
                    // No such call; its result is replaced.
                    regs.orig_rax = u64::MAX;
                    libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &mut regs as *mut _);
                    change = Some(-(errno as i64));
                }
                Fault::Short { at: n, len } if n == at => {
                    let count = match nr {
                        libc::SYS_write | libc::SYS_pwrite64 => Some(&mut regs.rdx),
                        libc::SYS_sendfile => Some(&mut regs.r10),
                        libc::SYS_copy_file_range => Some(&mut regs.r8),
                        _ => None,
                    };
                    if let Some(c) = count {
                        if *c > 1 {
                            *c = (*c).min(len as u64).max(1);
                            libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &mut regs as *mut _);
                        }
                    }
                }
                _ => {}
            }
        } else {
            inside = false;
            let known = change.is_some() || counted(nr);
            if let Some(c) = change.take() {
                regs.rax = c as u64;
                libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &mut regs as *mut _);
            }
            if known {
                let at = calls.len() - 1;
                calls[at].1 = regs.rax as i64;
                if fault == (Fault::Kill { at: at as u32, after: true }) {
                    kill(pid);
                    return (calls, true, None);
                }
            }
        }
    }
}

/// The helper process: one JSON request `[operation, fault]` per line.
pub fn helper<O: DeserializeOwned>(run: impl Fn(O) -> serde_json::Value) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let (op, fault): (O, Fault) = serde_json::from_str(&line).expect("request");
        let mut fds = [0i32; 2];
        let outcome = unsafe {
            assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
            // Room for any answer, so that the child never waits for a reader.
            libc::fcntl(fds[1], libc::F_SETPIPE_SZ, 1 << 20);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0);
                libc::raise(libc::SIGSTOP);
                let said = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(op)));
                libc::syscall(END);
                let said = said.unwrap_or_else(|_| serde_json::json!({"panicked": true}));
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(&serde_json::to_vec(&said).unwrap());
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let (calls, killed, crashed) = trace(pid, fault);
            let mut f = std::fs::File::from_raw_fd(fds[0]);
            let mut text = vec![];
            let _ = f.read_to_end(&mut text);
            Outcome { calls, killed, crashed, said: serde_json::from_slice(&text).ok() }
        };
        writeln!(out, "{}", serde_json::to_string(&outcome).unwrap()).unwrap();
        out.flush().unwrap();
    }
    std::process::exit(0)
}

/// A helper process of this thread.
pub struct Helper(Child, ChildStdin, BufReader<ChildStdout>);

impl Helper {
    pub fn start() -> Self {
        let mut c = Command::new(std::env::current_exe().unwrap()).arg("--helper").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
        Helper(c, i, o)
    }
    pub fn ask<O: Serialize>(&mut self, op: &O, fault: Fault) -> Option<Outcome> {
        writeln!(self.1, "{}", serde_json::to_string(&(op, fault)).unwrap()).ok()?;
        self.1.flush().ok()?;
        let mut line = String::new();
        self.2.read_line(&mut line).ok()?;
        serde_json::from_str(&line).ok()
    }
}

impl Drop for Helper {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

thread_local!(static HELPER: std::cell::RefCell<Option<Helper>> = const { std::cell::RefCell::new(None) });

/// Runs an operation with a fault in this thread's helper.
pub fn with_fault<O: Serialize>(op: &O, fault: Fault) -> Result<Outcome, String> {
    HELPER.with(|h| {
        let mut h = h.borrow_mut();
        for _ in 0..2 {
            if let Some(o) = h.get_or_insert_with(Helper::start).ask(op, fault) {
                return Ok(o);
            }
            *h = None;
        }
        Err("the helper process does not answer".into())
    })
}
