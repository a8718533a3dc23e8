//! Runs one operation of the library in a child process of our own, stops it
//! at every system call on files of a scratch directory, and can make chosen
//! calls fail.  (ptrace on x86-64 Linux.)
use std::collections::HashMap;
use std::io::{Read, Seek};
use std::os::unix::fs::FileExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plan {
    Observe,
    /// the n-th file call fails with this error
    Fail(usize, i32),
    /// the n-th file call, a write, stores half; later writes fail: disk full
    Full(usize),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub name: &'static str,
    /// file relative to the scratch directory
    pub file: String,
    pub len: u64,
    pub ret: i64,
    pub writes: bool,
    pub injected: bool,
}
impl Call {
    pub fn kind(&self) -> String {
        let ext = Path::new(&self.file).extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
        format!("{} {}", self.name, ext)
    }
}

#[derive(Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Timeout,
}

#[derive(Debug)]
pub struct Run {
    pub calls: Vec<Call>,
    pub out: String,
    pub end: End,
}

/// (name, position of the fd or -1, position of a path or -1, changes files)
fn known(nr: i64) -> Option<(&'static str, i32, i32, bool)> {
    Some(match nr {
        libc::SYS_open => ("open", -1, 0, false),
        libc::SYS_creat => ("creat", -1, 0, true),
        libc::SYS_openat => ("openat", -1, 1, false),
        libc::SYS_read => ("read", 0, -1, false),
        libc::SYS_pread64 => ("pread", 0, -1, false),
        libc::SYS_readv => ("readv", 0, -1, false),
        libc::SYS_write => ("write", 0, -1, true),
        libc::SYS_pwrite64 => ("pwrite", 0, -1, true),
        libc::SYS_writev => ("writev", 0, -1, true),
        libc::SYS_ftruncate => ("ftruncate", 0, -1, true),
        libc::SYS_fallocate => ("fallocate", 0, -1, true),
        libc::SYS_fsync => ("fsync", 0, -1, true),
        libc::SYS_fdatasync => ("fdatasync", 0, -1, true),
        libc::SYS_copy_file_range => ("copy_file_range", 2, -1, true),
        libc::SYS_sendfile => ("sendfile", 0, -1, true),
        libc::SYS_rename => ("rename", -1, 0, true),
        libc::SYS_renameat => ("renameat", -1, 1, true),
        libc::SYS_renameat2 => ("renameat2", -1, 1, true),
        libc::SYS_link => ("link", -1, 1, true),
        libc::SYS_linkat => ("linkat", -1, 3, true),
        libc::SYS_unlink => ("unlink", -1, 0, true),
        libc::SYS_unlinkat => ("unlinkat", -1, 1, true),
        libc::SYS_truncate => ("truncate", -1, 0, true),
        libc::SYS_mkdir => ("mkdir", -1, 0, true),
        libc::SYS_mkdirat => ("mkdirat", -1, 1, true),
        _ => return None,
    })
}

struct Child(i32);
impl Drop for Child {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.0, libc::SIGKILL);
            libc::waitpid(self.0, &mut 0, libc::__WALL);
        }
    }
}

fn cstr(mem: &std::fs::File, at: u64) -> String {
    let mut o = vec![];
    let mut b = [0u8; 256];
    while o.len() < 4096 {
        let n = mem.read_at(&mut b, at + o.len() as u64).unwrap_or(0);
        if n == 0 {
            break;
        }
        if let Some(z) = b[..n].iter().position(|c| *c == 0) {
            o.extend_from_slice(&b[..z]);
            break;
        }
        o.extend_from_slice(&b[..n]);
    }
    String::from_utf8_lossy(&o).into_owned()
}

/// The child marks the observed part with two SIGSTOPs of its own.
/// `after` is called while the child is stopped behind a call.
pub fn run(args: &[&str], dir: &Path, plan: Plan, limit: Duration, mut after: impl FnMut(&Call)) -> Result<Run, String> {
    let mut outf = tempfile();
    let exe = "/proc/self/exe";
    let mut cmd = Command::new(exe);
    cmd.arg("child").args(args).current_dir(dir).stdin(Stdio::null()).stdout(outf.try_clone().unwrap()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let ch = cmd.spawn().map_err(|e| format!("child not started: {e}"))?;
    let pid = ch.id() as i32;
    let guard = Child(pid);
    let t0 = Instant::now();
    let mut st = 0;
    // a watchdog kills a hung child; wait then reports the signal
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let timed = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let dog = {
        let timed = timed.clone();
        std::thread::spawn(move || {
            if rx.recv_timeout(limit) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                timed.store(true, std::sync::atomic::Ordering::SeqCst);
                unsafe { libc::kill(pid, libc::SIGKILL) };
            }
        })
    };
    let res = unsafe { observe(pid, &mut st, dir, plan, &mut after) };
    let _ = tx.send(());
    let _ = dog.join();
    if res.is_ok() {
        std::mem::forget(guard);
    } else {
        drop(guard);
    }
    drop(ch);
    let calls = match res {
        Ok(c) => c,
        Err(e) => return Err(format!("{e} after {:?}", t0.elapsed())),
    };
    let mut out = String::new();
    outf.rewind().unwrap();
    outf.read_to_string(&mut out).map_err(|e| e.to_string())?;
    let end = if timed.load(std::sync::atomic::Ordering::SeqCst) {
        End::Timeout
    } else if libc::WIFSIGNALED(st) {
        End::Signal(libc::WTERMSIG(st))
    } else {
        End::Exit(libc::WEXITSTATUS(st))
    };
    Ok(Run { calls, out, end })
}

fn tempfile() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe { std::fs::File::from_raw_fd(libc::memfd_create(c"out".as_ptr(), libc::MFD_CLOEXEC)) }
}

unsafe fn observe(pid: i32, st: &mut i32, dir: &Path, plan: Plan, after: &mut dyn FnMut(&Call)) -> Result<Vec<Call>, String> {
    let mut calls: Vec<Call> = vec![];
    unsafe {
        let fail = |w: &str| Err(format!("{w}: {}", std::io::Error::last_os_error()));
        if libc::waitpid(pid, st, libc::__WALL) != pid {
            return fail("waitpid");
        }
        if !libc::WIFSTOPPED(*st) {
            return Err(format!("child ended early: {st}"));
        }
        if libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_TRACESECCOMP | libc::PTRACE_O_EXITKILL) != 0 {
            return fail("ptrace options");
        }
        let mem = std::fs::File::open(format!("/proc/{pid}/mem")).map_err(|e| e.to_string())?;
        let mut fds: HashMap<u64, String> = HashMap::new();
        let mut tracing = false;
        // the call under way: its effect shows at the next stop
        let mut pending: Option<Call> = None;
        let mut opening = false;
        let mut sig = 0;
        let mut full = false;
        loop {
            let req = if opening { libc::PTRACE_SYSCALL } else { libc::PTRACE_CONT };
            if libc::ptrace(req, pid, 0, sig) != 0 {
                // it may have been killed meanwhile
                if libc::waitpid(pid, st, libc::__WALL) == pid && !libc::WIFSTOPPED(*st) {
                    return Ok(calls);
                }
                return fail("ptrace continue");
            }
            sig = 0;
            if libc::waitpid(pid, st, libc::__WALL) != pid {
                return fail("waitpid");
            }
            let stopped = libc::WIFSTOPPED(*st);
            if opening && stopped && libc::WSTOPSIG(*st) == libc::SIGTRAP | 0x80 {
                // behind an open: which descriptor?
                let mut regs: libc::user_regs_struct = std::mem::zeroed();
                if libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut regs) == 0 {
                    if let Some(c) = &mut pending {
                        c.ret = regs.rax as i64;
                        if c.ret >= 0 {
                            fds.insert(c.ret as u64, c.file.clone());
                        }
                    }
                }
                opening = false;
            }
            if let Some(c) = pending.take() {
                after(&c);
                calls.push(c);
            }
            if !stopped {
                return Ok(calls);
            }
            let s = libc::WSTOPSIG(*st);
            if *st >> 8 != libc::SIGTRAP | (libc::PTRACE_EVENT_SECCOMP << 8) {
                if s == libc::SIGSTOP {
                    tracing = !tracing;
                } else if s != libc::SIGTRAP && s != libc::SIGTRAP | 0x80 {
                    sig = s;
                }
                continue;
            }
            if !tracing {
                continue;
            }
            let mut regs: libc::user_regs_struct = std::mem::zeroed();
            if libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut regs) != 0 {
                continue;
            }
            let args = [regs.rdi, regs.rsi, regs.rdx, regs.r10, regs.r8, regs.r9];
            let nr = regs.orig_rax as i64;
            if nr == libc::SYS_close {
                fds.remove(&args[0]);
            }
            let Some((name, fd, path, mut writes)) = known(nr) else { continue };
            let file = if fd >= 0 {
                match fds.get(&args[fd as usize]) {
                    Some(f) => f.clone(),
                    None => continue,
                }
            } else {
                let p = PathBuf::from(cstr(&mem, args[path as usize]));
                let p = if p.is_absolute() { p } else { dir.join(p) };
                match p.strip_prefix(dir) {
                    Ok(f) => f.to_string_lossy().into_owned(),
                    Err(_) => continue,
                }
            };
            let mut len = 0;
            if matches!(nr, libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_read | libc::SYS_pread64) {
                len = args[2];
            }
            let open = matches!(nr, libc::SYS_open | libc::SYS_openat | libc::SYS_creat);
            if open && nr != libc::SYS_creat {
                let fl = args[if nr == libc::SYS_open { 1 } else { 2 }] as i32;
                writes = fl & (libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_RDWR) != 0;
            }
            let data = matches!(nr, libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_writev | libc::SYS_copy_file_range | libc::SYS_ftruncate | libc::SYS_fallocate);
            let i = calls.len();
            let mut inject = None;
            let mut injected = false;
            match plan {
                Plan::Fail(n, e) if n == i => inject = Some(e as i64),
                Plan::Full(n) if n == i => {
                    full = true;
                    injected = true;
                    if len > 1 && nr == libc::SYS_write {
                        regs.rdx = len / 2;
                        libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &regs);
                    } else {
                        inject = Some(libc::ENOSPC as i64);
                    }
                }
                Plan::Full(_) if full && data => inject = Some(libc::ENOSPC as i64),
                _ => {}
            }
            let mut ret = 0;
            if let Some(e) = inject {
                // no call, and its result
                regs.orig_rax = u64::MAX;
                regs.rax = (-e) as u64;
                libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &regs);
                injected = true;
                ret = -e;
            }
            opening = open && inject.is_none();
            pending = Some(Call { name, file, len, ret, writes, injected });
        }
    }
}

/// in the child: only the calls we know stop it
fn filter() {
    let calls: Vec<u32> = (0..400i64).filter(|n| known(*n).is_some() || *n == libc::SYS_close).map(|n| n as u32).collect();
    let n = calls.len();
    let ins = |code: u32, jt: usize, jf: u8, k: u32| libc::sock_filter { code: code as u16, jt: jt as u8, jf, k };
    let mut prog = vec![ins(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0, 0, 0)];
    for (i, c) in calls.iter().enumerate() {
        prog.push(ins(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, n - i, 0, *c));
    }
    prog.push(ins(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_ALLOW));
    prog.push(ins(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_TRACE));
    let p = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_mut_ptr() };
    unsafe {
        assert!(libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0, "no_new_privs");
        assert!(libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &p) == 0, "seccomp filter");
    }
}

/// in the child: the observed part
pub fn observed<T>(f: impl FnOnce() -> T) -> T {
    filter();
    unsafe { libc::raise(libc::SIGSTOP) };
    let r = f();
    unsafe { libc::raise(libc::SIGSTOP) };
    r
}
