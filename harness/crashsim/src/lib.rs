//! Crash and fault exploration of real file-system code.
//!
//! The code under test runs in a child process of its own, whose system calls are followed with ptrace. Every call
//! that changes something below a chosen directory is a numbered *operation*. A plan either records all operations, or
//! ends the process right before operation `k`, or lets only part of a write happen before ending it, or makes
//! operation `k` fail with an error. Recovery code is then run on what is really left in the directory.

use std::io::Read as _;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Plan {
    Record,
    /// The process dies right before operation `k`.
    KillBefore(usize),
    /// Operation `k`, a write, transfers only the first `n` bytes, and then the process dies.
    Tear(usize, usize),
    /// Operation `k` fails with this error number and the process goes on.
    Fail(usize, i32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub call: &'static str,
    pub path: PathBuf,
    pub to: Option<PathBuf>,
    pub len: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Killed,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub ops: Vec<Op>,
    pub end: End,
    pub out: Vec<u8>,
}

fn read_mem(pid: i32, addr: u64, len: usize) -> Vec<u8> {
    let mut buf = vec![0u8; len];
    let local = libc::iovec { iov_base: buf.as_mut_ptr() as *mut _, iov_len: len };
    let remote = libc::iovec { iov_base: addr as *mut _, iov_len: len };
    let n = unsafe { libc::process_vm_readv(pid, &local, 1, &remote, 1, 0) };
    buf.truncate(n.max(0) as usize);
    buf
}

fn read_str(pid: i32, addr: u64) -> String {
    let mut out = vec![];
    let mut at = addr;
    // Never past the end of a page: the next one may not be mapped.
    while out.len() < 4096 {
        let n = (4096 - (at & 4095)).min(256) as usize;
        let b = read_mem(pid, at, n);
        if b.is_empty() {
            break;
        }
        if let Some(p) = b.iter().position(|x| *x == 0) {
            out.extend_from_slice(&b[..p]);
            break;
        }
        at += b.len() as u64;
        out.extend(b);
    }
    String::from_utf8_lossy(&out).into_owned()
}

fn fd_path(pid: i32, fd: i64) -> PathBuf {
    std::fs::read_link(format!("/proc/{pid}/fd/{fd}")).unwrap_or_default()
}

fn at_path(pid: i32, dirfd: i64, p: String) -> PathBuf {
    if p.starts_with('/') {
        PathBuf::from(p)
    } else if dirfd as i32 == libc::AT_FDCWD {
        std::fs::read_link(format!("/proc/{pid}/cwd")).unwrap_or_default().join(p)
    } else {
        fd_path(pid, dirfd).join(p)
    }
}

fn classify(pid: i32, r: &libc::user_regs_struct, root: &Path) -> Option<Op> {
    let s = |a: u64| read_str(pid, a);
    let cwd = libc::AT_FDCWD as i64;
    let (call, path, to, len) = match r.orig_rax as i64 {
        libc::SYS_open if r.rsi as i32 & (libc::O_CREAT | libc::O_TRUNC) != 0 => ("open", at_path(pid, cwd, s(r.rdi)), None, 0),
        libc::SYS_openat if r.rdx as i32 & (libc::O_CREAT | libc::O_TRUNC) != 0 => {
            ("open", at_path(pid, r.rdi as i64, s(r.rsi)), None, 0)
        }
        libc::SYS_creat => ("open", at_path(pid, cwd, s(r.rdi)), None, 0),
        libc::SYS_write | libc::SYS_pwrite64 => ("write", fd_path(pid, r.rdi as i64), None, r.rdx as usize),
        libc::SYS_writev => ("writev", fd_path(pid, r.rdi as i64), None, 0),
        libc::SYS_ftruncate => ("truncate", fd_path(pid, r.rdi as i64), None, 0),
        libc::SYS_truncate => ("truncate", at_path(pid, cwd, s(r.rdi)), None, 0),
        libc::SYS_fsync | libc::SYS_fdatasync => ("sync", fd_path(pid, r.rdi as i64), None, 0),
        libc::SYS_rename => ("rename", at_path(pid, cwd, s(r.rdi)), Some(at_path(pid, cwd, s(r.rsi))), 0),
        libc::SYS_renameat | libc::SYS_renameat2 => {
            ("rename", at_path(pid, r.rdi as i64, s(r.rsi)), Some(at_path(pid, r.rdx as i64, s(r.r10))), 0)
        }
        libc::SYS_link => ("link", at_path(pid, cwd, s(r.rdi)), Some(at_path(pid, cwd, s(r.rsi))), 0),
        libc::SYS_linkat => ("link", at_path(pid, r.rdi as i64, s(r.rsi)), Some(at_path(pid, r.rdx as i64, s(r.r10))), 0),
        libc::SYS_unlink => ("unlink", at_path(pid, cwd, s(r.rdi)), None, 0),
        libc::SYS_rmdir => ("rmdir", at_path(pid, cwd, s(r.rdi)), None, 0),
        libc::SYS_unlinkat => ("unlink", at_path(pid, r.rdi as i64, s(r.rsi)), None, 0),
        libc::SYS_mkdir => ("mkdir", at_path(pid, cwd, s(r.rdi)), None, 0),
        libc::SYS_mkdirat => ("mkdir", at_path(pid, r.rdi as i64, s(r.rsi)), None, 0),
        libc::SYS_copy_file_range => ("copy", fd_path(pid, r.rdx as i64), None, 0),
        libc::SYS_sendfile => ("copy", fd_path(pid, r.rdi as i64), None, 0),
        _ => return None,
    };
    if path.starts_with(root) || to.as_ref().is_some_and(|t| t.starts_with(root)) {
        Some(Op { call, path, to, len })
    } else {
        None
    }
}

/// Runs this program again with `args`, following its changes below `root`. The child must be single-threaded while
/// it makes them.
pub fn run(args: &[String], root: &Path, plan: &Plan) -> std::io::Result<Run> {
    let exe = std::env::current_exe()?;
    let mut cmd = Command::new(exe);
    cmd.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut child = cmd.spawn()?;
    let mut pipe = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = pipe.read_to_end(&mut v);
        v
    });
    let pid = child.id() as i32;
    let mut ops = vec![];
    let mut status = 0;
    let wait = |status: &mut i32| unsafe { libc::waitpid(pid, status, libc::__WALL) };
    let kill = || unsafe {
        libc::kill(pid, libc::SIGKILL);
    };
    if wait(&mut status) != pid {
        return Err(std::io::Error::last_os_error());
    }
    unsafe {
        libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL);
    }
    let mut entering = true;
    let mut killed = false;
    let mut die_after = false;
    let mut fail_with: Option<i32> = None;
    let mut deliver = 0;
    let end = loop {
        unsafe { libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, deliver) };
        deliver = 0;
        if wait(&mut status) != pid {
            return Err(std::io::Error::last_os_error());
        }
        if libc::WIFEXITED(status) {
            break End::Exit(libc::WEXITSTATUS(status));
        }
        if libc::WIFSIGNALED(status) {
            break if killed { End::Killed } else { End::Signal(libc::WTERMSIG(status)) };
        }
        if !libc::WIFSTOPPED(status) {
            continue;
        }
        let sig = libc::WSTOPSIG(status);
        if sig != libc::SIGTRAP | 0x80 {
            deliver = if sig == libc::SIGTRAP { 0 } else { sig };
            continue;
        }
        let mut regs: libc::user_regs_struct = unsafe { std::mem::zeroed() };
        unsafe { libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut regs as *mut _ as *mut libc::c_void) };
        if entering {
            entering = false;
            if let Some(op) = classify(pid, &regs, root) {
                let k = ops.len();
                match plan {
                    Plan::KillBefore(n) if *n == k => {
                        killed = true;
                        kill();
                        continue;
                    }
                    Plan::Tear(n, len) if *n == k && op.call == "write" => {
                        regs.rdx = *len as u64;
                        unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &regs as *const _ as *const libc::c_void) };
                        die_after = true;
                    }
                    Plan::Fail(n, errno) if *n == k => {
                        regs.orig_rax = u64::MAX;
                        unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &regs as *const _ as *const libc::c_void) };
                        fail_with = Some(*errno);
                    }
                    _ => {}
                }
                ops.push(op);
            }
        } else {
            entering = true;
            if let Some(e) = fail_with.take() {
                regs.rax = -(e as i64) as u64;
                unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &regs as *const _ as *const libc::c_void) };
            }
            if die_after {
                killed = true;
                kill();
            }
        }
    };
    std::mem::forget(child); // already waited for
    let out = reader.join().unwrap_or_default();
    Ok(Run { ops, end, out })
}

/// Everything below `root`: relative path and content (`None` for a directory).
pub fn snapshot(root: &Path) -> Vec<(PathBuf, Option<Vec<u8>>)> {
    fn walk(root: &Path, d: &Path, out: &mut Vec<(PathBuf, Option<Vec<u8>>)>) {
        let mut es: Vec<_> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        es.sort();
        for p in es {
            let rel = p.strip_prefix(root).unwrap().to_path_buf();
            if p.is_dir() {
                out.push((rel, None));
                walk(root, &p, out);
            } else {
                out.push((rel, std::fs::read(&p).ok()));
            }
        }
    }
    let mut out = vec![];
    walk(root, root, &mut out);
    out
}

