//! Runs a closure in a forked child under ptrace: observes every file-system call, injects failures, kills.
use libc::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Run,
    Fail(i32),
    /// let the call transfer at most so many bytes
    Short(u64),
    Kill,
    KillAfter,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Call {
    /// number of the call since the start
    pub k: usize,
    pub nr: i64,
    pub args: [u64; 3],
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Killed,
    Signal(i32),
}

const MARK: u64 = 0x0076_7001;

/// Calls on files and directories, i.e. those an injected fault may hit
pub fn fs_call(nr: i64) -> bool {
    matches!(
        nr,
        SYS_read | SYS_write | SYS_open | SYS_stat | SYS_fstat | SYS_lstat | SYS_lseek | SYS_pread64 | SYS_pwrite64
            | SYS_readv | SYS_writev | SYS_access | SYS_sendfile | SYS_rename | SYS_mkdir | SYS_rmdir | SYS_creat
            | SYS_link | SYS_unlink | SYS_symlink | SYS_chmod | SYS_fchmod | SYS_truncate | SYS_ftruncate
            | SYS_openat | SYS_newfstatat | SYS_unlinkat | SYS_renameat | SYS_renameat2 | SYS_linkat | SYS_fchmodat
            | SYS_fallocate | SYS_fsync | SYS_fdatasync | SYS_statx | SYS_copy_file_range | SYS_preadv
            | SYS_pwritev | SYS_mkdirat | SYS_symlinkat | SYS_faccessat | SYS_faccessat2 | SYS_openat2
            | SYS_splice | SYS_getdents64 | SYS_close
    )
}
pub fn removes(nr: i64) -> bool {
    matches!(nr, SYS_unlink | SYS_unlinkat | SYS_rmdir)
}
pub fn transfers(nr: i64) -> bool {
    matches!(nr, SYS_read | SYS_write | SYS_pread64 | SYS_pwrite64)
}
pub fn writes(nr: i64) -> bool {
    matches!(nr, SYS_write | SYS_pwrite64 | SYS_writev | SYS_pwritev | SYS_copy_file_range | SYS_sendfile)
}

pub fn call_name(nr: i64) -> String {
    match nr {
        SYS_read => "read",
        SYS_write => "write",
        SYS_lseek => "lseek",
        SYS_openat => "openat",
        SYS_rename => "rename",
        SYS_renameat | SYS_renameat2 => "renameat",
        SYS_unlink | SYS_unlinkat => "unlink",
        SYS_statx | SYS_stat | SYS_fstat | SYS_newfstatat => "stat",
        SYS_close => "close",
        SYS_ftruncate => "ftruncate",
        _ => return format!("call {nr}"),
    }
    .into()
}

/// `act` is asked at the entry of every file-system call, `seen` is called after each of them
pub fn traced(
    child: impl FnOnce() -> i32,
    mut act: impl FnMut(Call) -> Act,
    mut seen: impl FnMut(Call) -> Result<(), String>,
) -> Result<End, String> {
    unsafe {
        let pid = fork();
        if pid < 0 {
            return Err("fork failed".into());
        }
        if pid == 0 {
            if ptrace(PTRACE_TRACEME, 0, 0, 0) != 0 {
                _exit(90);
            }
            raise(SIGSTOP);
            syscall(SYS_getpriority, MARK, 0);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(child)).unwrap_or(101);
            syscall(SYS_getpriority, MARK, 1);
            _exit(r);
        }
        let kill_it = || {
            kill(pid, SIGKILL);
            let mut st = 0;
            loop {
                let r = waitpid(pid, &mut st, 0);
                if r < 0 || WIFEXITED(st) || WIFSIGNALED(st) {
                    break;
                }
            }
        };
        let mut st = 0;
        if waitpid(pid, &mut st, 0) != pid || !WIFSTOPPED(st) {
            return Err(format!("tracing is not possible here (status {st:#x})"));
        }
        if ptrace(PTRACE_SETOPTIONS, pid, 0, (PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL) as usize) != 0 {
            kill_it();
            return Err("PTRACE_SETOPTIONS failed".into());
        }
        let mut on = false;
        let mut inside: Option<(Call, Act)> = None;
        let mut entry = true;
        let mut k = 0;
        let mut sig = 0;
        loop {
            if ptrace(PTRACE_SYSCALL, pid, 0, sig as usize) != 0 {
                kill_it();
                return Err("PTRACE_SYSCALL failed".into());
            }
            sig = 0;
            if waitpid(pid, &mut st, 0) != pid {
                return Err("lost the child".into());
            }
            if WIFEXITED(st) {
                return Ok(End::Exit(WEXITSTATUS(st)));
            }
            if WIFSIGNALED(st) {
                return Ok(End::Signal(WTERMSIG(st)));
            }
            if WSTOPSIG(st) != SIGTRAP | 0x80 {
                sig = WSTOPSIG(st);
                continue;
            }
            let mut r: user_regs_struct = std::mem::zeroed();
            ptrace(PTRACE_GETREGS, pid, 0, &mut r as *mut user_regs_struct);
            if entry {
                entry = false;
                let nr = r.orig_rax as i64;
                if nr == SYS_getpriority && r.rdi == MARK {
                    on = r.rsi == 0;
                }
                if !on || !fs_call(nr) {
                    continue;
                }
                let c = Call { k, nr, args: [r.rdi, r.rsi, r.rdx] };
                k += 1;
                let a = act(c);
                match a {
                    Act::Kill => {
                        kill_it();
                        return Ok(End::Killed);
                    }
                    Act::Fail(_) => {
                        r.orig_rax = u64::MAX;
                        ptrace(PTRACE_SETREGS, pid, 0, &r as *const user_regs_struct);
                    }
                    Act::Short(n) if transfers(nr) => {
                        r.rdx = r.rdx.min(n.max(1));
                        ptrace(PTRACE_SETREGS, pid, 0, &r as *const user_regs_struct);
                    }
                    _ => {}
                }
                inside = Some((c, a));
            } else {
                entry = true;
                if let Some((c, a)) = inside.take() {
                    if let Act::Fail(e) = a {
                        r.rax = (-(e as i64)) as u64;
                        ptrace(PTRACE_SETREGS, pid, 0, &r as *const user_regs_struct);
                    }
                    if let Err(e) = seen(c) {
                        kill_it();
                        return Err(e);
                    }
                    if a == Act::KillAfter {
                        kill_it();
                        return Ok(End::Killed);
                    }
                }
            }
        }
    }
}
