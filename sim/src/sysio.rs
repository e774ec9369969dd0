//! System calls of this process on files under one scratch directory, under the simulator's
//! control: the C library functions that std calls are defined here and forwarded to the kernel,
//! after the script has decided what the call may do. Other files are not touched.

use crate::rng::mix;
use serde::{Deserialize, Serialize};
use std::ffi::{c_char, c_int, c_void, CStr};

/// What the calls of one operation meet.
#[derive(Clone, Serialize, Deserialize, Debug, Default, PartialEq)]
pub struct SysScript {
    /// Calls of `open` that are interrupted first, then the error of the next one.
    pub open_interrupts: u8,
    pub open_error: Option<i32>,
    /// Largest number of bytes a read or write moves: cycled through; empty: everything.
    pub chunks: Vec<u16>,
    /// Reads and writes (by number) that are interrupted first, and how often.
    pub interrupts: Vec<(u32, u8)>,
    /// Once so many bytes were moved: this error number for ever, 0 for a write that accepts
    /// nothing.
    pub fail_at: Option<(usize, i32)>,
    /// What fails (moves, opens) fails only the first time.
    #[serde(default)]
    pub fail_once: bool,
    /// The size that the file is said to have: added to the real one.
    pub size_lie: i64,
    /// Closing fails.
    pub close_error: bool,
    /// Changing the size of the file and syncing it fail.
    #[serde(default)]
    pub other_error: bool,
}

#[derive(Default, Debug)]
pub struct SysCounts {
    pub calls: u64,
    pub opens: u64,
    pub interrupted: u64,
    pub short: u64,
    pub failed: u64,
    pub open_failed: u64,
    pub lies: u64,
    pub close_failed: u64,
    pub other_failed: u64,
    pub digest: u64,
    /// Files that were opened or failed to open.
    pub touched: bool,
}

struct State {
    dir: Vec<u8>,
    script: SysScript,
    counts: SysCounts,
    fds: Vec<c_int>,
    interrupted: Vec<u8>,
    open_interrupted: u8,
    moves: u32,
    moved: usize,
}

static mut STATE: Option<Box<State>> = None;

/// Only one thread of a process runs cases.
#[allow(static_mut_refs)]
fn state() -> Option<&'static mut State> {
    unsafe { STATE.as_deref_mut() }
}

/// Runs `f` with the calls on files under `dir` scripted.
pub fn simulate<T>(dir: &str, script: &SysScript, f: impl FnOnce() -> T) -> (T, SysCounts) {
    let s = State {
        dir: dir.as_bytes().to_vec(),
        script: script.clone(),
        counts: SysCounts::default(),
        fds: Vec::with_capacity(64),
        interrupted: vec![0; script.interrupts.len()],
        open_interrupted: 0,
        moves: 0,
        moved: 0,
    };
    #[allow(static_mut_refs)]
    unsafe {
        STATE = Some(Box::new(s));
    }
    let r = f();
    #[allow(static_mut_refs)]
    let s = unsafe { STATE.take() }.expect("state");
    (r, s.counts)
}

fn fails(errno: i32) -> isize {
    unsafe { *libc::__errno_location() = errno };
    -1
}

impl State {
    fn ev(&mut self, v: u64) {
        self.counts.calls += 1;
        self.counts.digest = mix(self.counts.digest ^ v);
    }

    /// How many of `want` bytes a read or write may move, or its result.
    fn moves(&mut self, want: usize, writing: bool) -> Result<usize, isize> {
        for (i, (n, times)) in self.script.interrupts.iter().enumerate() {
            if *n == self.moves && self.interrupted[i] < *times {
                self.interrupted[i] += 1;
                self.counts.interrupted += 1;
                self.ev(1);
                return Err(fails(libc::EINTR));
            }
        }
        let mut n = want;
        if !self.script.chunks.is_empty() {
            n = n.min(self.script.chunks[self.moves as usize % self.script.chunks.len()] as usize);
        }
        self.moves += 1;
        let past = self.script.fail_once && self.counts.failed > 0;
        if let Some((at, errno)) = self.script.fail_at.filter(|_| !past) {
            if self.moved >= at && want > 0 {
                self.counts.failed += 1;
                self.ev(2);
                return Err(if errno == 0 && writing { 0 } else { fails(if errno == 0 { libc::EIO } else { errno }) });
            }
            n = n.min(at - self.moved);
        }
        if n < want {
            self.counts.short += 1;
        }
        Ok(n)
    }

    fn moved(&mut self, n: isize) -> isize {
        if n > 0 {
            self.moved += n as usize;
        }
        self.ev(3 ^ (n as u64) << 8);
        n
    }

    fn open(&mut self, path: &CStr, then: impl FnOnce() -> c_int) -> c_int {
        if !path.to_bytes().starts_with(&self.dir) {
            return then();
        }
        self.counts.opens += 1;
        self.counts.touched = true;
        if self.open_interrupted < self.script.open_interrupts {
            self.open_interrupted += 1;
            self.counts.interrupted += 1;
            self.ev(4);
            return fails(libc::EINTR) as c_int;
        }
        let past = self.script.fail_once && self.counts.open_failed > 0;
        if let Some(e) = self.script.open_error.filter(|_| !past) {
            self.counts.open_failed += 1;
            self.ev(5);
            return fails(e) as c_int;
        }
        let fd = then();
        self.ev(6);
        if fd >= 0 && self.fds.len() < 60 {
            self.fds.push(fd);
        }
        fd
    }
}

unsafe fn real_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    match state() {
        Some(s) => s.open(CStr::from_ptr(path), || real_open(path, flags, mode)),
        None => real_open(path, flags, mode),
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, count: usize) -> isize {
    match state() {
        Some(s) if s.fds.contains(&fd) => match s.moves(count, false) {
            Ok(n) => {
                let r = libc::syscall(libc::SYS_read, fd, buf, n) as isize;
                s.moved(r)
            }
            Err(r) => r,
        },
        _ => libc::syscall(libc::SYS_read, fd, buf, count) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, count: usize) -> isize {
    match state() {
        Some(s) if s.fds.contains(&fd) => match s.moves(count, true) {
            Ok(n) => {
                let r = libc::syscall(libc::SYS_write, fd, buf, n) as isize;
                s.moved(r)
            }
            Err(r) => r,
        },
        _ => libc::syscall(libc::SYS_write, fd, buf, count) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    match state() {
        // The kernel may always move only a part: the first non-empty piece.
        Some(s) if s.fds.contains(&fd) => {
            let mut i = 0;
            while i + 1 < n as usize && (*iov.add(i)).iov_len == 0 {
                i += 1;
            }
            let v = &*iov.add(i);
            write(fd, v.iov_base, v.iov_len)
        }
        _ => libc::syscall(libc::SYS_writev, fd, iov, n) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, count: usize, at: i64) -> isize {
    match state() {
        Some(s) if s.fds.contains(&fd) => match s.moves(count, false) {
            Ok(n) => {
                let r = libc::syscall(libc::SYS_pread64, fd, buf, n, at) as isize;
                s.moved(r)
            }
            Err(r) => r,
        },
        _ => libc::syscall(libc::SYS_pread64, fd, buf, count, at) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let mut error = false;
    if let Some(s) = state() {
        if let Some(i) = s.fds.iter().position(|f| *f == fd) {
            s.fds.remove(i);
            s.ev(7);
            error = s.script.close_error;
            s.counts.close_failed += u64::from(error);
        }
    }
    let r = libc::syscall(libc::SYS_close, fd) as c_int;
    if error {
        return fails(libc::EIO) as c_int;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut libc::statx) -> c_int {
    let r = libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as c_int;
    if let Some(s) = state() {
        if r == 0 && s.fds.contains(&dir) && s.script.size_lie != 0 {
            let size = (*buf).stx_size as i64;
            (*buf).stx_size = (size + s.script.size_lie).max(0) as u64;
            s.counts.lies += 1;
            s.ev(8);
        }
    }
    r
}

fn other(fd: c_int, errno: c_int, then: impl FnOnce() -> c_int) -> c_int {
    match state() {
        Some(s) if s.fds.contains(&fd) && s.script.other_error => {
            s.counts.other_failed += 1;
            s.ev(9);
            fails(errno) as c_int
        }
        _ => then(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    other(fd, libc::EPERM, || libc::syscall(libc::SYS_ftruncate, fd, len) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    other(fd, libc::EIO, || libc::syscall(libc::SYS_fsync, fd) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    other(fd, libc::EIO, || libc::syscall(libc::SYS_fdatasync, fd) as c_int)
}
