//! The few libc items the harness needs.
#![allow(non_camel_case_types)]

use std::ffi::c_void;

pub const PROT_NONE: i32 = 0;
pub const PROT_READ: i32 = 1;
pub const PROT_WRITE: i32 = 2;
pub const MAP_SHARED: i32 = 1;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_ANONYMOUS: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;

pub const SIGILL: i32 = 4;
pub const SIGTRAP: i32 = 5;
pub const SIGABRT: i32 = 6;
pub const SIGBUS: i32 = 7;
pub const SIGFPE: i32 = 8;
pub const SIGKILL: i32 = 9;
pub const SIGSEGV: i32 = 11;
pub const SIGXCPU: i32 = 24;
pub const SA_SIGINFO: i32 = 4;
pub const SA_ONSTACK: i32 = 0x0800_0000;
pub const SA_NODEFER: i32 = 0x4000_0000;

#[repr(C)]
pub struct sigaction_t {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: i32,
    pub restorer: usize,
}

#[repr(C)]
pub struct stack_t {
    pub sp: *mut c_void,
    pub flags: i32,
    pub size: usize,
}

#[repr(C)]
pub struct rlimit {
    pub cur: u64,
    pub max: u64,
}

extern "C" {
    pub fn mmap(a: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    pub fn munmap(a: *mut c_void, len: usize) -> i32;
    pub fn mprotect(a: *mut c_void, len: usize, prot: i32) -> i32;
    pub fn sigaction(sig: i32, act: *const sigaction_t, old: *mut sigaction_t) -> i32;
    pub fn sigaltstack(ss: *const stack_t, old: *mut stack_t) -> i32;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn setrlimit(res: i32, r: *const rlimit) -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn write(fd: i32, p: *const c_void, n: usize) -> isize;
}

pub const WNOHANG: i32 = 1;
pub const RLIMIT_CPU: i32 = 0;
pub const RLIMIT_CORE: i32 = 4;
pub const PR_SET_PDEATHSIG: i32 = 1;

pub fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe {
        mmap(std::ptr::null_mut(), len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)
    };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}

/// `pages` private read/write pages with an inaccessible page on either side.
pub fn map_guarded(pages: usize) -> *mut u8 {
    let len = (pages + 2) * 4096;
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        let q = (p as *mut u8).add(4096);
        assert_eq!(mprotect(q as *mut c_void, pages * 4096, PROT_READ | PROT_WRITE), 0);
        q
    }
}
