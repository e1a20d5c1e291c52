//! Runs the workload with no standard library and no operating system: memory comes from a fixed
//! arena, and before the first call into gauss-quad the process gives up every system call but
//! `read`, `write` and `exit` (strict seccomp), so that any other one ends it with SIGKILL.
#![no_std]
#![no_main]

mod workload;

use core::alloc::{GlobalAlloc, Layout};
use core::arch::{asm, global_asm};
use core::cell::UnsafeCell;
use core::fmt::{self, Write};
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[cfg(target_arch = "x86_64")]
mod arch {
    use super::*;
    global_asm!(".global _start", "_start:", "mov rdi, rsp", "and rsp, -16", "call {}", sym start);
    pub const WRITE: usize = 1;
    pub const EXIT: usize = 60;
    pub const PRCTL: usize = 157;
    pub fn syscall(n: usize, a: usize, b: usize, c: usize) -> isize {
        let r: isize;
        // SAFETY: the three system calls used here only read the given buffer.
        unsafe { asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _) };
        r
    }
}

#[cfg(target_arch = "x86")]
mod arch {
    use super::*;
    global_asm!(".global _start", "_start:", "mov eax, esp", "and esp, -16", "sub esp, 12", "push eax", "call {}", sym start);
    pub const WRITE: usize = 4;
    pub const EXIT: usize = 1;
    pub const PRCTL: usize = 172;
    pub fn syscall(n: usize, a: usize, b: usize, c: usize) -> isize {
        let r: isize;
        // SAFETY: the three system calls used here only read the given buffer.
        unsafe {
            asm!("xchg ebx, {a}", "int 0x80", "xchg ebx, {a}", a = inout(reg) a => _,
                 inlateout("eax") n as isize => r, in("ecx") b, in("edx") c)
        };
        r
    }
}
use arch::*;

struct Out(usize);

impl Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut s = s.as_bytes();
        while !s.is_empty() {
            let n = syscall(WRITE, self.0, s.as_ptr() as usize, s.len());
            if n <= 0 {
                exit(3);
            }
            s = &s[n as usize..];
        }
        Ok(())
    }
}

fn exit(code: usize) -> ! {
    loop {
        syscall(EXIT, code, 0, 0);
    }
}

#[panic_handler]
fn panic(info: &core::panic::PanicInfo) -> ! {
    let _ = writeln!(Out(2), "PANIC: {info}");
    exit(101)
}

// Allocations are carved off a fixed arena, which is taken back when nothing is allocated any more.
const SIZE: usize = 1 << 25;
#[repr(align(64))]
struct Arena(UnsafeCell<[u8; SIZE]>);
// SAFETY: there is one thread.
unsafe impl Sync for Arena {}
static ARENA: Arena = Arena(UnsafeCell::new([0; SIZE]));
static TOP: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
const GUARD: u64 = 0xfeed_5afe_c0de_d00d;

struct Bump;

// SAFETY: blocks are disjoint, aligned, and inside the arena.
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let start = TOP.load(Relaxed).next_multiple_of(l.align());
        let end = start + l.size();
        if end + 8 > SIZE {
            return core::ptr::null_mut();
        }
        TOP.store(end + 8, Relaxed);
        LIVE.store(LIVE.load(Relaxed) + l.size(), Relaxed);
        PEAK.store(PEAK.load(Relaxed).max(end), Relaxed);
        CALLS.store(CALLS.load(Relaxed) + 1, Relaxed);
        let base = ARENA.0.get().cast::<u8>();
        // SAFETY: in bounds, see above. Fresh memory is filled with a pattern, never with zeros.
        unsafe {
            base.add(start).write_bytes(0xa5, l.size());
            base.add(end).cast::<u64>().write_unaligned(GUARD);
            base.add(start)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // SAFETY: the block and the guard after it lie in the arena.
        unsafe {
            if p.add(l.size()).cast::<u64>().read_unaligned() != GUARD {
                let _ = writeln!(Out(2), "MONITOR: a block of {} bytes was overrun", l.size());
                exit(102);
            }
            p.write_bytes(0x5a, l.size());
        }
        let live = LIVE.load(Relaxed) - l.size();
        LIVE.store(live, Relaxed);
        if live == 0 {
            TOP.store(0, Relaxed);
        }
    }
}

#[global_allocator]
static ALLOC: Bump = Bump;

/// Decimal digits of a C string.
unsafe fn number(p: *const u8) -> u64 {
    let mut n = 0;
    // SAFETY: arguments of a process end with a zero byte.
    unsafe {
        let mut p = p;
        while (*p).is_ascii_digit() {
            n = n * 10 + u64::from(*p - b'0');
            p = p.add(1);
        }
    }
    n
}

/// Arguments: seed, first case, number of cases, whether to write every word.
unsafe extern "C" fn start(stack: *const usize) -> ! {
    // SAFETY: the kernel puts the number of arguments and pointers to them on the stack.
    let arg = |i: usize| unsafe { if i < *stack { number(*stack.add(1 + i) as *const u8) } else { 0 } };
    let (seed, first, count, verbose) = (arg(1), arg(2), arg(3), arg(4) != 0);
    // PR_SET_SECCOMP, SECCOMP_MODE_STRICT
    if syscall(PRCTL, 22, 1, 0) != 0 {
        let _ = writeln!(Out(2), "no seccomp");
        exit(3);
    }
    let mut words = 0;
    for i in first..first + count {
        words += workload::case(seed, i, verbose, &mut Out(1));
        if LIVE.load(Relaxed) != 0 {
            let _ = writeln!(Out(2), "MONITOR: case {i} leaves {} bytes", LIVE.load(Relaxed));
            exit(102);
        }
    }
    let _ = writeln!(Out(1), "OBSERVED words {words} allocations {} peak {}", CALLS.load(Relaxed), PEAK.load(Relaxed));
    exit(0)
}
