//! Runs placement cases and writes down what was observed (see spec/Place.tla).
use corosensei::stack::{Stack, StackPointer};
use corosensei::trap::{CoroutineTrapHandler, TrapHandlerRegs};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

#[path = "arch.rs"]
#[allow(dead_code)]
mod arch;

#[derive(Default, Clone, Copy)]
struct Seen {
    runs: u32,
    drops: u32,
    stackdrops: u32,
    misaligned: u32,
    inside: u32,
    sp16: u32,
    depth: usize,
    slot: u32,
    value: u32,
    lo: usize,
    hi: usize,
    plo: usize, // where the code is to run, if not on the stack itself
    phi: usize,
}
static mut SEEN: Seen = Seen {
    runs: 0, drops: 0, stackdrops: 0, misaligned: 0, inside: 0, sp16: 0, depth: 0, slot: 0, value: 0, lo: 0, hi: 0, plo: 0, phi: 0,
};
#[allow(static_mut_refs)]
fn s() -> &'static mut Seen {
    unsafe { &mut SEEN }
}

macro_rules! aligns { ($($n:ident $a:literal),*) => { $(#[repr(align($a))] #[derive(Clone, Copy)] struct $n;)* } }
aligns!(L1 1, L2 2, L4 4, L8 8, L16 16, L32 32, L64 64, L128 128, L256 256, L512 512, L1024 1024, L2048 2048);

struct O<A: Copy, const N: usize> {
    _a: [A; 0],
    b: [u8; N],
}
fn look<A: Copy, const N: usize>(o: &O<A, N>) {
    let a = o as *const _ as usize;
    if a % std::mem::align_of::<A>() != 0 {
        s().misaligned += 1;
    }
    for (i, x) in o.b.iter().enumerate() {
        if *x != (i as u8).wrapping_mul(7) ^ 0x3c {
            s().value = 0;
        }
    }
}
impl<A: Copy, const N: usize> O<A, N> {
    fn new() -> Self {
        let mut b = [0; N];
        for (i, x) in b.iter_mut().enumerate() {
            *x = (i as u8).wrapping_mul(7) ^ 0x3c;
        }
        O { _a: [], b }
    }
}
impl<A: Copy, const N: usize> Drop for O<A, N> {
    fn drop(&mut self) {
        look(self);
        let a = self as *const _ as usize;
        s().slot = (a >= s().lo && a + N <= s().hi) as u32;
        s().drops += 1;
    }
}
#[inline(never)]
fn ran() {
    let sp = arch::entry_sp();
    let k = s();
    k.runs += 1;
    k.inside = (sp > k.plo && sp < k.phi) as u32;
    k.sp16 = ((sp + std::mem::size_of::<usize>()) % 16) as u32;
    k.depth = k.phi.wrapping_sub(sp).min(1 << 30);
}

const STRIP: usize = 8192;
struct Mem {
    lo: usize,
    hi: usize,
    guard: usize,
}
static ARENA: AtomicUsize = AtomicUsize::new(0);
impl Mem {
    fn new(size: usize, res: usize) -> Mem {
        unsafe {
            let n = 1 << 20;
            let mut a = ARENA.load(SeqCst);
            if a == 0 {
                a = libc::mmap(std::ptr::null_mut(), n, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as usize;
                ARENA.store(a, SeqCst);
            }
            let hi = a + n - 2 * STRIP - res;
            let lo = hi - size - 4096;
            std::slice::from_raw_parts_mut((lo - STRIP) as *mut u8, STRIP + 4096).fill(0x6b);
            std::slice::from_raw_parts_mut(hi as *mut u8, STRIP).fill(0x6b);
            Mem { lo, hi, guard: 4096 }
        }
    }
    fn intact(lo: usize, hi: usize) -> bool {
        unsafe {
            std::slice::from_raw_parts((lo - STRIP) as *const u8, STRIP + 4096).iter().all(|x| *x == 0x6b)
                && std::slice::from_raw_parts(hi as *const u8, STRIP).iter().all(|x| *x == 0x6b)
        }
    }
}
unsafe impl Stack for Mem {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.hi).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.hi - (self.hi - self.lo - self.guard) - self.guard).unwrap()
    }
}
impl Drop for Mem {
    fn drop(&mut self) {
        s().stackdrops += 1;
    }
}

static mut RECOVER: Option<Box<dyn Fn(bool) -> TrapHandlerRegs>> = None;
#[allow(static_mut_refs)]
unsafe extern "C" fn on_trap(_s: i32, _i: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    let Some(f) = RECOVER.take() else { libc::_exit(77) };
    let regs = match catch_unwind(AssertUnwindSafe(|| f(true))) {
        Ok(r) => r,
        Err(_) => f(false), // refused: end the coroutine otherwise
    };
    let g = &mut uc.uc_mcontext.gregs;
    #[cfg(target_arch = "x86_64")]
    {
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = regs;
        for (r, v) in [(libc::REG_RIP, rip), (libc::REG_RSP, rsp), (libc::REG_RBP, rbp), (libc::REG_RDI, rdi), (libc::REG_RSI, rsi)] {
            g[r as usize] = v as i64;
        }
    }
    #[cfg(target_arch = "x86")]
    {
        let TrapHandlerRegs { eip, esp, ebp, ecx, edx } = regs;
        for (r, v) in [(libc::REG_EIP, eip), (libc::REG_ESP, esp), (libc::REG_EBP, ebp), (libc::REG_ECX, ecx), (libc::REG_EDX, edx)] {
            g[r as usize] = v as i32;
        }
    }
}
#[inline(never)]
fn burn(top: usize) -> usize {
    let a = std::hint::black_box([top as u8; 1024]);
    if top - arch::entry_sp() > 500 * 1024 {
        unsafe { core::arch::asm!("ud2") }
        return a[3] as usize;
    }
    burn(top) + a[5] as usize
}

fn case<A: Copy + 'static, const N: usize>(act: &str, res: usize) -> &'static str {
    *s() = Seen { value: 1, ..Seen::default() };
    let small = matches!(act, "fresh" | "force" | "reset" | "min");
    let m = Mem::new(if small { 4096 } else { 640 * 1024 }, res);
    let k = s();
    (k.lo, k.hi) = (m.lo, m.hi);
    (k.plo, k.phi) = (m.lo, m.hi);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let o = O::<A, N>::new();
        match act {
            "os" => {
                let v = on_stack(m, move || {
                    ran();
                    look(&o);
                    drop(o);
                    0x1234_5678u32
                });
                assert!(v == 0x1234_5678);
            }
            "ps" => {
                struct Snd<T>(T);
                unsafe impl<T> Send for Snd<T> {}
                std::mem::forget(o);
                let mut co = Coroutine::<(), (), u64, Mem>::with_stack(m, move |y: &Yielder<(), ()>, ()| {
                    let o = Snd(O::<A, N>::new());
                    y.on_parent_stack(move || {
                        let o = o;
                        ran();
                        look(&o.0);
                        drop(o);
                        77
                    })
                });
                // the parent is this thread
                let here = arch::entry_sp();
                (s().plo, s().phi) = (here - (1 << 20), here);
                assert!(matches!(co.resume(()), CoroutineResult::Return(77)));
            }
            "rec" => {
                let mut co = Coroutine::<(), (), u32, Mem>::with_stack(m, |_, ()| burn(arch::entry_sp()) as u32);
                let th: CoroutineTrapHandler<u32> = co.trap_handler();
                let o = std::cell::Cell::new(Some(o));
                unsafe {
                    RECOVER = Some(Box::new(move |real| {
                        if !real {
                            return th.setup_trap_handler(|| 98);
                        }
                        let o = o.take().unwrap();
                        th.setup_trap_handler(move || {
                            ran();
                            look(&o);
                            drop(o);
                            99
                        })
                    }));
                }
                let r = co.resume(());
                assert!(matches!(r, CoroutineResult::Return(99)), "refused");
                assert!(co.done());
            }
            _ => {
                let mut co = Coroutine::<u32, u32, u32, Mem>::with_stack(m, move |y: &Yielder<u32, u32>, i: u32| {
                    ran();
                    look(&o);
                    let j = y.suspend(i + 1);
                    look(&o);
                    drop(o);
                    j + 1
                });
                match act {
                    "run" | "moved" | "min" => {
                        let mut co = if act == "moved" { std::hint::black_box(Box::new(co)) } else { Box::new(co) };
                        assert!(matches!(co.resume(5), CoroutineResult::Yield(6)));
                        assert!(matches!(co.resume(8), CoroutineResult::Return(9)));
                    }
                    "force" => co.force_unwind(),
                    "reset" => unsafe { co.force_reset() },
                    _ => (),
                }
            }
        }
    }));
    match r {
        Ok(()) => "ok",
        Err(_) => {
            unsafe { RECOVER = None };
            "panic"
        }
    }
}

type F = fn(&str, usize) -> &'static str;
macro_rules! table {
    ($($a:literal $l:ident : $($n:literal)*;)*) => { const TABLE: &[(usize, usize, F)] = &[$($(($n, $a, case::<$l, $n>),)*)*]; }
}
include!("place_table.rs");

fn main() {
    let path = std::env::args().nth(1).unwrap();
    let (k, n): (usize, usize) = (std::env::args().nth(2).unwrap().parse().unwrap(), std::env::args().nth(3).unwrap().parse().unwrap());
    let text = std::fs::read_to_string(path).unwrap();
    let cases: Vec<Vec<&str>> = text.lines().map(|l| l.split(' ').collect()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        let st = libc::mmap(std::ptr::null_mut(), 1 << 20, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: st, ss_flags: 0, ss_size: 1 << 20 };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGILL, &sa, std::ptr::null_mut());
        let sh = libc::mmap(std::ptr::null_mut(), 4096, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut usize;
        let mut i = k;
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        while i < cases.len() {
            *sh = i;
            let pid = libc::fork();
            if pid == 0 {
                libc::dup2(null, 2);
                libc::alarm(60);
                let mut out = std::io::BufWriter::new(std::io::stdout());
                while i < cases.len() {
                    *sh = i;
                    let c = &cases[i];
                    let (size, align, res): (usize, usize, usize) = (c[0].parse().unwrap(), c[1].parse().unwrap(), c[3].parse().unwrap());
                    let f = TABLE.iter().find(|t| t.0 == size && t.1 == align).expect("no such type").2;
                    let r = f(c[2], res);
                    let v = *s();
                    let strips = Mem::intact(v.lo, v.hi) as u32;
                    writeln!(
                        out,
                        "{{\"size\":{size},\"align\":{align},\"act\":\"{}\",\"res\":{res},\"out\":\"{r}\",\"runs\":{},\"drops\":{},\"stackdrops\":{},\"misaligned\":{},\"inside\":{},\"sp16\":{},\"depth\":{},\"slot\":{},\"value\":{},\"strips\":{strips}}}",
                        c[2], v.runs, v.drops, v.stackdrops, v.misaligned, v.inside, v.sp16, v.depth, v.slot, v.value
                    )
                    .unwrap();
                    out.flush().unwrap();
                    i += n;
                }
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                break;
            }
            i = *sh;
            let c = &cases[i];
            println!(
                "{{\"size\":{},\"align\":{},\"act\":\"{}\",\"res\":{},\"out\":\"crash\",\"runs\":0,\"drops\":0,\"stackdrops\":0,\"misaligned\":0,\"inside\":0,\"sp16\":0,\"depth\":0,\"slot\":0,\"value\":0,\"strips\":0}}",
                c[0], c[1], c[2], c[3]
            );
            i += n;
        }
    }
}
