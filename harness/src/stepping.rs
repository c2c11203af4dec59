//! A signal after every instruction: the trap flag is set while code other
//! than the harness's own book-keeping runs, and the handler runs on the stack
//! that was interrupted, overwriting everything below the red zone.
use crate::world::{violate, w, Item, SIG};
use corosensei::stack::{Stack, StackPointer};
use corosensei::{Coroutine, CoroutineResult, Yielder};

#[derive(Default)]
pub struct Steps {
    pub path: [i8; 16],
    pub len: usize,
    pub count: u64,
}

/// The handler's own stacks.
const AREA: usize = 1 << 14;
#[repr(align(64))]
struct Area([u8; AREA]);
static mut AREAS: [Area; 2] = [const { Area([0; AREA]) }; 2];
struct Own(usize);
unsafe impl Stack for Own {
    fn base(&self) -> StackPointer {
        StackPointer::new(&raw const AREAS as usize + (self.0 + 1) * AREA).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(&raw const AREAS as usize + self.0 * AREA).unwrap()
    }
}
static mut OWN: Option<Coroutine<u64, u64, (), Own>> = None;
/// A switch back and forth, and a call on another stack, in the handler.
#[inline(never)]
unsafe fn switches(n: u64) {
    let own = &mut *(&raw mut OWN);
    let there = match own.as_mut().unwrap().resume(n) {
        CoroutineResult::Yield(x) => x,
        CoroutineResult::Return(()) => 0,
    };
    let called = corosensei::on_stack(Own(1), || n.rotate_left(17));
    if there != !n || called != n.rotate_left(17) {
        violate(SIG, "switches done by a signal handler go wrong");
    }
}

pub fn install() {
    unsafe {
        OWN = Some(Coroutine::with_stack(Own(0), |y: &Yielder<u64, u64>, mut n| loop {
            n = y.suspend(!n);
        }));
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = handler as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        assert!(libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()) == 0);
    }
}
#[inline(never)]
unsafe extern "C" fn handler(_s: i32, _i: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    #[cfg(target_arch = "x86_64")]
    let (sp, ip) = (uc.uc_mcontext.gregs[libc::REG_RSP as usize] as usize, uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize);
    #[cfg(target_arch = "x86")]
    let (sp, ip) = (
        uc.uc_mcontext.gregs[libc::REG_ESP as usize] as u32 as usize,
        uc.uc_mcontext.gregs[libc::REG_EIP as usize] as u32 as usize,
    );
    if !crate::world::has_world() {
        return;
    }
    // What the kernel may or may not use of the space below the interrupted
    // stack pointer: everything from the end of its frame upwards.
    let fx = uc.uc_mcontext.fpregs as usize;
    #[cfg(target_arch = "x86_64")]
    let (top, sw) = (sp - 128, fx + 464);
    #[cfg(target_arch = "x86")]
    let (top, sw) = (sp, fx + 112 + 464);
    if fx != 0 && *(sw as *const u32) == 0x4650_5853 {
        let end = fx + *((sw + 4) as *const u32) as usize;
        if end <= top && top - end <= 4096 {
            std::ptr::write_bytes(end as *mut u8, 0xa7, top - end);
        }
    }
    let mut junk = [0u8; 1024];
    for b in junk.iter_mut() {
        std::ptr::write_volatile(b, 0xa7);
    }
    step(sp, ip);
    switches(w().steps.count);
    std::hint::black_box(&junk);
}
#[inline(never)]
fn step(sp: usize, ip: usize) {
    let w = w();
    let mut at = -1;
    for (i, &(lo, hi)) in w.ranges.iter().enumerate() {
        if i > 0 && sp > lo && sp <= hi {
            at = i as i8;
        }
    }
    let (lo, hi) = w.thr_ranges[w.cur as usize];
    if sp > lo && sp <= hi {
        at = 0;
    }
    if at < 0 {
        violate(SIG, &format!("at {ip:#x} the stack pointer {sp:#x} is in none of the stacks in use"));
    }
    let ip = ip.wrapping_sub(install as usize);
    let s = &mut w.steps;
    s.count += 1;
    if s.len == 0 || s.path[s.len - 1] != at {
        if s.len >= 2 && s.path[s.len - 2] == at {
            violate(
                SIG,
                &format!("at {ip:#x} the stack pointer {sp:#x} went from stack {} to {} and back; stacks {:x?}", at, s.path[s.len - 1], w.ranges),
            );
        }
        if s.len < 16 {
            s.path[s.len] = at;
            s.len += 1;
        }
    }
}

/// Starts stepping: always if no unwinding is ahead, which takes a hundred
/// thousand instructions, otherwise now and then.
#[inline(always)]
pub fn on() {
    if w().mask & SIG != 0 && wanted() {
        w().steps.len = 0;
        unsafe { set() }
    }
}
#[inline(never)]
fn wanted() -> bool {
    let w = w();
    let items = &w.walk.items;
    let n = items.len();
    let mut h: u32 = 2166136261;
    let mut add = |b: &[u8]| {
        for x in b {
            h = (h ^ *x as u32).wrapping_mul(16777619);
        }
        h = (h ^ 255).wrapping_mul(16777619);
    };
    // what was just taken or reported, where, and what is next
    let next = items.get(w.pos.min(n - 1));
    let follows = |e: &str| matches!(next, Some(Item::Ev(x, ..)) if x == e);
    let cheap = match items.get(w.pos.wrapping_sub(1)) {
        Some(Item::Dec(op, a, obs)) => {
            add(op.as_bytes());
            add(&[a[0] as u8 & if op == "Resume" { 0 } else { 1 }]);
            add(&obs.chain[..obs.chain.len().min(2)]);
            matches!(op.as_str(), "Resume" | "Suspend" | "Return" | "OnStack" | "OnParent" | "EndOs" | "EndPs") && !follows("hook")
        }
        Some(Item::Ev(e, s, _, _, obs)) => {
            add(e.as_bytes());
            add(s.as_bytes());
            add(&obs.chain[..obs.chain.len().min(2)]);
            matches!(e.as_str(), "in" | "yld" | "ret" | "osr" | "psr" | "trp" | "isk") || (e == "drop" && (follows("ret") || follows("osr") || follows("psr")))
        }
        _ => return false,
    };
    match next {
        Some(Item::Ev(e, s, ..)) => {
            add(e.as_bytes());
            add(s.as_bytes());
        }
        Some(Item::Dec(..)) => add(b"D"),
        Some(Item::Abort) => add(b"A"),
        _ => (),
    }
    // plain data on the way to the next decision has no switches
    let k = h as usize % KINDS;
    unsafe {
        let t = (w.sh as *mut u8).add(4096) as *mut [u16; KINDS];
        let cap = if cheap { CHEAP } else { DEAR };
        if !cheap && w.q.step > 1 && k % w.q.step != w.q.next % w.q.step {
            return false;
        }
        if (*t)[k] >= cap {
            return false;
        }
        (*t)[k] += 1;
    }
    true
}
const KINDS: usize = 4096;
pub static mut CHEAP: u16 = 6;
pub static mut DEAR: u16 = 1;

#[inline(always)]
pub fn off() {
    if crate::world::w().mask & SIG != 0 {
        unsafe { clear() }
    }
}
#[inline(never)]
pub fn off_quiet() {
    off()
}
#[cfg(target_arch = "x86_64")]
#[inline(always)]
unsafe fn set() {
    core::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq");
}
#[cfg(target_arch = "x86_64")]
#[inline(always)]
unsafe fn clear() {
    core::arch::asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq");
}
#[cfg(target_arch = "x86")]
#[inline(always)]
unsafe fn set() {
    core::arch::asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
}
#[cfg(target_arch = "x86")]
#[inline(always)]
unsafe fn clear() {
    core::arch::asm!("pushfd", "and dword ptr [esp], 0xfffffeff", "popfd");
}
