//! Traps and the signal handler that recovers from them.
use crate::world::{violate, w, BOUNDS, CTRL};
use corosensei::trap::TrapHandlerRegs;

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = handler as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            assert!(libc::sigaction(s, &sa, std::ptr::null_mut()) == 0);
        }
    }
}
pub fn altstack() {
    unsafe {
        let n = 1 << 18;
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let ss = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: n };
        assert!(libc::sigaltstack(&ss, std::ptr::null_mut()) == 0);
    }
}
unsafe extern "C" fn handler(sig: i32, _i: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let w = w();
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    #[cfg(target_arch = "x86_64")]
    let sp = uc.uc_mcontext.gregs[libc::REG_RSP as usize] as usize;
    #[cfg(target_arch = "x86")]
    let sp = uc.uc_mcontext.gregs[libc::REG_ESP as usize] as u32 as usize;
    let c = w.trap_co as usize;
    if c == 0 {
        // not ours: a crash of the code under test
        #[cfg(target_arch = "x86_64")]
        let ip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        #[cfg(target_arch = "x86")]
        let ip = uc.uc_mcontext.gregs[libc::REG_EIP as usize] as u32 as usize;
        let on = w.stack_of(sp);
        w.mask |= CTRL;
        violate(CTRL, &format!("crashed with signal {sig} at {ip:#x}, stack pointer {sp:#x} (stack {on})"));
        libc::_exit(4);
    }
    w.trap_co = 0;
    for d in 1..crate::world::maxc() {
        if w.cos[d].st == 0 || (w.cos[d].p.is_none() && d != c) {
            continue;
        }
        let claims = (*w.cos[d].raw).in_bounds(sp);
        if claims != (d == c) {
            violate(BOUNDS, &format!("coroutine {d} claims a trap of coroutine {c}: {claims}"));
        }
    }
    let regs = (*w.cos[c].raw).recover();
    #[cfg(target_arch = "x86_64")]
    {
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = regs;
        let g = &mut uc.uc_mcontext.gregs;
        g[libc::REG_RIP as usize] = rip as i64;
        g[libc::REG_RSP as usize] = rsp as i64;
        g[libc::REG_RBP as usize] = rbp as i64;
        g[libc::REG_RDI as usize] = rdi as i64;
        g[libc::REG_RSI as usize] = rsi as i64;
    }
    #[cfg(target_arch = "x86")]
    {
        let TrapHandlerRegs { eip, esp, ebp, ecx, edx } = regs;
        let g = &mut uc.uc_mcontext.gregs;
        g[libc::REG_EIP as usize] = eip as i32;
        g[libc::REG_ESP as usize] = esp as i32;
        g[libc::REG_EBP as usize] = ebp as i32;
        g[libc::REG_ECX as usize] = ecx as i32;
        g[libc::REG_EDX as usize] = edx as i32;
    }
}

#[inline(never)]
pub fn trap(c: usize) {
    let w = w();
    let k = w.rand() % 4;
    w.trap_co = c as u32;
    if k == 1 {
        // no room for the handler on this stack
        crate::stepping::off();
    }
    unsafe {
        match k {
            0 => core::arch::asm!("ud2"),
            1 => core::arch::asm!("2: push 0", "jmp 2b"),
            #[cfg(target_arch = "x86_64")]
            2 => core::arch::asm!("mov dword ptr [rax], 1", in("rax") 16),
            #[cfg(target_arch = "x86")]
            2 => core::arch::asm!("mov dword ptr [eax], 1", in("eax") 16),
            _ => core::arch::asm!("xor edx, edx", "xor ecx, ecx", "mov eax, 1", "div ecx",
                                  out("eax") _, out("edx") _, out("ecx") _),
        }
    }
    crate::world::w().mask |= CTRL;
    violate(CTRL, "execution continued behind a trap");
}
