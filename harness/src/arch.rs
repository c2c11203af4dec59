//! Machine-level helpers: the register shim, frame pointers, unwinder walks.
use core::ffi::c_void;
use std::arch::global_asm;

pub type Thunk = unsafe extern "C-unwind" fn(*mut c_void);

extern "C-unwind" {
    /// Calls f(arg) with every callee-saved register set from `seed'; returns a
    /// mask of those that did not survive.
    fn hv_shim(f: Thunk, arg: *mut c_void, seed: usize) -> usize;
}
extern "C" {
    fn hv_entry_sp() -> usize;
    fn hv_fp() -> usize;
    static hv_shim_end: [u8; 0];
}

#[cfg(target_arch = "x86_64")]
global_asm!(
    ".balign 16",
    ".globl hv_shim",
    ".type hv_shim,@function",
    "hv_shim:",
    ".cfi_startproc",
    "push rbp",
    ".cfi_def_cfa_offset 16",
    ".cfi_offset rbp, -16",
    "mov rbp, rsp",
    ".cfi_def_cfa_register rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    ".cfi_offset rbx, -24",
    ".cfi_offset r12, -32",
    ".cfi_offset r13, -40",
    ".cfi_offset r14, -48",
    ".cfi_offset r15, -56",
    "sub rsp, 24",
    "mov [rsp], rdx",
    "mov [rsp+8], rbp",
    "stmxcsr [rsp+16]",
    "fnstcw [rsp+20]",
    "lea rbx, [rdx+1]",
    "lea r12, [rdx+2]",
    "lea r13, [rdx+3]",
    "lea r14, [rdx+4]",
    "lea r15, [rdx+5]",
    "mov rax, rdi",
    "mov rdi, rsi",
    "call rax",
    // verify; RSP is checked against RBP, RBP against the copy
    "xor eax, eax",
    "lea rcx, [rbp-64]",
    "cmp rcx, rsp",
    "je 2f",
    "or eax, 64",
    "mov rsp, rcx",
    "2:",
    "mov rdx, [rsp]",
    "cmp rbp, [rsp+8]",
    "je 2f",
    "or eax, 32",
    "2:",
    "lea rcx, [rdx+1]",
    "cmp rcx, rbx",
    "je 2f",
    "or eax, 1",
    "2:",
    "lea rcx, [rdx+2]",
    "cmp rcx, r12",
    "je 2f",
    "or eax, 2",
    "2:",
    "lea rcx, [rdx+3]",
    "cmp rcx, r13",
    "je 2f",
    "or eax, 4",
    "2:",
    "lea rcx, [rdx+4]",
    "cmp rcx, r14",
    "je 2f",
    "or eax, 8",
    "2:",
    "lea rcx, [rdx+5]",
    "cmp rcx, r15",
    "je 2f",
    "or eax, 16",
    "2:",
    "stmxcsr [rsp+8]",
    "mov ecx, [rsp+8]",
    "xor ecx, [rsp+16]",
    "and ecx, 0xffc0",
    "je 2f",
    "or eax, 128",
    "2:",
    "fnstcw [rsp+8]",
    "mov cx, [rsp+8]",
    "cmp cx, [rsp+20]",
    "je 2f",
    "or eax, 256",
    "2:",
    "pushfq",
    "pop rcx",
    "test ecx, 0x400",
    "je 2f",
    "or eax, 512",
    "cld",
    "2:",
    "add rsp, 24",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    ".cfi_def_cfa rsp, 8",
    "ret",
    ".cfi_endproc",
    ".globl hv_shim_end",
    "hv_shim_end:",
    ".size hv_shim, .-hv_shim",
    ".globl hv_entry_sp",
    ".type hv_entry_sp,@function",
    "hv_entry_sp:",
    "mov rax, rsp",
    "ret",
    ".size hv_entry_sp, .-hv_entry_sp",
    ".globl hv_fp",
    ".type hv_fp,@function",
    "hv_fp:",
    "mov rax, rbp",
    "ret",
    ".size hv_fp, .-hv_fp",
);

#[cfg(target_arch = "x86")]
global_asm!(
    ".balign 16",
    ".globl hv_shim",
    ".type hv_shim,@function",
    "hv_shim:",
    ".cfi_startproc",
    "push ebp",
    ".cfi_def_cfa_offset 8",
    ".cfi_offset ebp, -8",
    "mov ebp, esp",
    ".cfi_def_cfa_register ebp",
    "push ebx",
    "push esi",
    "push edi",
    ".cfi_offset ebx, -12",
    ".cfi_offset esi, -16",
    ".cfi_offset edi, -20",
    // frame: [ebp-12]..[ebp-4] saved; 28 more: [esp] arg, [esp+4..] copies
    "sub esp, 28",
    "mov eax, [ebp+16]",
    "mov [esp+4], eax",
    "mov [esp+8], ebp",
    "stmxcsr [esp+12]",
    "fnstcw [esp+16]",
    "mov ecx, [ebp+12]",
    "mov [esp], ecx",
    "lea ebx, [eax+1]",
    "lea esi, [eax+2]",
    "lea edi, [eax+3]",
    "call dword ptr [ebp+8]",
    "xor eax, eax",
    "lea ecx, [ebp-40]",
    "cmp ecx, esp",
    "je 2f",
    "or eax, 64",
    "mov esp, ecx",
    "2:",
    "mov edx, [ebp+16]",
    "cmp ebp, [esp+8]",
    "je 2f",
    "or eax, 32",
    "2:",
    "lea ecx, [edx+1]",
    "cmp ecx, ebx",
    "je 2f",
    "or eax, 1",
    "2:",
    "lea ecx, [edx+2]",
    "cmp ecx, esi",
    "je 2f",
    "or eax, 2",
    "2:",
    "lea ecx, [edx+3]",
    "cmp ecx, edi",
    "je 2f",
    "or eax, 4",
    "2:",
    "stmxcsr [esp+20]",
    "mov ecx, [esp+20]",
    "xor ecx, [esp+12]",
    "and ecx, 0xffc0",
    "je 2f",
    "or eax, 128",
    "2:",
    "fnstcw [esp+20]",
    "mov cx, [esp+20]",
    "cmp cx, [esp+16]",
    "je 2f",
    "or eax, 256",
    "2:",
    "pushfd",
    "pop ecx",
    "test ecx, 0x400",
    "je 2f",
    "or eax, 512",
    "cld",
    "2:",
    "add esp, 28",
    "pop edi",
    "pop esi",
    "pop ebx",
    "pop ebp",
    ".cfi_def_cfa esp, 4",
    "ret",
    ".cfi_endproc",
    ".globl hv_shim_end",
    "hv_shim_end:",
    ".size hv_shim, .-hv_shim",
    ".globl hv_entry_sp",
    ".type hv_entry_sp,@function",
    "hv_entry_sp:",
    "mov eax, esp",
    "ret",
    ".size hv_entry_sp, .-hv_entry_sp",
    ".globl hv_fp",
    ".type hv_fp,@function",
    "hv_fp:",
    "mov eax, ebp",
    "ret",
    ".size hv_fp, .-hv_fp",
);

/// Runs `f' through the shim and returns the mask of damaged registers.
#[inline(never)]
pub fn shimmed<F: FnOnce()>(seed: usize, f: F) -> usize {
    unsafe extern "C-unwind" fn thunk<F: FnOnce()>(p: *mut c_void) {
        let f = (*(p as *mut Option<F>)).take().unwrap_unchecked();
        f();
    }
    let mut f = Some(f);
    let r = unsafe { hv_shim(thunk::<F>, &mut f as *mut _ as *mut c_void, seed) };
    std::hint::black_box(&mut f);
    r
}
/// Seeds are recognisable, so that a backtrace can check them.
pub const SEED_TAG: usize = 0x5ead_0000;

pub fn entry_sp() -> usize {
    unsafe { hv_entry_sp() }
}
/// Stack pointer alignment required at a call, seen just after the call.
pub fn sp_aligned() -> bool {
    (entry_sp() + core::mem::size_of::<usize>()) % 16 == 0
}
#[inline(always)]
pub fn fp() -> usize {
    unsafe { hv_fp() }
}
pub fn shim_range() -> (usize, usize) {
    unsafe { (hv_shim as usize, hv_shim_end.as_ptr() as usize) }
}

#[repr(C)]
pub struct UCtx {
    _p: [u8; 0],
}
extern "C" {
    fn _Unwind_Backtrace(f: extern "C" fn(*mut UCtx, *mut c_void) -> i32, a: *mut c_void) -> i32;
    fn _Unwind_GetIPInfo(c: *mut UCtx, before: *mut i32) -> usize;
    fn _Unwind_FindEnclosingFunction(pc: *mut c_void) -> *mut c_void;
    fn _Unwind_GetGR(c: *mut UCtx, i: i32) -> usize;
    fn _Unwind_GetCFA(c: *mut UCtx) -> usize;
}
pub fn enclosing(pc: usize) -> usize {
    unsafe { _Unwind_FindEnclosingFunction(pc as *mut c_void) as usize }
}
/// One frame reported by the unwinder: (function, register mask if the shim).
pub fn backtrace(out: &mut Vec<(usize, usize)>) -> i32 {
    extern "C" fn cb(c: *mut UCtx, a: *mut c_void) -> i32 {
        unsafe {
            let out = &mut *(a as *mut Vec<(usize, usize)>);
            let mut before = 0;
            let ip = _Unwind_GetIPInfo(c, &mut before);
            if out.len() > 100_000 {
                return 4;
            }
            let pc = if before != 0 { ip } else { ip.wrapping_sub(1) };
            let (lo, hi) = shim_range();
            let mut bad = 0;
            if pc >= lo && pc < hi {
                bad = check_shim_regs(c);
            }
            out.push((enclosing(pc), bad));
            0
        }
    }
    unsafe { _Unwind_Backtrace(cb, out as *mut _ as *mut c_void) }
}
#[cfg(target_arch = "x86_64")]
unsafe fn check_shim_regs(c: *mut UCtx) -> usize {
    let seed = _Unwind_GetGR(c, 3).wrapping_sub(1);
    let mut bad = 0;
    if seed & 0xffff_0000 != SEED_TAG {
        bad |= 1;
    }
    for (i, r) in [12, 13, 14, 15].iter().enumerate() {
        if _Unwind_GetGR(c, *r) != seed.wrapping_add(2 + i) {
            bad |= 2 << i;
        }
    }
    let bp = _Unwind_GetGR(c, 6);
    let sp = _Unwind_GetCFA(c);
    if bp != sp.wrapping_add(64) {
        bad |= 32;
    } else if *(sp as *const usize) != seed {
        bad |= 64;
    }
    bad
}
#[cfg(target_arch = "x86")]
unsafe fn check_shim_regs(c: *mut UCtx) -> usize {
    // DWARF numbers: 3 ebx, 4 esp, 5 ebp, 6 esi, 7 edi
    let seed = _Unwind_GetGR(c, 3).wrapping_sub(1);
    let mut bad = 0;
    if seed & 0xffff_0000 != SEED_TAG {
        bad |= 1;
    }
    if _Unwind_GetGR(c, 6) != seed.wrapping_add(2) {
        bad |= 2;
    }
    if _Unwind_GetGR(c, 7) != seed.wrapping_add(3) {
        bad |= 4;
    }
    let bp = _Unwind_GetGR(c, 5);
    let sp = _Unwind_GetCFA(c);
    if bp != sp.wrapping_add(40) {
        bad |= 32;
    } else if *((sp + 4) as *const usize) != seed {
        bad |= 64;
    }
    bad
}
