//! The stacks given to the crate: its own DefaultStack and custom ones whose
//! surroundings are watched.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use crate::world::{event, violate, w, CANARY, STATE, TOK};
use corosensei::stack::{Stack, StackPointer};

pub enum Mem {
    #[cfg(feature = "default-stack")]
    Def(corosensei::stack::DefaultStack),
    Cus(Custom),
}
/// [map, map+page): guard; usable up to base; then a watched strip or, if the
/// base is the end of the page, an inaccessible page.
pub struct Custom {
    map: usize,
    len: usize,
    base: usize,
    strip: usize,
    pat: u8,
}
pub struct TStack {
    pub id: usize,
    pub mem: Mem,
    pub gone: bool,
}

/// Reserves memory here and there in the address space: below and above other
/// stacks, and across 2 GiB and 4 GiB.
pub fn somewhere(len: usize) -> usize {
    static N: AtomicUsize = AtomicUsize::new(0);
    let n = N.fetch_add(1, SeqCst);
    let low = 0x1000_0000 + (n / 4 * len.max(1 << 20)) % 0x3000_0000;
    #[cfg(target_pointer_width = "64")]
    let hint = match n % 4 {
        0 => low,
        1 => [0x8000_0000, 0x1_0000_0000, 0x1_8000_0000][n / 4 % 3] - len / 2,
        2 => 0x2_0000_0000 + low * 16,
        _ => 0,
    };
    #[cfg(target_pointer_width = "32")]
    let hint = match n % 4 {
        0 => low,
        1 => 0x8000_0000 - len / 2,
        2 => 0x9000_0000 + low / 8,
        _ => 0,
    };
    unsafe {
        let f = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS;
        let fixed = if hint == 0 { 0 } else { libc::MAP_FIXED_NOREPLACE };
        let mut p = libc::mmap((hint & !4095) as *mut _, len, libc::PROT_NONE, f | fixed, -1, 0);
        if p == libc::MAP_FAILED {
            p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE, f, -1, 0);
        }
        assert!(p != libc::MAP_FAILED);
        p as usize
    }
}

impl Custom {
    pub fn new(size: usize, residue: usize, pat: u8) -> Custom {
        let page = 4096;
        let size = (size + page - 1) & !(page - 1);
        let len = page + size + 2 * page;
        unsafe {
            let map = somewhere(len);
            let top = map + page + size;
            let acc = if residue == 0 { size } else { size + page };
            assert!(libc::mprotect((map + page) as *mut _, acc, libc::PROT_READ | libc::PROT_WRITE) == 0);
            let base = if residue == 0 { top } else { top + page - residue };
            let strip = top + page - base;
            let c = Custom { map, len, base, strip: if residue == 0 { 0 } else { strip }, pat };
            std::slice::from_raw_parts_mut(base as *mut u8, c.strip).fill(pat);
            // no stack is promised to start out empty
            std::slice::from_raw_parts_mut((base - 1024) as *mut u8, 1024).fill(!pat);
            c
        }
    }
    pub fn check(&self) -> bool {
        unsafe { std::slice::from_raw_parts(self.base as *const u8, self.strip).iter().all(|&b| b == self.pat) }
    }
}
impl Drop for Custom {
    fn drop(&mut self) {
        // keep the address range reserved for a while: any later use faults
        unsafe {
            libc::mprotect(self.map as *mut _, self.len, libc::PROT_NONE);
            libc::madvise(self.map as *mut _, self.len, libc::MADV_DONTNEED);
            let mut g = GONE.lock().unwrap_or_else(|e| e.into_inner());
            let n = g.0;
            let (map, len) = std::mem::replace(&mut g.1[n % KEPT], (self.map, self.len));
            g.0 = n.wrapping_add(1);
            if len != 0 {
                libc::munmap(map as *mut _, len);
            }
        }
    }
}
const KEPT: usize = 2048;
static GONE: std::sync::Mutex<(usize, [(usize, usize); KEPT])> = std::sync::Mutex::new((0, [(0, 0); KEPT]));
unsafe impl Stack for TStack {
    fn base(&self) -> StackPointer {
        if self.gone {
            violate(TOK, "a stack is used after its release");
        }
        match &self.mem {
            #[cfg(feature = "default-stack")]
            Mem::Def(d) => d.base(),
            Mem::Cus(c) => StackPointer::new(c.base).unwrap(),
        }
    }
    fn limit(&self) -> StackPointer {
        match &self.mem {
            #[cfg(feature = "default-stack")]
            Mem::Def(d) => d.limit(),
            Mem::Cus(c) => StackPointer::new(c.map).unwrap(),
        }
    }
}
impl Drop for TStack {
    fn drop(&mut self) {
        if self.gone {
            violate(TOK, "a stack is released twice");
        }
        self.gone = true;
        if let Mem::Cus(c) = &self.mem {
            if !c.check() {
                violate(CANARY, "memory above a stack's base was written");
            }
        }
        event("free", "", self.id as i64, 0);
        // in this order: a signal may see the state between
        let r = &mut w().ranges[self.id];
        unsafe {
            std::ptr::write_volatile(&mut r.1, 0);
            std::ptr::write_volatile(&mut r.0, 0);
        }
    }
}
/// A stack as given away: by value or mutably borrowed.
pub enum SArg {
    Own(TStack),
    Bor(Borrowed),
}
pub struct Borrowed(Option<&'static mut TStack>);
unsafe impl Stack for SArg {
    fn base(&self) -> StackPointer {
        match self {
            SArg::Own(s) => s.base(),
            SArg::Bor(r) => <&mut TStack as Stack>::base(r.0.as_ref().unwrap()),
        }
    }
    fn limit(&self) -> StackPointer {
        match self {
            SArg::Own(s) => s.limit(),
            SArg::Bor(r) => <&mut TStack as Stack>::limit(r.0.as_ref().unwrap()),
        }
    }
}
impl Drop for Borrowed {
    fn drop(&mut self) {
        if let Some(r) = self.0.take() {
            give_back_borrowed(r);
        }
    }
}
pub fn give_back_borrowed(r: &'static mut TStack) {
    let w = w();
    let id = r.id;
    if w.stacks[id].is_some() {
        violate(STATE, "a borrowed stack comes back twice");
    }
    w.stacks[id] = Some(unsafe { Box::from_raw(r) });
}
pub fn make(id: usize) {
    let w = w();
    let r = w.rand();
    let size = crate::STACK_SIZE;
    let kind = if crate::world::only_default() { 0 } else { (r % 4) as usize };
    let mem = match kind {
        #[cfg(feature = "default-stack")]
        0 | 1 => Mem::Def(corosensei::stack::DefaultStack::new(size + (r as usize >> 8) % 9000).unwrap()),
        2 => Mem::Cus(Custom::new(size, 0, 0x5a)),
        k => Mem::Cus(Custom::new(size, 16 * (1 + (r as usize >> 8) % 200) + k / 9, 0xc3)),
    };
    let s = TStack { id, mem, gone: false };
    w.strips[id] = match &s.mem {
        Mem::Cus(c) => (c.strip, c.pat),
        #[cfg(feature = "default-stack")]
        _ => (0, 0),
    };
    let (lo, hi) = (s.limit().get(), s.base().get());
    let r = &mut w.ranges[id];
    unsafe {
        std::ptr::write_volatile(&mut r.0, lo);
        std::ptr::write_volatile(&mut r.1, hi);
    }
    w.stacks[id] = Some(Box::new(s));
}
pub fn take(id: usize, own: bool) -> SArg {
    let b = w().stacks[id].take().expect("script uses a stack that is not there");
    if own {
        SArg::Own(*b)
    } else {
        SArg::Bor(Borrowed(Some(Box::leak(b))))
    }
}
/// A stack handed back by the crate.
pub fn back(s: SArg, id: usize) {
    let got = match &s {
        SArg::Own(t) => t.id,
        SArg::Bor(r) => r.0.as_ref().unwrap().id,
    };
    if got != id {
        violate(STATE, "into_stack returned another stack");
    }
    match s {
        SArg::Own(t) => {
            if (t.limit().get(), t.base().get()) != w().ranges[id] {
                violate(STATE, "into_stack returned a different stack");
            }
            if w().stacks[id].is_some() {
                violate(STATE, "a stack exists twice");
            }
            w().stacks[id] = Some(Box::new(t));
        }
        b @ SArg::Bor(_) => drop(b),
    }
}
/// The strips above the bases of custom stacks are untouched.
pub fn check_all() {
    for (i, &(_, base)) in w().ranges.iter().enumerate() {
        if i > 0 && base != 0 {
            let (n, pat) = w().strips[i];
            let s = unsafe { std::slice::from_raw_parts(base as *const u8, n) };
            if s.iter().any(|b| *b != pat) {
                violate(CANARY, "memory above a stack's base was written");
            }
        }
    }
}
