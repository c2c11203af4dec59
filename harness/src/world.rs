//! What the harness knows about the program it is running: the script it
//! follows, the objects, stacks and coroutines alive, and the shared page
//! through which it reports.
use crate::arch;
use crate::interp::CoObj;
use crate::stacks::TStack;
use std::cell::Cell;

/// Report page shared with the parent process.
#[repr(C)]
pub struct Shared {
    pub pos: usize,
    pub index: usize, // walk being run
    pub done: usize,  // walks completed
    pub at_abort: bool,
    pub events: usize,
    pub state: u32, // 1 = finished, 2 = violation
    pub class: [u8; 16],
    pub msg: [u8; 2048],
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Dec(String, [i64; 4], Obs),
    Ev(String, String, i64, i64, Obs),
    Abort,
    End,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Obs {
    pub cur: u32,
    pub stk: i64,
    pub flags: String,
    pub inflight: i64, // -1: do not compare
    pub chain: Vec<u8>, // marker codes, innermost first
    pub has: bool,
}

/// How many coroutines and stacks there may be, and one.
pub static mut SIZES: (usize, usize) = (8, 8);
pub fn maxc() -> usize {
    unsafe { SIZES.0 }
}
pub fn maxs() -> usize {
    unsafe { SIZES.1 }
}
/// The owner of values in transit.
pub const TRANSIT: u32 = 9999;

pub struct Slot {
    pub p: Option<Box<dyn CoObj>>,
    pub raw: *mut dyn CoObj,
    pub st: u8, // 0 absent, 1 present, 2 busy
}

/// The walks this process is to run, one after the other.
pub struct Queue {
    pub text: *const String,
    pub at: *const Vec<(usize, usize)>,
    pub next: usize,
    pub step: usize,
    pub left: usize,
}
pub struct Walk {
    pub id: u32,
    pub seed: u64,
    pub items: Vec<Item>,
    /// The part that is repeated: from, to, how many times more.
    pub round: (usize, usize, usize),
}

#[derive(Clone, Copy)]
pub struct TokInfo {
    pub state: u8, // 1 live, 2 dead, 3 leaked
    pub owner: u32,
    pub depth: u32,
    pub pay: u32,
}

pub struct World {
    pub sh: *mut Shared,
    pub walk: Walk,
    pub q: Queue,
    pub pos: usize,
    pub mask: u32,
    pub abort_mode: bool,
    pub silent: bool,
    pub toks: Vec<TokInfo>,
    pub transit: Option<u64>,
    pub transit_copy: bool,
    pub gone: u32,
    pub stacks: Vec<Option<Box<TStack>>>,
    pub sids: Vec<usize>,
    pub strips: Vec<(usize, u8)>,
    pub ranges: Vec<(usize, usize)>, // index = stack id, [limit, base)
    pub thr_ranges: Vec<(usize, usize)>,
    pub cos: Vec<Slot>,
    pub cur: u32,
    pub rng: u64,
    pub stash: Option<Box<dyn std::any::Any + Send>>,
    pub markers: Vec<(usize, u8)>,
    pub news: usize,
    pub trap_co: u32,
    pub nthreads: u32,
    pub par: bool, // one of several worlds that run at once
    pub handlers: Vec<Option<Box<dyn Fn(usize) -> bool + Send>>>,
    pub steps: crate::stepping::Steps,
    pub blocks: isize, // on the heap when the walk began
    pub again: u32,    // how often it was repeated
}

thread_local! {
    static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
}
pub fn set_world(p: *mut World) {
    WORLD.with(|w| w.set(p));
}
pub fn has_world() -> bool {
    WORLD.with(|w| !w.get().is_null())
}
/// The world of this thread. The threads of a walk share one and run one at a
/// time; references are short-lived.
#[inline(never)]
#[allow(clippy::mut_from_ref)]
pub fn w() -> &'static mut World {
    unsafe { &mut *std::hint::black_box(WORLD.with(|w| w.get())) }
}

// Classes of observation; bit numbers of the mask.
pub const CTRL: u32 = 1;
pub const STK: u32 = 2;
pub const FLAG: u32 = 4;
pub const CHAIN: u32 = 8;
pub const FP: u32 = 16;
pub const REG: u32 = 32;
pub const CANARY: u32 = 64;
pub const TOK: u32 = 128;
pub const PANICKING: u32 = 256;
pub const ALIGN: u32 = 512;
pub const VALUE: u32 = 1024;
pub const HOOK: u32 = 2048;
pub const UREG: u32 = 4096;
pub const BOUNDS: u32 = 8192;
pub const STATE: u32 = 16384;
pub const FREE: u32 = 32768;
pub const SIG: u32 = 65536;
/// Stop for a debugger wherever the backtrace is specified.
pub const DBG: u32 = 1 << 17;
/// chain, its length, walk, position: read by lib/debugger.py
#[no_mangle]
pub static mut HV_DEBUGGER: [usize; 4] = [0; 4];
#[no_mangle]
#[inline(never)]
pub extern "C" fn hv_debugger_stop() {
    std::hint::black_box(&raw mut HV_DEBUGGER);
}
/// Events that are compared only if their class is in the mask.
fn ignored(mask: u32, name: &str) -> bool {
    match name {
        "hook" => mask & HOOK == 0,
        "drop" | "vdrop" | "pdrop" => mask & TOK == 0,
        "free" => mask & FREE == 0,
        _ => false,
    }
}
pub fn class_name(c: u32) -> &'static str {
    match c {
        CTRL => "control",
        STK => "stack",
        FLAG => "status",
        CHAIN => "backtrace",
        FP => "framepointers",
        REG => "registers",
        CANARY => "memory",
        TOK => "objects",
        PANICKING => "panicking",
        ALIGN => "alignment",
        VALUE => "value",
        HOOK => "hook",
        UREG => "unwindregs",
        BOUNDS => "bounds",
        STATE => "stacks",
        FREE => "release",
        SIG => "signal",
        _ => "?",
    }
}

pub fn violate(class: u32, msg: &str) {
    crate::stepping::off_quiet();
    let w = w();
    if w.mask & class == 0 {
        return;
    }
    unsafe {
        let sh = &mut *w.sh;
        if sh.state == 0 {
            sh.state = 2;
            sh.pos = w.pos;
            let n = class_name(class).as_bytes();
            sh.class[..n.len()].copy_from_slice(n);
            let b = msg.as_bytes();
            let l = b.len().min(sh.msg.len() - 1);
            sh.msg[..l].copy_from_slice(&b[..l]);
        }
        libc::_exit(3);
    }
}

/// Whether only default stacks are to be used.
pub fn only_default() -> bool {
    cfg!(feature = "default-stack") && unsafe { ONLY_DEFAULT }
}
pub static mut ONLY_DEFAULT: bool = false;

impl World {
    pub fn rand(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn new_tok(&mut self, owner: u32, depth: u32, pay: u32) -> u64 {
        self.toks.push(TokInfo { state: 1, owner, depth, pay });
        self.toks.len() as u64 - 1
    }
    pub fn stack_of(&self, addr: usize) -> i64 {
        for (i, &(lo, hi)) in self.ranges.iter().enumerate() {
            if i > 0 && addr >= lo && addr < hi {
                return i as i64;
            }
        }
        let (lo, hi) = self.thr_ranges[self.cur as usize];
        if addr >= lo && addr < hi {
            0
        } else {
            -1
        }
    }
    pub fn start_next(&mut self) -> bool {
        unsafe {
            let at: &Vec<(usize, usize)> = &*self.q.at;
            if self.q.next >= at.len() || self.q.left == 0 {
                return false;
            }
            let text: &String = &*self.q.text;
            if self.par {
                // a walk that ends in an abort would take the others with it
                while at.get(self.q.next).map_or(false, |&(a, b)| text[a..b].contains("\nA")) {
                    self.q.next += self.q.step;
                }
                if self.q.next >= at.len() {
                    return false;
                }
            }
            let (a, b) = at[self.q.next];
            self.walk = crate::parse(&text[a..b]);
            (*self.sh).index = self.q.next;
            (*self.sh).pos = 0;
            self.q.next += self.q.step;
            self.q.left -= 1;
            libc::alarm(if self.walk.round.2 > 0 || maxc() > 64 { 300 } else { 30 });
        }
        self.pos = 0;
        self.toks.clear();
        self.rng = self.walk.seed.wrapping_mul(0x1234_5678_9abc_def1) ^ 0x55;
        self.news = 0;
        self.blocks = crate::heap::blocks();
        true
    }
    /// What is left on the heap once may be there for good; what is left each
    /// time the walk is repeated is lost.
    fn leaks(&mut self) {
        for h in self.handlers.iter_mut() {
            *h = None;
        }
        if self.mask & TOK == 0 || self.mask & SIG != 0 || self.par || self.toks.iter().any(|t| t.state == 3) {
            return;
        }
        if crate::heap::blocks() <= self.blocks {
            self.again = 0;
            return;
        }
        if self.again == 3 {
            violate(TOK, &format!("{} blocks of memory are lost each time", crate::heap::blocks() - self.blocks));
        }
        self.again += 1;
        self.q.next -= self.q.step;
        self.q.left += 1;
        unsafe { (*self.sh).done -= 1 };
    }
    fn idle(&self) -> bool {
        self.cur == 1
            && self.stash.is_none()
            && self.transit.is_none()
            && self.stacks.iter().all(|s| s.is_none())
            && self.cos.iter().all(|c| c.st == 0)
            && self.ranges.iter().all(|r| r.1 == 0)
    }
    fn next(&mut self) -> &Item {
        let items = &self.walk.items;
        &items[self.pos.min(items.len() - 1)]
    }
    fn advance(&mut self) {
        self.pos += 1;
        if self.pos == self.walk.round.1 && self.walk.round.2 > 0 {
            self.pos = self.walk.round.0;
            self.walk.round.2 -= 1;
        }
        unsafe {
            (*self.sh).pos = self.pos;
        }
        let mut j = self.pos;
        while matches!(self.walk.items.get(j), Some(Item::Ev(n, ..)) if ignored(self.mask, n)) {
            j += 1;
        }
        if matches!(self.walk.items.get(j), Some(Item::Abort)) {
            self.abort_mode = true;
        }
        // Whether destructors still run before the process aborts is up to the
        // compiler.
        while matches!(self.walk.items.get(j), Some(Item::Ev(n, ..)) if ignored(self.mask & !(TOK | FREE), n)) {
            j += 1;
        }
        if matches!(self.walk.items.get(j), Some(Item::Abort)) {
            unsafe { (*self.sh).at_abort = true };
        }
    }
    /// Steps over expected events that cannot be, or are not to be, observed:
    /// the destruction of plain data, and hook calls if these are not compared.
    fn skip_silent(&mut self) {
        loop {
            let copy = self.transit_copy && self.transit.is_some();
            let mask = self.mask;
            match self.next() {
                Item::Ev(n, ..) if n == "vdrop" && copy => {
                    self.transit = None;
                    self.advance();
                }
                Item::Ev(n, ..) if ignored(mask, n) => self.advance(),
                _ => return,
            }
        }
    }
}

/// The code under test reached an observable point.
#[inline(never)]
pub fn event(name: &str, s: &str, a: i64, b: i64) {
    crate::stepping::off();
    event2(name, s, a, b);
    crate::stepping::on();
}
#[inline(never)]
fn event2(name: &str, s: &str, a: i64, b: i64) {
    let w = w();
    if w.abort_mode {
        if name != "hook" && !ignored(w.mask, name) {
            violate(CTRL, &format!("execution went on to {name} {s} {a} {b} instead of aborting"));
        }
        return;
    }
    unsafe { (*w.sh).events += 1 };
    if ignored(w.mask, name) {
        if name == "vdrop" {
            w.transit = None;
        }
        return;
    }
    w.skip_silent();
    if w.abort_mode {
        return event2(name, s, a, b);
    }
    let it = w.next().clone();
    match it {
        Item::Ev(n, s2, a2, b2, obs) => {
            let fu = s == "fu"; // whose unwind it is cannot be seen
            if n != name || s2 != s || (a2 != a && !fu) || b2 != b {
                violate_any(if class_of(name) != CTRL { class_of(name) } else { class_of(&n) }, &format!("expected event {n} {s2} {a2} {b2}, observed {name} {s} {a} {b}"));
            }
            let full = matches!(name, "in" | "yld" | "ret" | "caught" | "osr" | "psr" | "trp" | "fud");
            let chain = full || name == "drop";
            observe(&obs, name, full, chain);
            crate::world::w().advance();
        }
        other => {
            violate_any(class_of(name), &format!("expected {other:?}, observed event {name} {s} {a} {b}"));
        }
    }
}
fn class_of(name: &str) -> u32 {
    match name {
        "hook" => HOOK,
        "drop" | "vdrop" | "pdrop" => TOK,
        "free" => FREE,
        _ => CTRL,
    }
}
fn violate_any(cl: u32, msg: &str) {
    // control mismatches cannot be skipped, whatever the mask
    w().mask |= cl;
    violate(cl, msg);
}

#[inline(never)]
fn observe(obs: &Obs, at: &str, flags: bool, chain: bool) {
    if !obs.has {
        return;
    }
    let w = w();
    let mut m = w.mask;
    // What takes time with each coroutine is seen to now and then in a tower.
    if maxc() > 64 && w.pos % 23 != 0 {
        m &= !(BOUNDS | CHAIN | UREG | FP | DBG);
    }
    if !arch::sp_aligned() {
        violate(ALIGN, &format!("stack pointer misaligned at {at}"));
    }
    if m & STK != 0 {
        let s = w.stack_of(arch::entry_sp());
        if s != obs.stk {
            violate(STK, &format!("at {at}: running on stack {s}, expected {}", obs.stk));
        }
    }
    if m & FLAG != 0 && flags && at == "decision" {
        let mut f = String::new();
        for i in 1..=obs.flags.len() {
            f.push(flag_of(i));
        }
        if f != obs.flags {
            violate(FLAG, &format!("at {at}: coroutine statuses {f}, expected {}", obs.flags));
        }
    }
    if m & PANICKING != 0 && at == "decision" && obs.inflight >= 0 {
        let p = std::thread::panicking();
        if p != (obs.inflight > 0) {
            violate(PANICKING, &format!("thread::panicking() is {p}, panics in flight: {}", obs.inflight));
        }
    }
    if m & BOUNDS != 0 && at == "decision" {
        bounds(w, obs);
    }
    if m & CANARY != 0 {
        crate::stacks::check_all();
    }
    if chain && m & DBG != 0 {
        unsafe {
            HV_DEBUGGER = [obs.chain.as_ptr() as usize, obs.chain.len(), (*w.sh).index, w.pos];
        }
        hv_debugger_stop();
    }
    if chain && m & (CHAIN | UREG) != 0 {
        let mut fr = Vec::with_capacity(128);
        arch::backtrace(&mut fr);
        let mut seen = Vec::with_capacity(32);
        for (f, bad) in &fr {
            if *bad != 0 {
                violate(UREG, &format!("at {at}: the unwinder restores registers wrongly in a caller (mask {bad:#x})"));
            }
            if let Some(&(_, c)) = w.markers.iter().find(|x| x.0 == *f) {
                seen.push(c);
            }
        }
        if seen != obs.chain {
            violate(CHAIN, &format!("at {at}: backtrace {}, expected {}", show(&seen), show(&obs.chain)));
        }
    }
    if chain && m & FP != 0 {
        let mut all = Vec::with_capacity(128);
        match fp_chain(w, &mut all) {
            Ok(seen) => {
                complete(w, at, &all);
                if seen != obs.chain {
                    violate(FP, &format!("at {at}: frame-pointer chain {}, expected {}", show(&seen), show(&obs.chain)));
                }
            }
            Err(e) => violate(FP, &format!("at {at}: frame-pointer chain broken: {e}, expected {}", show(&obs.chain))),
        }
    }
}
/// Whatever frames the unwinder finds, the frame pointers must lead through all
/// of them. They may show more: the record below a coroutine's first function
/// has no function of its own.
#[inline(never)]
fn complete(w: &World, at: &str, all: &[usize]) {
    let mut fr = Vec::with_capacity(128);
    arch::backtrace(&mut fr);
    let mut from = all.iter();
    let root = |f: usize| w.markers.iter().any(|x| *x == (f, b'm'));
    for (k, (f, _)) in fr.iter().enumerate().skip_while(|x| x.1 .0 != all[0]) {
        if !from.any(|x| x == f) {
            violate(FP, &format!("at {at}: frame {k} of {} is not among the frame records", fr.len()));
        }
        if root(*f) {
            return;
        }
    }
    violate(FP, &format!("at {at}: the frame records and the unwinder have nothing in common"));
}
/// Every trap handler claims exactly the addresses of its coroutine's stack.
#[inline(never)]
fn bounds(w: &mut World, obs: &Obs) {
    let sp = arch::entry_sp();
    for c in 1..maxc() {
        let sid = w.sids[c];
        if w.cos[c].st == 0 || w.ranges[sid].1 == 0 {
            continue;
        }
        let (lo, hi) = w.ranges[sid];
        let r = w.rand() as usize;
        let f = w.handlers[c].as_ref().unwrap();
        let mut ask = |x: usize| {
            let want = x >= lo && x < hi;
            if f(x) != want {
                violate(BOUNDS, &format!("the handler of coroutine {c} on {lo:#x}..{hi:#x} says {} for {x:#x}", !want));
            }
        };
        let mid = lo + (hi - lo) / 2;
        for x in [lo, lo + 1, lo - 1, lo + 4095, lo + 4096, lo + 4097, hi - 1, hi, hi + 1, hi - 4096, hi - 16, mid, 0, 1,
                  usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 15, r, lo + r % (hi - lo), hi + r % 65536, lo - r % 65536,
                  lo ^ (1 << (r % usize::BITS as usize)), hi ^ (1 << (r % usize::BITS as usize)), hi - lo, lo.wrapping_sub(hi)] {
            ask(x);
        }
        for k in 1..maxs() {
            let (l, h) = w.ranges[k];
            if h != 0 {
                for x in [l, h - 1, l + (h - l) / 2, h, l - 1] {
                    ask(x);
                }
            }
        }
        for &(l, h) in &w.thr_ranges {
            if h != 0 {
                ask(l);
                ask(h - 1);
            }
        }
        if f(sp) != (obs.stk == sid as i64) {
            violate(BOUNDS, &format!("running on stack {}, coroutine {c} on stack {sid} says {}", obs.stk, f(sp)));
        }
    }
}
pub fn show(v: &[u8]) -> String {
    String::from_utf8_lossy(v).into_owned()
}
pub fn flag_of(c: usize) -> char {
    let w = w();
    let s = &w.cos[c];
    match s.st {
        0 => '-',
        2 => 'B',
        _ => {
            let o = unsafe { &*s.raw };
            match (o.started(), o.done()) {
                (false, false) => 'F',
                (true, false) => 'S',
                (true, true) => 'D',
                (false, true) => '?',
            }
        }
    }
}

#[inline(never)]
pub fn fp_chain(w: &World, all: &mut Vec<usize>) -> Result<Vec<u8>, String> {
    let ws = core::mem::size_of::<usize>();
    let mut out = vec![];
    let mut fp = arch::fp();
    for _ in 0..100_000 {
        if fp % ws != 0 || !readable(w, fp, 2 * ws) {
            return Err(format!("record at {fp:#x} after {}", show(&out)));
        }
        let ret = unsafe { *((fp + ws) as *const usize) };
        let next = unsafe { *(fp as *const usize) };
        let f = arch::enclosing(ret.wrapping_sub(1));
        all.push(f);
        if let Some(&(_, c)) = w.markers.iter().find(|x| x.0 == f) {
            out.push(c);
            if c == b'm' {
                return Ok(out);
            }
        }
        fp = next;
    }
    Err("endless".into())
}
fn readable(w: &World, a: usize, n: usize) -> bool {
    let inn = |&(lo, hi): &(usize, usize)| a >= lo && a + n <= hi;
    if w.thr_ranges.iter().any(inn) {
        return true;
    }
    for (i, r) in w.ranges.iter().enumerate() {
        if i > 0 && inn(r) {
            // the guard page is part of the range
            return a >= r.0 + 4096;
        }
    }
    false
}

/// Asks for the next decision of the program.
#[inline(never)]
pub fn decide(env: &crate::interp::Env) -> (String, [i64; 4]) {
    crate::stepping::off();
    let r = decide2(env);
    crate::stepping::on();
    r
}
#[inline(never)]
fn decide2(env: &crate::interp::Env) -> (String, [i64; 4]) {
    let w = w();
    if w.abort_mode {
        violate(CTRL, "execution continued instead of aborting");
    }
    w.skip_silent();
    let it = w.next().clone();
    match it {
        Item::Dec(op, args, obs) => {
            observe(&obs, "decision", true, true);
            if obs.has && obs.cur != w.cur {
                violate(CTRL, "wrong thread");
            }
            crate::world::w().advance();
            (op, args)
        }
        Item::End => {
            // Nothing is alive: go on with the next walk.
            unsafe { (*w.sh).done += 1 };
            if env.kind != b'm' || !w.idle() {
                finish();
            }
            if let Some(t) = w.toks.iter().find(|t| t.state == 1 && t.owner != 0 && t.owner != TRANSIT) {
                violate(TOK, &format!("object {}.{} was never destroyed", t.owner, t.depth));
            }
            w.leaks();
            if !w.start_next() {
                if w.par {
                    crate::threads::world_done();
                }
                finish();
            }
            decide2(env)
        }
        other => {
            let cl = if let Item::Ev(n, ..) = &other { class_of(n) } else { CTRL };
            violate_any(cl, &format!("expected {other:?}, but control is back in the program"));
            unreachable!()
        }
    }
}
pub fn finish() -> ! {
    unsafe {
        (*w().sh).state = 1;
        libc::_exit(0)
    }
}
