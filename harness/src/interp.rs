//! Executes decisions with the real crate. Every frame of the specification is
//! a Rust function whose locals have the destructors the frame stands for, and
//! that can be recognised in a backtrace.
use crate::arch::{shimmed, SEED_TAG};
use crate::caps::*;
use crate::press::{press, press_if};
use crate::shapes::*;
use crate::stacks::{self, SArg};
use crate::world::*;
use corosensei::stack::Stack;
use corosensei::trap::{CoroutineTrapHandler, TrapHandlerRegs};
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

pub struct Boom;
/// What the program throws.
pub struct Pay {
    pub t: u32,
    pub serial: u64,
    canary: [u64; 3],
}
impl Pay {
    fn new(t: u32) -> Pay {
        let w = w();
        // the same number in use means that its owner was discarded
        for k in w.toks.iter_mut() {
            if k.pay == t && k.state == 1 {
                k.state = 3;
            }
        }
        let serial = w.new_tok(0, 0, t);
        Pay { t, serial, canary: [serial ^ 0x77; 3] }
    }
}
impl Drop for Pay {
    fn drop(&mut self) {
        if self.canary.iter().any(|c| *c != self.serial ^ 0x77) {
            violate(CANARY, "a panic payload is damaged");
        }
        let w = w();
        let k = &mut w.toks[self.serial as usize];
        if k.state != 1 {
            violate(TOK, "a panic payload is destroyed twice");
        }
        k.state = 2;
        if !w.silent {
            event("pdrop", "", self.t as i64, 0);
        }
    }
}
pub fn classify(p: &(dyn Any + Send)) -> (&'static str, i64) {
    classify_ref(p)
}
pub fn classify_ref(p: &dyn Any) -> (&'static str, i64) {
    if let Some(p) = p.downcast_ref::<Pay>() {
        ("user", p.t as i64)
    } else if p.is::<Boom>() {
        ("boom", 0)
    } else if p.is::<&'static str>() || p.is::<String>() {
        ("msg", 0)
    } else {
        ("fu", 0)
    }
}

pub trait Yld {
    fn suspend(&self);
    fn on_parent(&self, env: &Env, k: usize);
}
#[derive(Clone, Copy)]
pub struct Env<'a> {
    pub kind: u8,
    pub owner: u32,
    pub depth: u32,
    pub yld: Option<&'a dyn Yld>,
    pub parent: Option<&'a Env<'a>>,
}
impl<'a> Env<'a> {
    fn child(&'a self, kind: u8) -> Env<'a> {
        Env { kind, depth: self.depth + 1, parent: Some(self), ..*self }
    }
    fn same(&'a self, kind: u8) -> Env<'a> {
        Env { kind, parent: Some(self), ..*self }
    }
}
#[derive(PartialEq, Eq, Debug)]
pub enum Exit {
    End,
    Rethrow,
    Stash,
}

pub trait CoObj {
    /// 0 yielded, 1 returned
    fn resume(&mut self) -> u8;
    fn force(&mut self);
    fn started(&self) -> bool;
    fn done(&self) -> bool;
    /// The same coroutine elsewhere in memory.
    fn moved(self: Box<Self>) -> Box<dyn CoObj>;
    fn into_stack(self: Box<Self>) -> SArg;
    unsafe fn reset(&mut self);
    fn in_bounds(&self, a: usize) -> bool;
    fn claims(&self) -> Box<dyn Fn(usize) -> bool + Send>;
    unsafe fn recover(&self) -> TrapHandlerRegs;
}
struct CoBox<I: Val, Y: Val, R: Val> {
    co: Coroutine<I, Y, R, SArg>,
    th: CoroutineTrapHandler<R>,
    c: u32,
    ext: (usize, usize),
}
impl<I: Val, Y: Val, R: Val> CoObj for CoBox<I, Y, R> {
    fn resume(&mut self) -> u8 {
        let v = put::<I>();
        let r = press(|| self.co.resume(v));
        let y = matches!(r, CoroutineResult::Yield(_));
        match w().rand() % 8 {
            0 if y => got(r.as_yield().unwrap()),
            0 => got(r.as_return().unwrap()),
            1 => {
                // the other one: nothing, and the value goes
                arrives();
                let none = if y { r.as_return().is_none() } else { r.as_yield().is_none() };
                if !none {
                    violate(VALUE, "a result is both a yield and a return");
                }
                gone();
            }
            _ => match r {
                CoroutineResult::Yield(v) => got(v),
                CoroutineResult::Return(v) => got(v),
            },
        }
        !y as u8
    }
    fn force(&mut self) {
        press_if(false, || self.co.force_unwind())
    }
    fn started(&self) -> bool {
        self.co.started()
    }
    fn done(&self) -> bool {
        self.co.done()
    }
    fn moved(self: Box<Self>) -> Box<dyn CoObj> {
        let raw = Box::into_raw(self);
        unsafe {
            let mut new = Box::new(std::ptr::read(raw));
            std::ptr::write_bytes(raw, 0xee, 1);
            drop(Box::from_raw(raw as *mut std::mem::MaybeUninit<Self>));
            new.th = new.co.trap_handler();
            new
        }
    }
    fn into_stack(self: Box<Self>) -> SArg {
        let c = *self;
        press_if(false, || c.co.into_stack())
    }
    unsafe fn reset(&mut self) {
        self.co.force_reset()
    }
    fn in_bounds(&self, a: usize) -> bool {
        let (lo, hi) = self.ext;
        let r = w().rand() as usize;
        let mid = lo + r % (hi - lo);
        let far = 1usize << (r % usize::BITS as usize);
        for x in [lo, hi - 1, lo - 1, hi, 0, usize::MAX, a, mid, mid ^ far, hi ^ far, lo ^ far, r.rotate_left(32)] {
            if self.th.stack_ptr_in_bounds(x) != (x >= lo && x < hi) {
                violate(BOUNDS, &format!("stack_ptr_in_bounds({x:#x}) is wrong for a stack at {lo:#x}..{hi:#x}"));
            }
        }
        self.th.stack_ptr_in_bounds(a)
    }
    fn claims(&self) -> Box<dyn Fn(usize) -> bool + Send> {
        let h = self.co.trap_handler();
        Box::new(move |a| h.stack_ptr_in_bounds(a))
    }
    unsafe fn recover(&self) -> TrapHandlerRegs {
        let c = self.c;
        match w().rand() % 3 {
            0 => self.th.setup_trap_handler(rec::<R, K0>(c)),
            1 => self.th.setup_trap_handler(rec::<R, K4>(c)),
            _ => self.th.setup_trap_handler(rec::<R, K3>(c)),
        }
    }
}
fn rec<R: Val, K: Cap>(c: u32) -> impl FnOnce() -> R + 'static {
    let cap = InPlace(Some(K::new(Tok::new(c, 1, false))));
    move || {
        let mut cap = cap;
        let k = cap.0.take().unwrap().open();
        let mut slot = None;
        m_tr(c, k, &mut || slot = Some(put::<R>()));
        slot.unwrap()
    }
}

pub type Ctor = fn(SArg, u32, bool) -> Box<dyn CoObj>;
pub fn mk<I: Val, Y: Val, R: Val, K: Cap>(s: SArg, c: u32, pan: bool) -> Box<dyn CoObj> {
    let ext = (s.limit().get(), s.base().get());
    let cap = InPlace(Some(K::new(Tok::new(c, 1, pan))));
    let co = Coroutine::<I, Y, R, SArg>::with_stack(s, move |y: &Yielder<I, Y>, i: I| -> R {
        let mut cap = cap;
        let k = cap.0.take().unwrap().open();
        got(i);
        let mut slot = None;
        M_CO[(c as usize - 1) % 7](c, k, &YW(y), &mut || slot = Some(put::<R>()));
        slot.unwrap()
    });
    let th = co.trap_handler();
    Box::new(CoBox { co, th, c, ext })
}

struct YW<'a, I: Val, Y: Val>(&'a Yielder<I, Y>);
struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
impl<T> AssertSend<T> {
    fn get(self) -> T {
        self.0
    }
}
impl<I: Val, Y: Val> YW<'_, I, Y> {
    fn ps<K: Cap, R: Val>(&self, env: &Env) {
        let b = env.child(b'P');
        let mut e = b.child(b'c');
        e.yld = None;
        let p: *const Env = &e;
        let arg = AssertSend((p, InPlace(Some(K::new(Tok::new(e.owner, e.depth, false))))));
        let mut out = None;
        let bad = shimmed(seed(), || {
            out = Some(press(|| self.0.on_parent_stack(move || {
                let (p, mut cap) = arg.get();
                let k = cap.0.take().unwrap().open();
                let mut slot = None;
                m_ps(unsafe { &*p }, k, &mut || slot = Some(put::<R>()));
                slot.unwrap()
            })));
        });
        regs(bad, "on_parent_stack");
        got(out.unwrap());
    }
}
impl<I: Val, Y: Val> Yld for YW<'_, I, Y> {
    #[inline(never)]
    fn suspend(&self) {
        let mut out = None;
        let bad = shimmed(seed(), || {
            let v = put::<Y>();
            out = Some(press(|| self.0.suspend(v)));
        });
        got(out.unwrap());
        regs(bad, "suspend");
    }
    fn on_parent(&self, env: &Env, k: usize) {
        match k % 4 {
            0 => self.ps::<K0, Bx>(env),
            1 => self.ps::<K4, Z0>(env),
            2 => self.ps::<K2, A64>(env),
            _ => self.ps::<K5, B8>(env),
        }
    }
}
fn seed() -> usize {
    SEED_TAG | (w().rand() as usize & 0xffc0)
}
fn regs(bad: usize, op: &str) {
    if bad != 0 {
        violate(REG, &format!("{op} changed callee-saved state (mask {bad:#x})"));
    }
}

macro_rules! mark {
    ($n:literal) => {
        unsafe { core::arch::asm!(concat!("/* frame ", $n, " */"), options(nomem, nostack)) }
    };
}
macro_rules! m_co {
    ($($f:ident $n:literal),*) => {$(
        #[inline(never)]
        fn $f(c: u32, k: Tok, y: &dyn Yld, ret: &mut dyn FnMut()) {
            mark!($n);
            let env = Env { kind: b'c', owner: c, depth: 1, yld: Some(y), parent: None };
            event("in", "", c as i64, 0);
            body(&env);
            ret();
            drop(k);
            black_box(&env);
        }
    )*
    static M_CO: [fn(u32, Tok, &dyn Yld, &mut dyn FnMut()); 7] = [$($f),*];
    }
}
m_co!(m_co1 "1", m_co2 "2", m_co3 "3", m_co4 "4", m_co5 "5", m_co6 "6", m_co7 "7");

#[inline(never)]
fn m_tr(c: u32, k: Tok, ret: &mut dyn FnMut()) {
    mark!("t");
    let env = Env { kind: b't', owner: c, depth: 1, yld: None, parent: None };
    event("trp", "", c as i64, 0);
    body(&env);
    ret();
    drop(k);
    black_box(&env);
}
#[inline(never)]
fn m_os(env: &Env, k: Tok, ret: &mut dyn FnMut()) {
    mark!("o");
    body(env);
    ret();
    drop(k);
    black_box(&env);
}
#[inline(never)]
fn m_ps(env: &Env, k: Tok, ret: &mut dyn FnMut()) {
    mark!("p");
    body(env);
    ret();
    drop(k);
    black_box(&env);
}

#[inline(never)]
fn m_loc(env: &Env, pan: bool) {
    mark!("l");
    let e = env.child(b'l');
    let t = Tok::new(e.owner, e.depth, pan);
    body(&e);
    if !t.intact() {
        violate(CANARY, "a local is damaged");
    }
    drop(t);
    black_box(&e);
}
struct Act<'a> {
    t: Tok,
    env: &'a Env<'a>,
}
impl Drop for Act<'_> {
    fn drop(&mut self) {
        m_cln(self);
    }
}
#[inline(never)]
fn m_cln(a: &mut Act) {
    mark!("x");
    a.t.die();
    a.t.quiet = true;
    w().toks[a.t.serial as usize].state = 1; // dies for good with the field
    event("drop", "", a.t.owner as i64, a.t.depth as i64);
    let e = a.env.same(b'x');
    body(&e);
    black_box(&e);
}
#[inline(never)]
fn m_act(env: &Env) {
    mark!("a");
    let e = env.child(b'a');
    let a = Act { t: Tok::new(e.owner, e.depth, false), env: &e };
    body(&e);
    drop(a);
    black_box(&e);
}
#[inline(never)]
fn m_cat(env: &Env) {
    mark!("k");
    let e = env.child(b'k');
    if let Err(p) = catch_unwind(AssertUnwindSafe(|| {
        body(&e);
    })) {
        let (k, t) = classify(&*p);
        event("caught", k, t, 0);
        m_got(&env.child(b'g'), p);
    }
    black_box(&e);
}
#[inline(never)]
fn m_got(e: &Env, p: Box<dyn Any + Send>) {
    mark!("g");
    match body(e) {
        Exit::End => drop(p),
        Exit::Rethrow => resume_unwind(p),
        Exit::Stash => w().stash = Some(p),
    }
    black_box(&e);
}
struct Hold(usize);
impl Drop for Hold {
    fn drop(&mut self) {
        m_drop(self.0);
    }
}
#[inline(never)]
fn m_hold(env: &Env, c: usize) {
    mark!("h");
    let e = env.child(b'h');
    let g = Hold(c);
    body(&e);
    drop(g);
    black_box(&e);
}

struct Busy(usize, u8);
impl Busy {
    fn new(c: usize, after: u8) -> Busy {
        w().cos[c].st = 2;
        Busy(c, after)
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        w().cos[self.0].st = self.1;
    }
}
#[inline(never)]
fn m_resume(c: usize) -> u8 {
    mark!("r");
    let g = Busy::new(c, 1);
    let p = w().cos[c].raw;
    let mut out = 9;
    let bad = shimmed(seed(), || out = unsafe { (*p).resume() });
    drop(g);
    regs(bad, "resume");
    out
}
#[inline(never)]
fn m_force(c: usize) {
    mark!("f");
    let g = Busy::new(c, 1);
    let p = w().cos[c].raw;
    let bad = shimmed(seed(), || unsafe { (*p).force() });
    drop(g);
    regs(bad, "force_unwind");
}
#[inline(never)]
fn m_drop(c: usize) {
    mark!("d");
    let g = Busy::new(c, 0);
    let p = w().cos[c].p.take();
    let bad = shimmed(seed(), || drop(p));
    drop(g);
    regs(bad, "drop");
}
#[inline(never)]
fn m_into(c: usize) -> SArg {
    mark!("i");
    let g = Busy::new(c, 0);
    let p = w().cos[c].p.take().unwrap();
    let mut out = None;
    let bad = shimmed(seed(), || out = Some(p.into_stack()));
    drop(g);
    regs(bad, "into_stack");
    out.unwrap()
}
fn os_go<K: Cap, R: Val>(env: &Env, s: SArg) {
    let b = env.child(b'O');
    let e = b.child(b'c');
    let cap = InPlace(Some(K::new(Tok::new(e.owner, e.depth, false))));
    let er = &e;
    let mut out = None;
    let bad = shimmed(seed(), || {
        out = Some(press(|| corosensei::on_stack(s, move || {
            let mut cap = cap;
            let k = cap.0.take().unwrap().open();
            let mut slot = None;
            m_os(er, k, &mut || slot = Some(put::<R>()));
            slot.unwrap()
        })));
    });
    regs(bad, "on_stack");
    got(out.unwrap());
}
#[inline(never)]
fn m_on_stack(env: &Env, s: SArg) {
    mark!("O");
    match w().rand() % 4 {
        0 => os_go::<K0, Bx>(env, s),
        1 => os_go::<K4, Z0>(env, s),
        2 => os_go::<K2, A64>(env, s),
        _ => os_go::<K7, B17>(env, s),
    }
    black_box(env);
}
#[inline(never)]
fn m_on_parent(env: &Env) {
    mark!("P");
    env.yld.unwrap().on_parent(env, w().rand() as usize);
    black_box(env);
}

/// Takes decisions until the innermost frame ends.
#[inline(never)]
pub fn body(env: &Env) -> Exit {
    let canary = black_box([w().rand() | 1; 6]);
    let copy = canary[3];
    loop {
        let (op, a) = decide(env);
        let c = a[0] as usize;
        match op.as_str() {
            "MkStack" => stacks::make(c),
            "RmStack" => drop(w().stacks[c].take()),
            "New" => {
                let s = stacks::take(a[1] as usize, a[2] == 1);
                let w = w();
                let k = (w.news + w.rng as usize) % crate::combos::COMBOS.len();
                w.news += 1;
                w.sids[c] = a[1] as usize;
                let mut p = crate::combos::COMBOS[k](s, c as u32, a[3] == 1);
                crate::world::w().handlers[c] = Some(p.claims());
                let slot = &mut crate::world::w().cos[c];
                slot.raw = unsafe { std::mem::transmute::<&mut dyn CoObj, *mut dyn CoObj>(&mut *p) };
                slot.p = Some(p);
                slot.st = 1;
            }
            "Resume" => {
                move_sometimes(c);
                let r = m_resume(c);
                event(if r == 0 { "yld" } else { "ret" }, "", c as i64, 0);
            }
            "Suspend" => {
                env.yld.unwrap().suspend();
                event("in", "", env.owner as i64, 0);
            }
            "OnStack" => {
                m_on_stack(env, stacks::take(c, a[1] == 1));
                event("osr", "", 0, 0);
            }
            "OnParent" => {
                m_on_parent(env);
                event("psr", "", 0, 0);
            }
            "Loc" => m_loc(env, a[0] == 1),
            "Act" => m_act(env),
            "Catch" => m_cat(env),
            "Hold" => m_hold(env, c),
            "End" | "Return" | "EndOs" | "EndPs" => {
                check(&canary, copy);
                return Exit::End;
            }
            "Rethrow" => return Exit::Rethrow,
            "Stash" => return Exit::Stash,
            "Throw" => {
                let p = w().stash.take().unwrap();
                resume_unwind(p)
            }
            "Panic" => panic_any(Pay::new(a[0] as u32)),
            "Force" => {
                move_sometimes(c);
                m_force(c);
                event("fud", "", c as i64, 0);
            }
            "Drop" => {
                move_sometimes(c);
                m_drop(c)
            }
            "IntoStack" => {
                move_sometimes(c);
                let id = unsafe { &*w().cos[c].raw }.done();
                let sid = sid_of(c);
                let s = m_into(c);
                if !id {
                    violate(CTRL, "into_stack returned for a coroutine that is not done");
                }
                stacks::back(s, sid);
                event("isk", "", c as i64, 0);
            }
            "Reset" => {
                discard(c as u32);
                move_sometimes(c);
                unsafe { (*w().cos[c].raw).reset() };
            }
            "Trap" => {
                discard(c as u32);
                crate::trapping::trap(c);
            }
            "Switch" => crate::threads::switch_to(c as u32),
            o => panic!("unknown decision {o}"),
        }
        check(&canary, copy);
    }
}
fn move_sometimes(c: usize) {
    if w().rand() % 4 == 0 {
        let slot = &mut w().cos[c];
        if let Some(p) = slot.p.take() {
            let mut p = p.moved();
            slot.raw = unsafe { std::mem::transmute::<&mut dyn CoObj, *mut dyn CoObj>(&mut *p) };
            slot.p = Some(p);
        }
    }
}
#[inline(never)]
fn check(c: &[u64; 6], v: u64) {
    if c.iter().any(|x| *x != v) {
        violate(CANARY, "a local of the program is damaged");
    }
}
fn sid_of(c: usize) -> usize {
    w().sids[c]
}
/// The objects of c are given up without destruction.
fn discard(c: u32) {
    for t in w().toks.iter_mut() {
        if t.owner == c && t.state == 1 {
            t.state = 3;
        }
    }
}
#[inline(never)]
pub fn m_root(t: u32) {
    mark!("m");
    let env = Env { kind: b'm', owner: 9000 + t, depth: 0, yld: None, parent: None };
    loop {
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| {
            body(&env);
        })) {
            let (k, t) = classify(&*p);
            event("top", k, t, 0);
            let w = w();
            w.silent = true;
            drop(p);
            w.silent = false;
        }
        black_box(&env);
    }
}
pub fn markers() -> Vec<(usize, u8)> {
    let mut v: Vec<(usize, u8)> = (0..7).map(|i| (M_CO[i] as usize, b'1' + i as u8)).collect();
    v.extend([
        (m_tr as usize, b't'),
        (m_os as usize, b'o'),
        (m_ps as usize, b'p'),
        (m_loc as usize, b'l'),
        (m_cln as usize, b'x'),
        (m_act as usize, b'a'),
        (m_cat as usize, b'k'),
        (m_got as usize, b'g'),
        (m_hold as usize, b'h'),
        (m_resume as usize, b'r'),
        (m_force as usize, b'f'),
        (m_drop as usize, b'd'),
        (m_into as usize, b'i'),
        (m_on_stack as usize, b'O'),
        (m_on_parent as usize, b'P'),
        (m_root as usize, b'm'),
    ]);
    v
}
