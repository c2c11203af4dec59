//! Many values live in registers around an operation that the compiler sees
//! through: none may depend on what the other side left in a register, or on
//! memory not having changed.
use crate::world::*;

const N: usize = if cfg!(target_arch = "x86_64") { 14 } else { 7 };
const F: usize = if cfg!(target_feature = "avx512f") {
    32
} else if cfg!(target_arch = "x86_64") {
    16
} else {
    8
};

#[repr(C)]
struct Vals {
    i: [usize; N],
    f: [f64; F],
}
#[inline(never)]
fn fill(v: &mut Vals) -> *const usize {
    let w = w();
    for x in &mut v.i {
        *x = w.rand() as usize;
    }
    for x in &mut v.f {
        *x = (w.rand() >> 12) as f64;
    }
    &raw const w.pos
}
#[inline(never)]
fn same(a: &Vals, b: &Vals) {
    let bad = a.i.iter().zip(&b.i).filter(|(x, y)| x != y).count();
    let badf = a.f.iter().zip(&b.f).filter(|(x, y)| x.to_bits() != y.to_bits()).count();
    if bad + badf != 0 {
        violate(REG, &format!("{bad} integers and {badf} floats kept over a switch changed"));
    }
}
#[inline(never)]
fn stale() {
    violate(CANARY, "memory changed by the other side has its old contents");
}

#[inline(always)]
unsafe fn copy(from: *const Vals, to: *mut Vals, op: impl FnOnce()) {
    let from = std::hint::black_box(from);
    let to = std::hint::black_box(to);
    let mut i = [0; N];
    let mut f = [0.0; F];
    macro_rules! each {
        ($m:ident $($k:literal)*) => { $( $m!($k); )* };
    }
    macro_rules! ld {
        ($k:literal) => {
            if $k < N { i[$k % N] = (&raw const (*from).i[$k % N]).read_volatile(); }
            if $k < F { f[$k % F] = (&raw const (*from).f[$k % F]).read_volatile(); }
        };
    }
    macro_rules! st {
        ($k:literal) => {
            if $k < N { (&raw mut (*to).i[$k % N]).write_volatile(i[$k % N]); }
            if $k < F { (&raw mut (*to).f[$k % F]).write_volatile(f[$k % F]); }
        };
    }
    each!(ld 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    op();
    each!(st 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
}
/// Does op, during which the walk moves on.
#[inline(always)]
pub fn press<R>(op: impl FnOnce() -> R) -> R {
    press_if(true, op)
}
#[inline(always)]
pub fn press_if<R>(moves: bool, op: impl FnOnce() -> R) -> R {
    if w().rand() % 3 == 0 {
        return kept(op);
    }
    unsafe {
        let mut a: Vals = std::mem::zeroed();
        let mut b: Vals = std::mem::zeroed();
        let pos = fill(&mut a);
        let (mut was, mut now) = (0, 0);
        let mut r = std::mem::MaybeUninit::uninit();
        copy(&a, &mut b, || {
            was = *pos;
            r.write(op());
            now = *pos;
        });
        same(&a, &b);
        if moves && was == now {
            stale();
        }
        r.assume_init()
    }
}

#[inline(never)]
fn lost() {
    violate(REG, "a destructor finds another value than was kept over a switch");
}
/// A value that its destructor wants back.
struct Keep(usize, *const usize);
impl Drop for Keep {
    #[inline(always)]
    fn drop(&mut self) {
        if self.0 != unsafe { self.1.read_volatile() } {
            lost();
        }
    }
}
/// Little more than the operation: leaves to the switch, and to whatever
/// unwinds it, what the caller keeps in registers.
#[inline(never)]
fn leaf<R>(op: impl FnOnce() -> R) -> R {
    op()
}
#[inline(never)]
fn kept<R>(op: impl FnOnce() -> R) -> R {
    unsafe {
        let mut a: Vals = std::mem::zeroed();
        fill(&mut a);
        let p = std::hint::black_box(&raw const a.i[0]);
        let _x = Keep(p.read_volatile(), p);
        let _y = Keep(p.add(1).read_volatile(), p.add(1));
        #[cfg(target_arch = "x86_64")]
        let (_z, _u) = (Keep(p.add(2).read_volatile(), p.add(2)), Keep(p.add(3).read_volatile(), p.add(3)));
        leaf(op)
    }
}
