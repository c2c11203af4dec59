//! Known findings, one per argument; exits 0 if the defect is gone.
use corosensei::{Coroutine, Yielder};
use std::cell::Cell;
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// Unwinding through an inline-assembly switch in a frame that has destructors
// of its own elsewhere, in optimised code.
struct D;
impl Drop for D {
    fn drop(&mut self) {
        black_box(1);
    }
}
#[inline(never)]
fn noisy(_: &D) {
    if black_box(false) {
        panic!()
    }
}
#[inline(never)]
fn helper(y: &Yielder<(), ()>, _n: usize) {
    y.suspend(());
    {
        let d = D;
        noisy(&d);
    }
}
fn lsda() {
    let mut co = Coroutine::<(), (), ()>::new(|y, ()| helper(y, black_box(3)));
    co.resume(());
    drop(co);
}

// An unwinding that a destructor suspends and that is resumed from elsewhere.
struct S<'a>(&'a Yielder<(), u32>, Rc<Cell<u32>>);
impl Drop for S<'_> {
    fn drop(&mut self) {
        self.0.suspend(2);
        self.1.set(self.1.get() + 1);
    }
}
#[inline(never)]
fn resume_at<const N: usize>(co: &mut Coroutine<(), u32, ()>) {
    let pad = black_box([1u8; N]);
    co.resume(());
    black_box(&pad);
}
fn pend1<const N: usize>() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let mut co = Coroutine::<(), u32, ()>::new(move |y, ()| {
        let _s = S(y, m);
        y.suspend(1);
    });
    co.resume(());
    // refused: the destructor suspends
    assert!(catch_unwind(AssertUnwindSafe(|| co.force_unwind())).is_err());
    assert!(!co.done());
    let _ = catch_unwind(AssertUnwindSafe(|| resume_at::<N>(&mut co)));
    assert!(co.done() && n.get() == 1);
}
fn forked(f: fn()) {
    unsafe {
        let p = libc::fork();
        if p == 0 {
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(p, &mut st, 0);
        if st != 0 {
            libc::abort();
        }
    }
}
fn pend() {
    macro_rules! all { ($($n:literal)*) => { $(forked(pend1::<$n>);)* } }
    all!(0 16 32 48 64 80 96 112 128 144 160 176 192 208 224 240 256 272 288 304 320 336 352 368 384 400
         416 432 448 464 480 496 512 528 544 560 576 592 608 624 640 656 672 688 704 720 736 752 768 784);
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &lim) };
    match std::env::args().nth(1).as_deref() {
        Some("lsda") => lsda(),
        Some("pend") => pend(),
        _ => std::process::exit(2),
    }
    println!("gone");
}
