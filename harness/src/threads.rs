//! Threads of a walk run one at a time and pass the turn explicitly.
use crate::world::w;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

static TURN: Mutex<u32> = Mutex::new(1);
static CV: Condvar = Condvar::new();

fn wait(me: u32) {
    let mut g = TURN.lock().unwrap();
    while *g != me {
        g = CV.wait(g).unwrap();
    }
}
#[inline(never)]
pub fn switch_to(t: u32) {
    let me = w().cur;
    w().cur = t;
    *TURN.lock().unwrap() = t;
    CV.notify_all();
    wait(me);
}
/// The extent of the calling thread's stack.
pub fn extent() -> (usize, usize) {
    unsafe {
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        assert!(libc::pthread_getattr_np(libc::pthread_self(), &mut a) == 0);
        let mut p = std::ptr::null_mut();
        let mut n = 0;
        libc::pthread_attr_getstack(&a, &mut p, &mut n);
        libc::pthread_attr_destroy(&mut a);
        (p as usize, p as usize + n)
    }
}
type Body = Box<dyn FnOnce() + Send>;
/// A thread on a stack of its own or, if `odd`, on one placed elsewhere than
/// where the system puts them.
fn start(odd: bool, f: Body) {
    const N: usize = 1 << 20;
    if !odd {
        std::thread::Builder::new().stack_size(N).spawn(f).unwrap();
        return;
    }
    extern "C" fn main(p: *mut libc::c_void) -> *mut libc::c_void {
        unsafe { Box::from_raw(p as *mut Body)() };
        std::ptr::null_mut()
    }
    unsafe {
        let m = crate::stacks::somewhere(N + 4096);
        assert!(libc::mprotect((m + 4096) as *mut _, N, libc::PROT_READ | libc::PROT_WRITE) == 0);
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut a);
        assert!(libc::pthread_attr_setstack(&mut a, (m + 4096) as *mut _, N) == 0);
        let mut t = std::mem::zeroed();
        assert!(libc::pthread_create(&mut t, &a, main, Box::into_raw(Box::new(f)) as *mut _) == 0);
    }
}
struct Late(std::cell::Cell<Option<Body>>);
impl Drop for Late {
    fn drop(&mut self) {
        self.0.take().unwrap()()
    }
}
/// Whatever the crate keeps for a thread is there once it has been used.
fn used() {
    #[cfg(feature = "default-stack")]
    {
        use corosensei::{stack::DefaultStack, Coroutine, Yielder};
        let make = || {
            Coroutine::<u8, u8, u8>::with_stack(DefaultStack::new(65536).unwrap(), |y: &Yielder<u8, u8>, i| {
                y.on_parent_stack(|| ());
                let j = y.suspend(i);
                if j == 9 {
                    std::panic::panic_any(5u8);
                }
                j
            })
        };
        let mut a = make();
        a.resume(1);
        a.resume(2);
        corosensei::on_stack(a.into_stack(), || ());
        #[cfg(feature = "unwind")]
        {
            std::panic::set_hook(Box::new(|_| ()));
            let mut b = make();
            b.resume(3);
            assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.resume(9))).is_err());
            let mut c = make();
            c.resume(3);
        }
    }
}
/// Runs `f` in the destructor of a thread-local of a new thread, where others
/// are gone already.
pub fn at_exit(f: Body) -> ! {
    thread_local! {
        static L: Late = const { Late(std::cell::Cell::new(None)) };
    }
    std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            L.with(|l| l.0.set(Some(f)));
            used();
        })
        .unwrap();
    loop {
        std::thread::park();
    }
}
pub fn spawn(t: u32) {
    let (tx, rx) = std::sync::mpsc::channel();
    let p = w() as *mut _ as usize;
    start(
        t % 2 == 0,
        Box::new(move || {
            crate::trapping::altstack();
            crate::world::set_world(p as *mut _);
            w().thr_ranges[t as usize] = extent();
            tx.send(()).unwrap();
            wait(t);
            crate::interp::m_root(t);
        }),
    );
    rx.recv().unwrap();
}

static DONE: AtomicUsize = AtomicUsize::new(0);
/// This world has no more walks to run.
pub fn world_done() -> ! {
    DONE.fetch_add(1, Ordering::SeqCst);
    loop {
        std::thread::park();
    }
}
/// Runs several worlds at once, each on a thread of its own.
pub fn parallel(ws: Vec<usize>) {
    let n = ws.len();
    let go = std::sync::Arc::new(std::sync::Barrier::new(n));
    for (i, p) in ws.into_iter().enumerate() {
        let go = go.clone();
        start(
            i % 2 == 0,
            Box::new(move || {
                crate::trapping::altstack();
                crate::world::set_world(p as *mut _);
                w().thr_ranges[1] = extent();
                go.wait();
                if !w().start_next() {
                    world_done();
                }
                crate::interp::m_root(1);
            }),
        );
    }
    while DONE.load(Ordering::SeqCst) < n {
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}
