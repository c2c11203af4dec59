//! Runs histories of operations on default stacks and writes down what
//! happened to the address space (see spec/StackMem.tla).
#[cfg(not(feature = "default-stack"))]
fn main() {}
#[cfg(feature = "default-stack")]
fn main() {
    real::main()
}
#[cfg(feature = "default-stack")]
mod real {
    use corosensei::stack::{DefaultStack, Stack};
    use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
    use libc::{c_int, c_void};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::ptr::null_mut;

    const PG: usize = 4096;

    // ---------------------------------------------------- system calls
    static mut ARMED: u8 = 0; // 1: mmap, 2: mprotect
    static mut HIT: u8 = 0;
    static mut MARK: bool = false;

    fn mark(s: &str) {
        unsafe {
            if MARK {
                let mut b = [0u8; 64];
                b[..3].copy_from_slice(b"@@ ");
                b[3..3 + s.len()].copy_from_slice(s.as_bytes());
                b[3 + s.len()] = b'\n';
                libc::write(2, b.as_ptr().cast(), 4 + s.len());
            }
        }
    }
    unsafe fn fails(which: u8) -> bool {
        if ARMED == which {
            HIT = 1;
            *libc::__errno_location() = libc::ENOMEM;
            return true;
        }
        false
    }
    unsafe fn do_mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
        if f & libc::MAP_ANONYMOUS != 0 && fails(1) {
            return libc::MAP_FAILED;
        }
        #[cfg(target_arch = "x86_64")]
        let r = libc::syscall(libc::SYS_mmap, a, n, p, f, fd, o) as *mut c_void;
        #[cfg(target_arch = "x86")]
        let r = libc::syscall(libc::SYS_mmap2, a, n, p, f, fd, (o >> 12) as i32) as *mut c_void;
        mark("mmap");
        r
    }
    #[no_mangle]
    unsafe extern "C" fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: libc::off_t) -> *mut c_void {
        do_mmap(a, n, p, f, fd, o as i64)
    }
    #[no_mangle]
    unsafe extern "C" fn mmap64(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
        do_mmap(a, n, p, f, fd, o)
    }
    #[no_mangle]
    unsafe extern "C" fn munmap(a: *mut c_void, n: usize) -> c_int {
        mark("munmap");
        libc::syscall(libc::SYS_munmap, a, n) as c_int
    }
    #[no_mangle]
    unsafe extern "C" fn mprotect(a: *mut c_void, n: usize, p: c_int) -> c_int {
        if fails(2) {
            return -1;
        }
        libc::syscall(libc::SYS_mprotect, a, n, p) as c_int
    }

    // ------------------------------------------------------------ maps
    const MAXM: usize = 4096;
    #[derive(Clone, Copy)]
    struct Snap {
        n: usize,
        e: [(usize, usize, u8); MAXM],
    }
    static mut SNAPS: [Snap; 2] = [Snap { n: 0, e: [(0, 0, 0); MAXM] }; 2];
    static mut TEXT: [u8; 1 << 19] = [0; 1 << 19];

    /// Reads the mappings without allocating.
    #[allow(static_mut_refs)]
    unsafe fn snap(k: usize) {
        let s = &mut SNAPS[k];
        s.n = 0;
        let fd = libc::open(c"/proc/self/maps".as_ptr(), libc::O_RDONLY);
        let mut len = 0;
        loop {
            let r = libc::read(fd, TEXT.as_mut_ptr().add(len).cast(), TEXT.len() - len);
            if r <= 0 {
                break;
            }
            len += r as usize;
        }
        libc::close(fd);
        for l in TEXT[..len].split(|c| *c == b'\n') {
            if l.is_empty() || l.ends_with(b"[heap]") || l.ends_with(b"[stack]") {
                continue;
            }
            let mut v = [0usize; 2];
            let (mut f, mut i) = (0, 0);
            while l[i] != b' ' {
                match l[i] {
                    b'-' => f = 1,
                    c => v[f] = v[f] * 16 + (c as char).to_digit(16).unwrap() as usize,
                }
                i += 1;
            }
            let p = (l[i + 1] == b'r') as u8 | ((l[i + 2] == b'w') as u8) << 1 | ((l[i + 3] == b'x') as u8) << 2 | ((l[i + 4] == b's') as u8) << 3;
            if s.n > 0 && s.e[s.n - 1].1 == v[0] && s.e[s.n - 1].2 == p {
                s.e[s.n - 1].1 = v[1];
            } else {
                s.e[s.n] = (v[0], v[1], p);
                s.n += 1;
            }
        }
    }
    fn at(s: &Snap, a: usize) -> Option<(usize, usize, u8)> {
        let k = s.e[..s.n].partition_point(|e| e.1 <= a);
        s.e[..s.n].get(k).copied().filter(|e| e.0 <= a)
    }
    /// Ranges mapped in `a` but not in `b`, and the number of ranges whose protection differs.
    fn diff(a: &Snap, b: &Snap) -> (Vec<(usize, usize)>, usize) {
        let mut out: Vec<(usize, usize)> = vec![];
        let mut changed = 0;
        for &(lo, hi, p) in &a.e[..a.n] {
            let mut x = lo;
            while x < hi {
                // the next piece of [x,hi) that is uniform in b
                let (end, other) = match at(b, x) {
                    Some(e) => (e.1.min(hi), Some(e.2)),
                    None => (b.e[..b.n].get(b.e[..b.n].partition_point(|e| e.0 <= x)).map_or(hi, |e| e.0.min(hi)), None),
                };
                match other {
                    None => match out.last_mut() {
                        Some(l) if l.1 == x => l.1 = end,
                        _ => out.push((x, end)),
                    },
                    Some(q) if q != p => changed += 1,
                    _ => (),
                }
                x = end;
            }
        }
        (out, changed)
    }

    // ---------------------------------------------------------- probes
    static mut PIPE: [c_int; 2] = [0; 2];
    #[allow(static_mut_refs)]
    fn readable(a: usize) -> bool {
        unsafe {
            let mut b = 0u8;
            libc::write(PIPE[1], a as *const c_void, 1) == 1 && libc::read(PIPE[0], (&raw mut b).cast(), 1) == 1
        }
    }
    #[allow(static_mut_refs)]
    fn writable(a: usize) -> bool {
        unsafe {
            let mut b = 0x77u8;
            libc::write(PIPE[1], (&raw const b).cast(), 1);
            if libc::read(PIPE[0], a as *mut c_void, 1) == 1 {
                return *(a as *const u8) == 0x77;
            }
            libc::read(PIPE[0], (&raw mut b).cast(), 1);
            false
        }
    }

    struct Live {
        st: Option<DefaultStack>,
        base: usize,
        limit: usize,
        tag: u8,
        fill: Vec<(usize, usize)>,
    }
    impl Live {
        fn fill(&self) {
            for &(a, n) in &self.fill {
                for k in 0..n / 8 {
                    unsafe { ((a + k * 8) as *mut u64).write((a + k * 8) as u64 ^ (self.tag as u64) << 40) }
                }
            }
        }
        fn intact(&self) -> bool {
            self.fill.iter().all(|&(a, n)| (0..n / 8).all(|k| unsafe { ((a + k * 8) as *const u64).read() == (a + k * 8) as u64 ^ (self.tag as u64) << 40 }))
        }
        fn stable(&self) -> bool {
            self.st.as_ref().is_none_or(|s| s.base().get() == self.base && s.limit().get() == self.limit)
        }
    }

    fn size_of(kind: &str, pg: usize, rem: usize) -> usize {
        match kind {
            "n" => pg * PG + rem,
            "big" => match pg {
                1 => 1 << 30,
                2 => (1 << 31) - 65536,
                4 if usize::BITS == 64 => (6u64 << 30) as usize,
                4 => 768 << 20,
                _ if usize::BITS == 64 => (1u64 << 40) as usize,
                _ => 3 << 30,
            },
            "huge" => usize::MAX - pg * PG - rem,
            "half" => isize::MAX as usize - pg * PG - rem,
            _ => 1 << 20,
        }
    }

    static mut LIVE: i32 = 0;
    struct Counted;
    impl Drop for Counted {
        fn drop(&mut self) {
            unsafe { LIVE -= 1 }
        }
    }
    /// The stack that Coroutine::new makes for itself.
    fn by_new() -> DefaultStack {
        unsafe { LIVE += 1 };
        let k = Counted;
        let mut c = Coroutine::<u32, (), u32>::new(move |_, i| {
            let _k = k;
            i + 7
        });
        if !matches!(c.resume(3), CoroutineResult::Return(10)) {
            unsafe { LIVE = 9 }
        }
        c.into_stack()
    }

    fn use_in_coroutine(st: DefaultStack, how: usize) -> Option<DefaultStack> {
        let mut c = Coroutine::<u32, u32, u32, DefaultStack>::with_stack(st, |y: &Yielder<u32, u32>, i| {
            let j = y.suspend(i + 1);
            j + 1
        });
        if how == 1 {
            return None; // fresh
        }
        assert!(matches!(c.resume(3), CoroutineResult::Yield(4)));
        if how == 2 {
            return None; // suspended
        }
        assert!(matches!(c.resume(5), CoroutineResult::Return(6)));
        if how == 3 {
            return None; // done
        }
        Some(c.into_stack())
    }

    /// A copy of this process has its own copy of the stack: it finds there
    /// what was written, and what it writes is not seen here.
    fn copied(l: &Live) -> bool {
        unsafe {
            let p = libc::fork();
            if p == 0 {
                let ok = l.intact();
                for &(a, n) in &l.fill {
                    (a as *mut u8).write_bytes(0x5a, n);
                }
                libc::_exit(if ok { 7 } else { 8 });
            }
            let mut st = 0;
            p > 0 && libc::waitpid(p, &mut st, 0) == p && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 7 && l.intact()
        }
    }

    fn rel(a: usize) -> i64 {
        unsafe {
            if REF == 0 {
                REF = a / PG;
            }
            ((a / PG) as i64 - REF as i64).clamp(-(1 << 30), 1 << 30)
        }
    }
    static mut REF: usize = 0;

    /// The other thread: operations are done here or there.
    struct Job(Option<&'static mut (dyn FnMut() + 'static)>);
    unsafe impl Send for Job {}
    static JOB: std::sync::Mutex<Job> = std::sync::Mutex::new(Job(None));
    static TURN: std::sync::Condvar = std::sync::Condvar::new();
    fn other_thread() {
        unsafe { libc::mallopt(libc::M_ARENA_MAX, 1) };
        std::thread::spawn(|| loop {
            let mut g = JOB.lock().unwrap();
            while g.0.is_none() {
                g = TURN.wait(g).unwrap();
            }
            g.0.as_mut().unwrap()();
            g.0 = None;
            TURN.notify_all();
        });
    }
    fn at_place(there: bool, f: &mut dyn FnMut()) {
        if !there {
            return f();
        }
        let mut g = JOB.lock().unwrap();
        g.0 = Some(unsafe { std::mem::transmute::<&mut dyn FnMut(), &'static mut (dyn FnMut() + 'static)>(f) });
        TURN.notify_all();
        while g.0.is_some() {
            g = TURN.wait(g).unwrap();
        }
    }
    fn list(v: &[(usize, usize)]) -> String {
        let s: Vec<String> = v.iter().map(|&(a, b)| format!("[{},{}]", rel(a), rel(b))).collect();
        format!("[{}]", s.join(","))
    }

    #[allow(static_mut_refs)]
    unsafe fn history(text: &str, vg: bool) {
        let mut live: Vec<Option<Live>> = (0..1024).map(|_| None).collect();
        let mut serial = 0usize;
        let mut ops: Vec<(String, usize, String, usize, usize, u8)> = vec![];
        for l in text.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            ops.push((f[0].into(), f[1].parse().unwrap(), f[2].into(), f[3].parse().unwrap(), f[4].parse().unwrap(),
                      match f[5] { "mmap" => 1, "mprotect" => 2, _ => 0 }));
        }
        let mut it = ops.into_iter();
        let mut closing = false;
        loop {
            let (op, id, kind, pg, rem, fault) = match it.next() {
                Some(o) => o,
                None => {
                    closing = true;
                    match live.iter().position(|l| l.is_some()) {
                        Some(k) => ("drop".to_string(), k, "n".to_string(), 0, 0, 0),
                        None => break,
                    }
                }
            };
            let _ = closing;
            if op == "new" && live[id].is_some() || op != "new" && live[id].is_none() {
                continue; // a "big" one that did or did not come to be
            }
            serial += 1;
            let size = size_of(&kind, pg, rem);
            let (mut out, mut lo, mut hi) = ("ok", 0usize, 0usize);
            let mut fresh = None;
            let mut cur = live[id].take();
            let how = if cur.as_ref().is_some_and(|c| c.base - c.limit > 100 * 1024) { 1 + serial % 3 } else { 1 + 2 * (serial % 2) };
            snap(0);
            HIT = 0;
            mark("B");
            at_place(serial % 3 == 1 || serial % 7 == 2, &mut || match op.as_str() {
                "new" => {
                    ARMED = fault;
                    let r = catch_unwind(AssertUnwindSafe(|| match (kind.as_str(), pg) {
                        ("dflt", 0) => Ok(DefaultStack::default()),
                        ("dflt", _) => Ok(by_new()),
                        _ => DefaultStack::new(size),
                    }));
                    if LIVE != 0 {
                        out = "lost"; // the closure was not destroyed exactly once
                        LIVE = 0;
                    }
                    ARMED = 0;
                    match r {
                        Ok(Ok(s)) => fresh = Some(s),
                        Ok(Err(_)) => out = "err",
                        Err(e) => {
                            out = "panic";
                            drop(e)
                        }
                    }
                }
                "drop" => drop(cur.as_mut().unwrap().st.take()),
                "spend" => {
                    let s = cur.as_mut().unwrap().st.take().unwrap();
                    if catch_unwind(AssertUnwindSafe(|| use_in_coroutine(s, how))).is_err() {
                        out = "panic"
                    }
                }
                "use" => {
                    let s = cur.as_mut().unwrap().st.take().unwrap();
                    match catch_unwind(AssertUnwindSafe(|| use_in_coroutine(s, 0))) {
                        Ok(s) => cur.as_mut().unwrap().st = s,
                        Err(_) => out = "panic",
                    }
                }
                _ => {
                    let s = cur.as_mut().unwrap().st.as_mut().unwrap();
                    let v = std::hint::black_box(5);
                    if on_stack(s, move || v + 1) != 6 {
                        out = "panic"
                    }
                }
            });
            mark("E");
            snap(1);
            let (added, c1) = diff(&SNAPS[1], &SNAPS[0]);
            let (removed, c2) = diff(&SNAPS[0], &SNAPS[1]);
            let mut runs = vec![];
            let (mut low, mut top, mut guard, mut stable, mut copy) = (1, 1, 0, 1, 1);
            if let Some(s) = fresh {
                let (b, l) = (s.base().get(), s.limit().get());
                (lo, hi) = (l / PG * PG, b.div_ceil(PG) * PG);
                let s = Box::new(s); // somewhere else
                if s.base().get() != b || s.limit().get() != l {
                    stable = 0;
                }
                let mut x = lo;
                while x < hi && runs.len() < 20 {
                    let (end, k) = match at(&SNAPS[1], x) {
                        Some(e) => (e.1.min(hi), match e.2 & 7 { 0 => "none", 3 => "rw", _ => "other" }),
                        None => (hi, "hole"),
                    };
                    runs.push((end - x, k, x));
                    x = end;
                }
                let want = size.max(4096);
                if !vg {
                    low = writable(b.wrapping_sub(want)) as u32;
                    top = writable(b - 1) as u32;
                    guard = runs.iter().filter(|r| r.1 == "none").any(|r| {
                        let mut p: Vec<usize> = vec![r.2, r.2 + r.0 - 1];
                        p.extend((0..r.0 / PG).take(64).map(|k| r.2 + k * PG + 9));
                        p.into_iter().any(|a| readable(a))
                    }) as u32;
                }
                let mut fill = vec![];
                if let Some(r) = runs.last() {
                    if r.1 == "rw" {
                        let top = r.0.min(65536);
                        fill.push((b - top, top));
                        if r.0 > top {
                            fill.push((b - r.0, PG));
                        }
                    }
                }
                let n = Live { st: Some(*s), base: b, limit: l, tag: serial as u8, fill };
                n.fill();
                if !vg {
                    copy = copied(&n) as u32;
                }
                cur = Some(n);
            }
            if let Some(c) = cur {
                if c.st.is_some() {
                    (lo, hi) = (c.st.as_ref().unwrap().limit().get() / PG * PG, c.st.as_ref().unwrap().base().get().div_ceil(PG) * PG);
                    c.fill();
                    live[id] = Some(c);
                } else if op == "drop" || op == "spend" {
                    live[id] = None;
                }
            }
            let pat = live.iter().flatten().all(|l| l.intact());
            if !live.iter().flatten().all(|l| l.stable()) {
                stable = 0
            }
            let (b, l) = live[id].as_ref().map_or((0, 0), |c| (c.base, c.limit));
            let rs: Vec<String> = runs.iter().map(|r| format!("[{},\"{}\"]", (r.0 / PG).min(1 << 30), r.1)).collect();
            println!(
                "{{\"op\":\"{op}\",\"id\":{id},\"kind\":\"{kind}\",\"pg\":{pg},\"rem\":{rem},\"fault\":{fault},\"hit\":{HIT},\"out\":\"{out}\",\"lo\":{},\"hi\":{},\"lorem\":{},\"hirem\":{},\"runs\":[{}],\"low\":{low},\"top\":{top},\"guard\":{guard},\"copy\":{copy},\"added\":{},\"removed\":{},\"changed\":{},\"pat\":{},\"stable\":{stable},\"vg\":[],\"ref\":\"{REF}\"}}",
                rel(lo), rel(hi), l % PG, b % PG, rs.join(","), list(&added), list(&removed), c1.max(c2), pat as u32
            );
        }
    }

    #[allow(static_mut_refs)]
    pub fn main() {
        let a: Vec<String> = std::env::args().collect();
        unsafe {
            libc::pipe(PIPE.as_mut_ptr());
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::alarm(600);
            std::panic::set_hook(Box::new(|_| {}));
            // everything that is set up on first use
            let _ = catch_unwind(|| panic!("{}", 1));
            #[cfg(feature = "unwind")]
            {
                drop(use_in_coroutine(DefaultStack::new(1 << 20).unwrap(), 2));
            }
            other_thread();
            for _ in 0..3 {
                at_place(true, &mut || {
                    let _ = catch_unwind(|| panic!("{}", 1));
                    #[cfg(feature = "unwind")]
                    drop(use_in_coroutine(DefaultStack::new(1 << 20).unwrap(), 2));
                });
            }
            println!();
            let vg = a.len() > 2;
            rel(DefaultStack::new(1 << 20).unwrap().base().get());
            let text = std::fs::read_to_string(&a[1]).unwrap();
            MARK = vg;
            for h in text.split("\n\n") {
                history(h, vg);
            }
        }
        let _ = null_mut::<u8>();
    }
}
