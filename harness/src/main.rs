#![allow(dead_code, function_casts_as_integer, clippy::all)]
mod arch;
mod caps;
mod combos;
mod heap;
mod interp;
mod press;
mod shapes;
mod stacks;
mod stepping;
mod threads;
mod trapping;
mod world;

use std::io::Write;
use world::*;

pub const STACK_SIZE: usize = 256 * 1024;

/// The script is kept as text; a walk is parsed by the process that runs it.
pub struct Script {
    pub text: String,
    pub at: Vec<(usize, usize)>,
}
fn index(path: &str) -> Script {
    let text = std::fs::read_to_string(path).expect("script");
    let mut at: Vec<(usize, usize)> = vec![];
    let mut pos = 0;
    for l in text.split_inclusive('\n') {
        if l.starts_with("W ") {
            at.push((pos, pos));
        }
        pos += l.len();
        if let Some(x) = at.last_mut() {
            x.1 = pos;
        }
    }
    // the flags in an observation tell how many coroutines there are
    let n = text.split_once('|').and_then(|x| x.1.split(' ').nth(2)).map_or(0, |x| x.len());
    if n > 7 {
        unsafe { world::SIZES = (n + 1, 2 * n + 8) };
    }
    Script { text, at }
}
pub fn parse(txt: &str) -> Walk {
    let mut out = Walk { id: 0, seed: 0, items: vec![], round: (0, 0, 0) };
    for l in txt.lines() {
        let (head, obs) = l.split_once('|').unwrap_or((l, ""));
        let f: Vec<&str> = head.split_whitespace().collect();
        let n = |i: usize| f.get(i).map_or(0, |x| x.parse::<i64>().unwrap_or(0));
        let o = || {
            let g: Vec<&str> = obs.split_whitespace().collect();
            if g.len() < 5 {
                return Obs::default();
            }
            Obs {
                cur: g[0].parse().unwrap(),
                stk: g[1].parse().unwrap(),
                flags: g[2].into(),
                inflight: g[3].parse().unwrap(),
                chain: g[4].bytes().collect(),
                has: true,
            }
        };
        match f.first() {
            Some(&"W") => {
                out.id = n(1) as u32;
                out.seed = n(2) as u64;
            }
            Some(&"D") => out.items.push(Item::Dec(f[1].into(), [n(2), n(3), n(4), n(5)], o())),
            Some(&"E") => {
                let s = if f[2] == "-" { "" } else { f[2] };
                out.items.push(Item::Ev(f[1].into(), s.into(), n(3), n(4), o()))
            }
            Some(&"B") => out.round.0 = out.items.len(),
            Some(&"F") => {
                out.round.1 = out.items.len();
                out.round.2 = n(1) as usize - 1;
            }
            Some(&"A") => out.items.push(Item::Abort),
            Some(&"X") => out.items.push(Item::End),
            _ => {}
        }
    }
    out
}

struct NoObj;
impl interp::CoObj for NoObj {
    fn resume(&mut self) -> u8 {
        unreachable!()
    }
    fn force(&mut self) {}
    fn started(&self) -> bool {
        false
    }
    fn done(&self) -> bool {
        false
    }
    fn moved(self: Box<Self>) -> Box<dyn interp::CoObj> {
        unreachable!()
    }
    fn into_stack(self: Box<Self>) -> stacks::SArg {
        unreachable!()
    }
    unsafe fn reset(&mut self) {}
    fn in_bounds(&self, _: usize) -> bool {
        false
    }
    fn claims(&self) -> Box<dyn Fn(usize) -> bool + Send> {
        unreachable!()
    }
    unsafe fn recover(&self) -> corosensei::trap::TrapHandlerRegs {
        unreachable!()
    }
}

fn world(q: Queue, sh: *mut Shared, mask: u32, nthreads: u32, par: bool) -> &'static mut World {
    unsafe {
        Box::leak(Box::new(World {
            sh,
            walk: Walk { id: 0, seed: 0, items: vec![Item::End], round: (0, 0, 0) },
            q,
            pos: 0,
            mask,
            abort_mode: false,
            silent: false,
            toks: Vec::with_capacity(1024),
            transit: None,
            transit_copy: false,
            gone: 0,
            stacks: (0..maxs()).map(|_| None).collect(),
            strips: vec![(0, 0); maxs()],
            ranges: vec![(0, 0); maxs()],
            sids: vec![0; maxc()],
            thr_ranges: vec![(0, 0); 8],
            cos: (0..maxc())
                .map(|_| Slot { p: None, raw: Box::leak(Box::new(NoObj)) as *mut NoObj as *mut dyn interp::CoObj, st: 0 })
                .collect(),
            cur: 1,
            rng: 0,
            stash: None,
            markers: interp::markers(),
            news: 0,
            trap_co: 0,
            nthreads,
            par,
            handlers: (0..maxc()).map(|_| None).collect(),
            steps: Default::default(),
            blocks: 0,
            again: 0,
        }))
    }
}
fn hook() {
    std::panic::set_hook(Box::new(|i| {
        if has_world() {
            let (k, t) = interp::classify_ref(i.payload());
            if k == "msg" && std::env::var_os("HV_ERR").is_some() {
                eprintln!("{i}");
            }
            event("hook", k, t, 0);
        }
    }));
}
fn child(q: Queue, sh: *mut Shared, mask: u32, nthreads: u32) -> ! {
    if std::env::var("HV_CTX").is_ok_and(|x| x == "exit") {
        struct S(Queue, *mut Shared);
        unsafe impl Send for S {}
        let s = S(q, sh);
        threads::at_exit(Box::new(move || {
            let s = s;
            let S(q, sh) = s;
            trapping::altstack();
            root(q, sh, mask, nthreads)
        }));
    }
    root(q, sh, mask, nthreads)
}
fn root(q: Queue, sh: *mut Shared, mask: u32, nthreads: u32) -> ! {
    unsafe {
        let w = world(q, sh, mask, nthreads, false);
        w.thr_ranges[1] = threads::extent();
        set_world(w);
        for t in 2..=nthreads {
            threads::spawn(t);
        }
        hook();
        if mask & SIG != 0 {
            stepping::install();
        }
        if !w.start_next() {
            libc::_exit(9);
        }
        interp::m_root(1);
        libc::_exit(9)
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: harness SCRIPT MASK THREADS K N");
        std::process::exit(2);
    }
    let mask: u32 = a[2].parse().unwrap();
    let nthreads: u32 = a[3].parse().unwrap();
    let (k, n): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let script = index(&a[1]);
    unsafe {
        world::ONLY_DEFAULT = std::env::var_os("HV_DEFAULT").is_some();
        let sh = libc::mmap(
            std::ptr::null_mut(),
            4096 * 16,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut Shared;
        assert!(sh as isize != -1);
        trapping::install();
        trapping::altstack();
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        let (mut ran, mut events, mut bad, mut aborts) = (0usize, 0usize, 0usize, 0usize);
        let out = std::io::stdout();
        if nthreads >= 10 {
            parallel(&script, sh, mask, nthreads as usize - 10, k, n);
            return;
        }
        if mask & world::DBG != 0 {
            // a debugger follows this very process
            let q = Queue { text: &script.text, at: &script.at, next: k, step: n, left: usize::MAX };
            child(q, sh, mask, nthreads);
        }
        let mut next = k;
        while next < script.at.len() {
            std::ptr::write_bytes(sh, 0, 1);
            let from = next;
            let q = Queue { text: &script.text, at: &script.at, next, step: n, left: 64 };
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                if let Some(v) = std::env::var("HV_STEP").ok() {
                    let f: Vec<u16> = v.split(',').map(|x| x.parse().unwrap()).collect();
                    stepping::CHEAP = f[0];
                    stepping::DEAR = f[1];
                }
                if std::env::var_os("HV_ERR").is_none() {
                    libc::dup2(null, 2);
                }
                child(q, sh, mask, nthreads);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            let s = &*sh;
            ran += s.done;
            next = s.index + n;
            events += s.events;
            let text = |b: &[u8]| String::from_utf8_lossy(&b[..b.iter().position(|x| *x == 0).unwrap_or(b.len())]).into_owned();
            let must_abort = s.at_abort;
            let v = if s.state == 2 {
                Some((text(&s.class), text(&s.msg)))
            } else if libc::WIFSIGNALED(st) {
                let g = libc::WTERMSIG(st);
                if must_abort && (g == libc::SIGABRT || g == libc::SIGILL || g == libc::SIGTRAP) {
                    aborts += 1;
                    ran += 1;
                    None
                } else if g == libc::SIGALRM {
                    Some(("control".into(), "no progress (hang)".into()))
                } else {
                    Some(("control".into(), format!("process died with signal {g}")))
                }
            } else if s.state == 1 && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                None
            } else {
                Some(("control".into(), format!("process ended with status {st:#x}")))
            };
            if let Some((c, m)) = v {
                bad += if m.contains("hang") { 5 } else { 1 };
                let mut o = out.lock();
                writeln!(o, "V {} {} {} {} {}", from, s.index, s.pos, c, m.replace('\n', " ")).unwrap();
                if bad >= 5 {
                    break;
                }
            }
        }
        let t = (sh as *const u8).add(4096) as *const [u16; 4096];
        let stepped: usize = (*t).iter().map(|x| *x as usize).sum();
        let kinds = (*t).iter().filter(|x| **x > 0).count();
        println!("S {ran} {events} {aborts} {bad} {stepped} {kinds}");
    }
}

/// Worlds with walks of their own, several at a time in one process.
unsafe fn parallel(script: &Script, sh: *mut Shared, mask: u32, p: usize, k: usize, n: usize) {
    let (mut ran, mut events) = (0, 0);
    let at = |i: usize| (sh as *mut u8).add(4096 * i) as *mut Shared;
    std::ptr::write_bytes(sh as *mut u8, 0, 4096 * 16);
    let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
    let pid = libc::fork();
    assert!(pid >= 0);
    if pid == 0 {
        if std::env::var_os("HV_ERR").is_none() {
            libc::dup2(null, 2);
        }
        hook();
        let ws = (0..p)
            .map(|i| {
                let q = Queue { text: &script.text, at: &script.at, next: k + i * n, step: n * p, left: usize::MAX };
                world(q, at(i), mask, 1, true) as *mut World as usize
            })
            .collect();
        threads::parallel(ws);
        libc::_exit(0);
    }
    let mut st = 0;
    while libc::waitpid(pid, &mut st, 0) < 0 {}
    let text = |b: &[u8]| String::from_utf8_lossy(&b[..b.iter().position(|x| *x == 0).unwrap_or(b.len())]).into_owned();
    let mut bad = 0;
    for i in 0..p {
        let s = &*at(i);
        ran += s.done;
        events += s.events;
        if s.state == 2 {
            bad += 1;
            println!("V {} {} {} {} {}", k, s.index, s.pos, text(&s.class), text(&s.msg).replace('\n', " "));
        }
    }
    if bad == 0 && st != 0 {
        bad += 1;
        println!("V {} {} {} control process ended with status {st:#x}", k, (*sh).index, (*sh).pos);
    }
    println!("S {ran} {events} 0 {bad}");
}
