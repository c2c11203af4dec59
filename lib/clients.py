"""Client programs of spec/Types.tla as Rust, and what the compiler says about them."""
import json
import os
import re
import shutil
import subprocess
import vlib

HEAD = '''#![allow(warnings)]
use corosensei::*; use corosensei::stack::*; use corosensei::trap::*; use std::cell::Cell; use std::rc::Rc; use std::sync::MutexGuard; use std::marker::PhantomData;
#[cfg(feature = "ds")] pub type Sk = DefaultStack;
#[cfg(feature = "ds")] fn sk() -> Sk { Default::default() }
#[cfg(not(feature = "ds"))] pub struct Sk(usize);
#[cfg(not(feature = "ds"))] impl Drop for Sk { fn drop(&mut self) {} }
#[cfg(not(feature = "ds"))] unsafe impl Stack for Sk { fn base(&self) -> StackPointer { loop {} } fn limit(&self) -> StackPointer { loop {} } }
#[cfg(not(feature = "ds"))] fn sk() -> Sk { loop {} }
pub struct St<B>(PhantomData<B>);
unsafe impl<B> Stack for St<B> { fn base(&self) -> StackPointer { loop {} } fn limit(&self) -> StackPointer { loop {} } }
fn send<T: Send>() {} fn sync<T: Sync>() {} fn get<T>() -> T { loop {} }
fn body(y: &Yielder<(), ()>, _: ()) { y.suspend(()) }
'''
BASE = dict(all='i32', cell='Cell<i32>', rc='Rc<i32>', guard="MutexGuard<'static, i32>", dst='Sk')


def ty(t):
    k = t[0]
    if k in BASE:
        return BASE[k]
    a = [ty(x) for x in t[1:]]
    return {'st': 'St<%s>', 'ref': "&'static %s", 'mut': "&'static mut %s", 'box': 'Box<%s>', 'co': 'Coroutine<%s, %s, %s, %s>',
            'yi': 'Yielder<%s, %s>', 'th': 'CoroutineTrapHandler<%s>', 'res': 'CoroutineResult<%s, %s>'}[k] % tuple(a)


def fam_a(q, t):
    return '%s::<%s>()' % (q, ty(t))


def fam_p(api, how, t):
    call = 'on_stack(get::<Sk>(), %s)' if api == 'on_stack' else 'get::<&Yielder<(), ()>>().on_parent_stack(%s)'
    clo = {'move': 'move || { let _a = &x; }', 'ref': '|| { let _a = &x; }', 'mut': '|| { let _a = &mut x; }'}[how]
    return 'let mut x: %s = get(); %s' % (ty(t), call % clo)


def fam_b(k, api, role, b, ds):
    """Borrowed: a reference with a lifetime of the caller's choice."""
    lt = "'static" if b == 'static' else "'a"
    head = "fn f%d<'a>(x: &%s i32, s: &%s mut Sk) { %%s }" % (k, lt, lt)
    if role == 'stack':
        return head % ('let mut c = Coroutine::with_stack(s, body); c.resume(());')
    new = 'Coroutine::new(%s)' if api == 'new' and ds else 'Coroutine::with_stack(sk(), %s)'
    if api in ('new', 'with_stack'):
        t = dict(input='()', ret='()')
        t['yield'] = '()'
        if role != 'closure':
            t['ret' if role == 'return' else role] = 'Cell<&%s i32>' % lt
        b = 'move |_: &Yielder<%s, %s>, _: %s| -> %s { %s }' % (t['input'], t['yield'], t['input'], t['ret'], 'let _a = x;' if role == 'closure' else 'loop {}')
        return head % ('let mut c = %s; c.force_unwind();' % (new % b))
    if api == 'setup_trap_handler':
        return head % 'let h: CoroutineTrapHandler<()> = get(); unsafe { h.setup_trap_handler(move || { let _a = x; }); }'
    call = 'on_stack(sk(), %s)' if api == 'on_stack' else 'get::<&Yielder<(), ()>>().on_parent_stack(%s)'
    if role == 'closure':
        return head % (call % 'move || { let _a = x; }')
    return head % ('let r: &%s i32 = %s;' % (lt, call % 'move || x'))


def fam_v(c, f, t):
    def one(l):
        p = ["&'%s i32" % {'long': 'l', 'short': 's'}[x] for x in l]
        co = 'Coroutine<%s>' % ', '.join(p[:3] + [p[3].replace(' i32', ' mut Sk')]) if len(p) == 4 else ''
        return {'co': co, 'comut': "&'s mut " + co, 'coref': "&'s " + co, 'yi': "&'s Yielder<%s>" % ', '.join(p),
                'th': 'CoroutineTrapHandler<%s>' % p[0], 'res': 'CoroutineResult<%s>' % ', '.join(p)}[c]
    return (one(f), one(t))


STMT = dict(
    own='c = Coroutine::with_stack(s, body);', bor='c = Coroutine::with_stack(&mut s, body);', bo2='let mut d = Coroutine::with_stack(&mut s, body);',
    res='c.resume(());', re2='d.resume(());', shr='let r = &c;', usr='r.done();', mut='let m = &mut c;', usm='m.resume(());', drp='drop(c);',
    int='let mut t = c.into_stack();', ust='t.base();', t2c='let mut d = Coroutine::with_stack(t, body);', uss='s.base();', drs='drop(s);',
    hnd='let h = c.trap_handler();', ush='h.stack_ptr_in_bounds(0);', esc='return Some(c);')


def fam_d(late, p):
    pre = 'let mut c; let mut s = sk();' if late else 'let mut s = sk();'
    out = []
    for x in p:
        st = STMT[x]
        if x in ('own', 'bor') and not late:
            st = 'let mut ' + st
        out.append(st)
    return pre + ' ' + ' '.join(out)


CO = 'Coroutine<(), (), (), Sk>'
UNIT = dict(
    force_reset='let mut c: %s = get(); {c.force_reset()}' % CO, setup_trap_handler='let h: CoroutineTrapHandler<()> = get(); {h.setup_trap_handler(|| ());}',
    impl_stack=None, clone_coroutine='let c: %s = get(); let d: %s = c.clone();' % (CO, CO),
    clone_yielder='let y: Yielder<(), ()> = get(); let z: Yielder<(), ()> = y.clone();', clone_handler='let h: CoroutineTrapHandler<()> = get(); let k: CoroutineTrapHandler<()> = h.clone(); drop(h);',
    copy_yielder='let y: Yielder<(), ()> = get(); drop(y); drop(y);', copy_coroutine='let c: %s = get(); drop(c); drop(c);' % CO,
    make_yielder='let c: Cell<StackPointer> = get(); let y: Yielder<(), ()> = Yielder { stack_ptr: c, marker: PhantomData };',
    make_handler='let h: CoroutineTrapHandler<()> = CoroutineTrapHandler { stack_base: get(), stack_limit: get(), marker: PhantomData };',
    make_coroutine='let c: %s = Coroutine { stack: sk(), ..get() };' % CO,
    default_yielder='let y: Yielder<(), ()> = Default::default();',
    resume_inside='let mut c: %s; c = Coroutine::with_stack(sk(), |_: &Yielder<(), ()>, _: ()| { c.resume(()); }); c.resume(());' % CO,
    drop_inside='let mut c: %s; c = Coroutine::with_stack(sk(), move |_: &Yielder<(), ()>, _: ()| { drop(c); }); c.resume(());' % CO,
    leak_yielder_out='let mut o = None; let mut c = Coroutine::with_stack(sk(), |y: &Yielder<(), ()>, _: ()| { o = Some(y); }); c.resume(());',
    leak_yielder_return='let mut c = Coroutine::with_stack(sk(), |y: &Yielder<(), ()>, _: ()| -> &Yielder<(), ()> { y }); c.resume(());',
    yielder_in_yield='let mut c: Coroutine<(), &Yielder<(), ()>, (), Sk> = Coroutine::with_stack(sk(), |y, _: ()| { y.suspend(y); }); c.resume(());',
    yielder_in_nested='let mut c = Coroutine::with_stack(sk(), |y: &Yielder<(), ()>, _: ()| { let mut d = Coroutine::with_stack(sk(), move |_: &Yielder<(), ()>, _: ()| { y.suspend(()); }); d.resume(()); }); c.resume(());',
    yielder_on_stack='let mut c = Coroutine::with_stack(sk(), |y: &Yielder<(), ()>, _: ()| { on_stack(sk(), || y.suspend(())); }); c.resume(());',
    yielder_used='let mut c = Coroutine::with_stack(sk(), |y: &Yielder<i32, i32>, i: i32| { let z = y; let j = z.suspend(i); y.suspend(j) }); c.resume(1);',
    resume_shared='let mut c: %s = get(); let r = &c; r.resume(());' % CO, unwind_shared='let mut c: %s = get(); let r = &c; r.force_unwind();' % CO,
    state_shared='let c: %s = get(); let r = &c; let q = &c; r.done(); q.started(); r.trap_handler().stack_ptr_in_bounds(1); q.done();' % CO,
    field_stack_ptr='let mut c: %s = get(); c.stack_ptr = None;' % CO, field_stack='let mut c: %s = get(); let s = &mut c.stack;' % CO,
    field_yielder='let y: &Yielder<(), ()> = get(); y.stack_ptr.get();',
    wrong_input='let mut c = Coroutine::with_stack(sk(), |_: &Yielder<i32, ()>, _: i32| {}); c.resume(());',
    wrong_yield='let mut c = Coroutine::with_stack(sk(), |y: &Yielder<(), i32>, _: ()| { y.suspend("no"); }); c.resume(());',
    wrong_return='let mut c = Coroutine::with_stack(sk(), |_: &Yielder<(), ()>, _: ()| 5i32); let r: Option<String> = c.resume(()).as_return();',
    right_values='let mut c = Coroutine::with_stack(sk(), |y: &Yielder<i32, &str>, i: i32| { let j: i32 = y.suspend("yes"); i + j }); let a: Option<&str> = c.resume(1).as_yield(); let r: Option<i32> = c.resume(2).as_return();',
    resume_twice_at_once='let mut c: %s = get(); let (a, b) = (&mut c, &mut c); a.resume(()); b.resume(());' % CO,
    spawn_coroutine='let mut c: %s = get(); std::thread::spawn(move || { c.resume(()); });' % CO,
    spawn_handler='let h: CoroutineTrapHandler<Rc<i32>> = get(); std::thread::spawn(move || { h.stack_ptr_in_bounds(0); });',
    share_yielder_scope='let y: &Yielder<(), ()> = get(); std::thread::scope(|s| { s.spawn(|| { let z = y; }); });',
    share_coroutine_scope='let c: &%s = get(); std::thread::scope(|s| { s.spawn(|| { c.done(); }); });' % CO,
    parent_suspend='let mut c = Coroutine::with_stack(sk(), |y: &Yielder<(), ()>, _: ()| { y.on_parent_stack(|| y.suspend(())); }); c.resume(());',
    parent_parent='let mut c = Coroutine::with_stack(sk(), |y: &Yielder<(), ()>, _: ()| { y.on_parent_stack(|| y.on_parent_stack(|| ())); }); c.resume(());',
    parent_plain='let mut c = Coroutine::with_stack(sk(), |y: &Yielder<(), ()>, _: ()| { let mut n = 0; y.on_parent_stack(|| n += 1); n }); c.resume(());',
)


def rust(k, prog, ds):
    """One program on one line."""
    f, a = prog[0], prog[1:-1]
    if f == 'V':
        x, y = fam_v(*a)
        return "fn f%d<'l: 's, 's>(x: %s) -> %s { x }" % (k, x, y)
    if f == 'D':
        ret = 'Option<%s>' % ('Coroutine<(), (), (), Sk>' if 'bor' not in a[1] else "Coroutine<(), (), (), &'static mut Sk>")
        if 'esc' in a[1]:
            b = fam_d(*a)
            return 'fn f%d() -> %s { %s }' % (k, ret, b)
        return 'fn f%d() { %s }' % (k, fam_d(*a))
    if f == 'U':
        if a[0] == 'impl_stack':
            return 'struct I%d; %s impl Stack for I%d { fn base(&self) -> StackPointer { loop {} } fn limit(&self) -> StackPointer { loop {} } }' % (
                k, 'unsafe' if a[1] == 'unsafe' else '', k)
        b = UNIT[a[0]]
        if a[1] == 'unsafe':
            b = b.replace('{', 'unsafe {', 1)
        return 'fn f%d() { %s }' % (k, b)
    if f == 'B':
        return fam_b(k, *a, ds)
    return 'fn f%d() { %s }' % (k, dict(A=fam_a, P=fam_p)[f](*a))


def parse(raw):
    progs = []
    for l in open(raw):
        if l.startswith('"<<'):
            s = json.loads(l).replace('<<', '[').replace('>>', ']').replace('TRUE', 'true').replace('FALSE', 'false')
            progs.append(json.loads(s))
    return sorted(progs, key=json.dumps)


def compile_all(progs, d, cfg):
    """Which programs the compiler accepts. progs: list of (family group, programs)."""
    tc, target, rel, feats = vlib.CONFIGS[cfg]
    ds = 'default-stack' in feats
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'src'))
    fs = ', '.join('"%s"' % x for x in feats.split(',') if x in ('unwind', 'asm-unwind', 'default-stack'))
    # errors of one group do not keep the compiler from looking at another
    groups = {}
    for k, p in enumerate(progs):
        groups.setdefault({'A': 'a', 'P': 'a', 'U': 'u' if p[-1] else 'u%d' % k, 'B': 'b', 'V': 'v', 'D': 'd%d' % (k % 4)}[p[0]], []).append(k)
    # programs that type checking rejects would hide borrow errors next to them: one group each
    toml = '[package]\nname = "clients"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[features]\nds = []\ndefault = [%s]\n' \
           '[dependencies]\ncorosensei = { path = "%s", default-features = false, features = [%s] }\n' % ('"ds"' if ds else '', vlib.REPO, fs)
    lines = {}
    for g, ks in sorted(groups.items()):
        toml += '[[bin]]\nname = "%s"\npath = "src/%s.rs"\n' % (g, g)
        with open(os.path.join(d, 'src', g + '.rs'), 'w') as f:
            f.write(HEAD)
            n = HEAD.count('\n') + 1
            for k in ks:
                f.write(rust(k, progs[k], ds) + '\n')
                lines['src/%s.rs' % g, n] = k
                n += 1
            f.write('fn main() {}\n')
    open(os.path.join(d, 'Cargo.toml'), 'w').write(toml)
    shutil.copy(os.path.join(vlib.VERIF, 'harness', 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
    td = os.path.join(vlib.BUILD, 'cargo', 'clients', cfg)
    os.makedirs(td, exist_ok=True)
    stamp, now = os.path.join(td, 'repo-hash'), vlib.repo_hash()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        vlib.sh(['cargo', 'clean', '--offline', '-p', 'corosensei', '--target', target, '--target-dir', td], cwd=d, env=vlib.cargo_env(tc), check=False)
        open(stamp, 'w').write(now)
    e = dict(os.environ, **vlib.cargo_env(tc))
    r = subprocess.run(['cargo', 'check', '--offline', '--keep-going', '--message-format=json', '--target', target, '--target-dir', td],
                       cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=800)
    bad, seen, codes = {}, set(), {}
    for l in r.stdout.splitlines():
        if not l.startswith('{'):
            continue
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact':
            seen.add(m['target']['name'])
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
            continue
        seen.add(m['target']['name'])
        m = m['message']
        if not m['spans']:
            continue                      # "aborting due to ..."
        ls = {lines.get((s['file_name'], s['line_start'])) for s in m['spans'] if s['is_primary']}
        ls.discard(None)
        if not ls:
            raise vlib.ToolError('clients: an error outside of the programs: %s' % m['rendered'][:1500])
        for k in ls:
            bad.setdefault(k, m['rendered'])
            c = (m.get('code') or {}).get('code', '-')
            codes[c] = codes.get(c, 0) + 1
    if seen < set(groups) or 'corosensei' not in seen:
        raise (vlib.Unbuildable if cfg in vlib.SPARE and 'corosensei' not in seen else vlib.ToolError)('clients (%s): not everything was checked: %s' % (cfg, r.stderr[-3000:]))
    return bad, codes
