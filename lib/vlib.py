"""Running TLC, cargo and the replay harness."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import graph
import profiles

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = os.cpu_count() or 8
STABLE = os.environ.get('VERIF_RUST', '1.99.1')


class ToolError(Exception):
    """The check itself could not be carried out."""


class Unbuildable(ToolError):
    pass


def sh(cmd, timeout=600, cwd=None, env=None, check=True):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise ToolError('timeout: %s' % ' '.join(cmd)[:200])
    if check and r.returncode != 0:
        raise ToolError('%s failed (%d):\n%s' % (' '.join(cmd)[:200], r.returncode, r.stdout[-3000:]))
    return r


def repo_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/src/**/*.rs', recursive=True)) + [REPO + '/Cargo.toml', REPO + '/build.rs']:
        if os.path.exists(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def spec_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(SPEC + '/*.tla')) + [os.path.join(VERIF, 'lib', 'graph.py'), os.path.join(VERIF, 'lib', 'profiles.py')]:
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:12]


def tlc(module, cfgtext, tag, workers=4, timeout=800, extra=(), out=None, mem='5g', env=None):
    """Runs TLC; returns (text, states, transitions). Errors of the model raise."""
    d = os.path.join(BUILD, 'tlc', '%s.%d' % (tag, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfg = os.path.join(d, 'm.cfg')
    open(cfg, 'w').write(cfgtext)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss16m', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', os.path.join(d, 'st'), '-noGenerateSpecTE', '-config', cfg] + list(extra) + \
          [os.path.join(SPEC, module + '.tla')]
    o = out or os.path.join(d, 'out')
    e = dict(os.environ)
    if env:
        e.update(env)
    with open(o, 'w') as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timeout on %s' % tag)
    tail = []
    gen = dist = 0
    viol = None
    with open(o, errors='replace') as f:
        for l in f:
            if l.startswith('"<<'):
                continue
            tail.append(l)
            m = re.match(r'(\d+) states generated, (\d+) distinct states found', l)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
    text = ''.join(tail)
    if out is None:
        shutil.rmtree(d, ignore_errors=True)
    else:
        shutil.rmtree(os.path.join(d), ignore_errors=True)
    if r.returncode != 0:
        e = ToolError('TLC on %s ended with %d:\n%s' % (tag, r.returncode, text[-3000:]))
        e.full = text
        raise e
    return text, dist, gen


_locks = {}
_glock = threading.Lock()


def walks_of(name, seed=1, workers=4):
    """The replay script that covers the state graph of a profile, and its size.
    Beside it, a script that goes round cycles of the graph."""
    with _glock:
        lock = _locks.setdefault(('walks', name), threading.Lock())
    with lock:
        d = os.path.join(BUILD, 'walks')
        os.makedirs(d, exist_ok=True)
        base = os.path.join(d, '%s.%d.%s' % (name, seed, spec_hash()))
        if os.path.exists(base + '.json'):
            return base + '.w', json.load(open(base + '.json'))
        t0 = time.time()
        raw, w = '%s.%d.out' % (base, os.getpid()), '%s.w.%d' % (base, os.getpid())
        _, states, trans = tlc('Graph', profiles.cfg(profiles.PROFILES[name]), 'g_' + name, workers=workers, out=raw)
        t1 = time.time()
        # in a process of its own, so that several can be prepared at once
        r = sh([sys.executable, os.path.join(VERIF, 'lib', 'graph.py'), raw, w, str(seed)], timeout=700)
        os.remove(raw)
        info = json.loads(r.stdout.strip().splitlines()[-1])
        info.update(profile=name, states=states, transitions=trans, tlc_seconds=round(t1 - t0, 1),
                    walk_seconds=round(time.time() - t1, 1))
        if info['covered'] != info['edges']:
            raise ToolError('walks do not cover %s: %r' % (name, info))
        os.replace(w, base + '.w')
        os.replace(w + '.r', base + '.r')
        json.dump(info, open(base + '.json', 'w'))
        return base + '.w', info


def rounds_of(name, seed=1, workers=4):
    """profile~n: cycles of the state graph of a profile, n times each."""
    name, _, most = name.partition('~')
    path, info = walks_of(name, seed, workers)
    dst = path[:-2] + '.r' + most
    tmp = '%s.%d' % (dst, os.getpid())
    with open(path[:-2] + '.r') as f, open(tmp, 'w') as g:
        for l in f:
            g.write('F %d\n' % max(min(3000, int(most)), int(most) // int(l.split()[1])) if l.startswith('F ') else l)
    os.replace(tmp, dst)
    return dst, dict(info, walks=info['rounds'], times=int(most), covered=0)


def swarm_of(name, seed=1, num=60, long=150, checked=False):
    """Random histories of a larger instance, as a replay script."""
    d = os.path.join(BUILD, 'walks')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, '%s.%d.%d.%d.%d.%s' % (name, seed, num, long, checked, spec_hash()))
    if os.path.exists(base + '.json'):
        return base + '.w', json.load(open(base + '.json'))
    t0 = time.time()
    tmp = '%s.%d.d' % (base, os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    k, calm = profiles.swarm(name, seed)
    text, _, _ = tlc('Rand', profiles.swarm_cfg(k, calm, long, checked), 's_' + name, workers=1, mem='2g',
                     extra=['-simulate', 'num=%d,file=%s/t' % (num, tmp), '-depth', str(8 * long), '-seed', str(seed * 7919 + int(name[1:]))])
    m = re.search(r'Progress: (\d+) states checked', text)
    n = steps = aborts = 0
    with open('%s.w.%d' % (base, os.getpid()), 'w') as out:
        for f in sorted(os.listdir(tmp)):
            lines, end = graph.history(os.path.join(tmp, f))
            out.write('W %d %d\n' % (n, seed * 1000003 + n) + '\n'.join(lines + [end]) + '\n')
            n += 1
            steps += len(lines)
            aborts += end == 'A'
    shutil.rmtree(tmp)
    if n != num:
        raise ToolError('%s: %d histories instead of %d' % (name, n, num))
    info = dict(profile=name, instance=k, calm=calm, walks=n, steps=steps, ending_in_abort=aborts, states=int(m.group(1)) if m else 0,
                transitions=int(m.group(1)) if m else 0, properties_checked=checked, tlc_seconds=round(time.time() - t0, 1), edges=0, covered=0)
    os.replace('%s.w.%d' % (base, os.getpid()), base + '.w')
    json.dump(info, open(base + '.json', 'w'))
    return base + '.w', info


def tower_of(name, seed=1):
    """The one behaviour of an instance of Tower, as a replay script."""
    d = os.path.join(BUILD, 'walks')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, '%s.%d.%s' % (name, seed, spec_hash()))
    if os.path.exists(base + '.json'):
        return base + '.w', json.load(open(base + '.json'))
    t0 = time.time()
    tmp = '%s.%d.o' % (base, os.getpid())
    text, n, _ = tlc('Tower', profiles.tower(name, seed), 't_' + name, workers=1, mem='3g', out=tmp)
    lines, aborts = graph.behaviour(tmp)
    os.remove(tmp)
    if not lines or len(lines) < 3 * int(name.split('.')[1]):
        raise ToolError('%s: only %d steps' % (name, len(lines)))
    with open('%s.w.%d' % (base, os.getpid()), 'w') as out:
        out.write('W 0 %d\n' % seed + '\n'.join(lines + ['A' if aborts else 'X']) + '\n')
    info = dict(profile=name, walks=1, steps=len(lines), ending_in_abort=int(aborts), states=n, transitions=n, edges=0, covered=0,
                tlc_seconds=round(time.time() - t0, 1))
    os.replace('%s.w.%d' % (base, os.getpid()), base + '.w')
    json.dump(info, open(base + '.json', 'w'))
    return base + '.w', info


def prepare(name, seed=1, workers=4, tier='quick'):
    """Replay script for a profile or a swarm instance."""
    if '~' in name:
        return rounds_of(name, seed, workers)
    if name in profiles.PROFILES:
        return walks_of(name, seed, workers)
    if name[0] == 'T':
        return tower_of(name, seed)
    if tier == 'quick':
        return swarm_of(name, seed)
    checked = int(name[1:]) % 6 == 5
    return swarm_of(name, seed, *((40, 150) if checked else (150, 300)), checked=checked)


# name: (toolchain, target, release, features)
CONFIGS = {
    'x64': (STABLE, 'x86_64-unknown-linux-gnu', False, 'unwind,default-stack'),
    'x64r': (STABLE, 'x86_64-unknown-linux-gnu', True, 'unwind,default-stack'),
    'x64s': (STABLE, 'x86_64-unknown-linux-gnu', False, 'unwind,default-stack,allshapes'),
    'x64rs': (STABLE, 'x86_64-unknown-linux-gnu', True, 'unwind,default-stack,allshapes'),
    'x86': (STABLE, 'i686-unknown-linux-gnu', False, 'unwind,default-stack'),
    'x86r': (STABLE, 'i686-unknown-linux-gnu', True, 'unwind,default-stack'),
    'x86s': (STABLE, 'i686-unknown-linux-gnu', False, 'unwind,default-stack,allshapes'),
    'x86rs': (STABLE, 'i686-unknown-linux-gnu', True, 'unwind,default-stack,allshapes'),
    'x64n': (STABLE, 'x86_64-unknown-linux-gnu', False, 'default-stack'),
    'x64nr': (STABLE, 'x86_64-unknown-linux-gnu', True, 'default-stack'),
    'x86n': (STABLE, 'i686-unknown-linux-gnu', False, 'default-stack'),
    'x86nr': (STABLE, 'i686-unknown-linux-gnu', True, 'default-stack'),
    'x64d': (STABLE, 'x86_64-unknown-linux-gnu', False, 'unwind'),
    'x64nd': (STABLE, 'x86_64-unknown-linux-gnu', False, ''),
    'x86nd': (STABLE, 'i686-unknown-linux-gnu', True, ''),
    'x64a': ('nightly', 'x86_64-unknown-linux-gnu', False, 'unwind,asm-unwind,default-stack'),
    'x86a': (STABLE, 'i686-unknown-linux-gnu', False, 'unwind,asm-unwind,default-stack'),
    'x86ar': (STABLE, 'i686-unknown-linux-gnu', True, 'unwind,asm-unwind,default-stack'),
    'x64ar': ('nightly', 'x86_64-unknown-linux-gnu', True, 'unwind,asm-unwind,default-stack'),
    'x64ai': ('nightly', 'x86_64-unknown-linux-gnu', True, 'unwind,asm-unwind,default-stack'),
    'x86ai': (STABLE, 'i686-unknown-linux-gnu', True, 'unwind,asm-unwind,default-stack'),
    # all the registers of this processor; one unit for everything, with nearly
    # everything inlined; small code
    'x64v': (STABLE, 'x86_64-unknown-linux-gnu', True, 'unwind,default-stack'),
    'x64l': (STABLE, 'x86_64-unknown-linux-gnu', True, 'unwind,default-stack'),
    'x86l': (STABLE, 'i686-unknown-linux-gnu', True, 'unwind,default-stack'),
    'x64z': (STABLE, 'x86_64-unknown-linux-gnu', True, 'unwind,default-stack'),
    'x86z': (STABLE, 'i686-unknown-linux-gnu', True, 'unwind,default-stack'),
}


def cpu_level():
    try:
        f = set(re.search(r'^flags\s*:(.*)', open('/proc/cpuinfo').read(), re.M).group(1).split())
    except (OSError, AttributeError):
        return 'x86-64'
    v3 = {'avx', 'avx2', 'bmi1', 'bmi2', 'f16c', 'fma', 'abm', 'movbe'}
    v4 = {'avx512f', 'avx512bw', 'avx512cd', 'avx512dq', 'avx512vl'}
    return 'x86-64-v4' if v3 | v4 <= f else 'x86-64-v3' if v3 <= f else 'x86-64'


# A tree need not build with these for the others to be judged.
SPARE = ('x64a', 'x64ar', 'x86a', 'x86ar', 'x64ai', 'x86ai', 'x64nd', 'x86nd', 'x64n', 'x64nr', 'x86n', 'x86nr', 'x64d',
         'x64v', 'x64l', 'x86l', 'x64z', 'x86z')


def cargo_env(toolchain, flags='-C force-frame-pointers=yes -A warnings'):
    return dict(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=toolchain, RUSTFLAGS=flags, CARGO_TERM_COLOR='never',
                CARGO_INCREMENTAL='0')


# Whether an unwinding with asm-unwind can pass a stack switch depends on where
# the optimiser inlined it (the finding asm-unwind-lsda), so the optimised builds
# are made twice: x64ar and x86ar keep the crate's functions apart, and are
# judged in full; of x64ai and x86ai, which inline freely, only what the
# destructors find in registers is judged, as far as they get.
APART = ''.join(' -C llvm-args=-inline%s-threshold=-100000' % x for x in ('', 'cold')) + ' -Z inline-mir=no'
FREELY = ('x64ai', 'x86ai')


def config_env(cfg):
    tc, _, rel, feats = CONFIGS[cfg]
    e = cargo_env(tc)
    if 'asm-unwind' in feats:
        e['RUSTC_BOOTSTRAP'] = '1'
        if rel and cfg not in FREELY:
            e['RUSTFLAGS'] += APART
    if cfg[3:] == 'v':
        e['RUSTFLAGS'] += ' -C target-cpu=' + cpu_level()
    if cfg[3:] == 'l':
        e.update(CARGO_PROFILE_RELEASE_LTO='fat', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='1')
        e['RUSTFLAGS'] += ' -C llvm-args=-inline-threshold=3000'
    if cfg[3:] == 'z':
        e['CARGO_PROFILE_RELEASE_OPT_LEVEL'] = 'z'
    return e


def build(cfg, bin='harness', crate='harness'):
    """Builds the harness against /repo's working tree."""
    tc, target, rel, feats = CONFIGS[cfg]
    with _glock:
        lock = _locks.setdefault((crate, cfg), threading.Lock())
    with lock:
        td = os.path.join(BUILD, 'cargo', crate, cfg)
        os.makedirs(td, exist_ok=True)
        # cargo goes by modification times; a tree that was put back need not be newer
        stamp, now = os.path.join(td, 'repo-hash'), repo_hash()
        if not os.path.exists(stamp) or open(stamp).read() != now:
            sh(['cargo', 'clean', '--offline', '--locked', '-p', 'corosensei', '--target', target, '--target-dir', td] +
               (['--release'] if rel else []), cwd=os.path.join(VERIF, crate), env=config_env(cfg), check=False)
            open(stamp, 'w').write(now)
        cmd = ['cargo', 'build', '--offline', '--locked', '--target', target, '--target-dir', td, '--no-default-features',
               '--features', feats, '--bin', bin] + (['--release'] if rel else []) + \
            (['--config', 'paths=["%s"]' % REPO] if REPO != '/repo' else [])
        r = sh(cmd, cwd=os.path.join(VERIF, crate), env=config_env(cfg), timeout=600, check=False)
        if r.returncode != 0:
            raise (Unbuildable if cfg in SPARE else ToolError)('building %s (%s) failed:\n%s' % (crate, cfg, r.stdout[-4000:]))
        return os.path.join(td, target, 'release' if rel else 'debug', bin)


def build_all(cfgs, ex, **k):
    """Binaries by configuration; without those that do not build and are not needed."""
    fs, out, skipped = {c: ex.submit(build, c, **k) for c in cfgs}, {}, []
    for c, f in fs.items():
        try:
            out[c] = f.result()
        except Unbuildable as e:
            print('  not built, and left out: %s' % e)
            skipped.append(c)
    if not out:
        raise ToolError('none of %s could be built' % ' '.join(cfgs))
    return out


def replay(binary, walks, mask, threads=1, procs=None, timeout=800, env=None):
    """Steps the walks through the real code. Returns (stats, violations)."""
    procs = procs or CPUS
    ps = [subprocess.Popen([binary, walks, str(mask), str(threads), str(k), str(procs)],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', env=dict(os.environ, **(env or {})))
          for k in range(procs)]
    st = dict(walks=0, events=0, aborts=0, bad=0, stepped=0, kinds=0)
    viol = []
    end = time.time() + timeout
    try:
        for k, p in enumerate(ps):
            try:
                out, _ = p.communicate(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                raise ToolError('replay timeout')
            if p.returncode != 0:
                raise ToolError('replay process ended with %d: %s' % (p.returncode, out[-500:]))
            fin = False
            for l in out.splitlines():
                f = l.split(' ', 5)
                if f[0] == 'V':
                    viol.append(dict(start=int(f[1]), index=int(f[2]), pos=int(f[3]), cls=f[4], msg=f[5], step=procs))
                elif f[0] == 'S':
                    fin = True
                    for key, x in zip(('walks', 'events', 'aborts', 'bad', 'stepped', 'kinds'), ' '.join(f[1:]).split()):
                        st[key] += int(x)
            if not fin:
                raise ToolError('replay process gave no summary')
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
    return st, viol


def cut(walks, v, dst):
    """Writes the walks from the start of the failing process to the failing one."""
    n = -1
    want = set(range(v['start'], v['index'] + 1, v['step']))
    with open(walks) as f, open(dst, 'w') as g:
        for l in f:
            if l.startswith('W '):
                n += 1
            if n in want:
                g.write(l)


def sample(walks, dst, every, limit, aborts=True):
    """Every n-th walk, or the next one that does not end in an abort."""
    text = open(walks).read()
    ws = ['W ' + x for x in ('\n' + text).split('\nW ')[1:]]
    out = []
    due = 0
    for n, w in enumerate(ws):
        if n >= due and len(out) < limit and (aborts or '\nA' not in w):
            out.append(w if w.endswith('\n') else w + '\n')
            due += every
    open(dst, 'w').write(''.join(out))


def judge(module, constants, records, tag, inv='Permitted', props='', invs_extra='', timeout=600):
    """Lets TLC judge a file of observations against a module. Returns (states, transitions, index of the bad record or None, text)."""
    cfgtext = '%sINIT Init\nNEXT Next\nINVARIANTS %s %s\n%sCHECK_DEADLOCK FALSE\n' % (
        'CONSTANTS ' + constants + '\n' if constants else '', inv, invs_extra, 'PROPERTIES %s\n' % props if props else '')
    try:
        text, dist, gen = tlc(module, cfgtext, tag, workers=1, timeout=timeout, env={'TRACE': records})
        return dist, gen, None, text
    except ToolError as e:
        text = getattr(e, 'full', '')
        if 'Invariant' in text and 'is violated' in text or 'Error: Action property' in text:
            m = re.findall(r'/\\ i = (\d+)', text)
            return 0, 0, int(m[-1]) if m else -1, text
        raise
