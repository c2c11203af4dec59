"""Parts of checks that are not replays of Coro.tla."""
import json
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
import clients
import profiles
import vlib
from vlib import BUILD, CPUS, ToolError


def findings_c26(run):
    for key, arg, cfg in (('asm-unwind-lsda', 'lsda', 'x64ar'), ('asm-unwind-pend', 'pend', 'x64a')):
        try:
            b = vlib.build(cfg, bin='findings')
        except vlib.Unbuildable:
            continue
        r = subprocess.run([b, arg], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        if r.returncode != 0:
            run.findings.append(key)


def builds(cfgs, bin):
    with ThreadPoolExecutor(3) as ex:
        return vlib.build_all(cfgs, ex, bin=bin)


def workdir(run):
    d = os.path.join(BUILD, 'work', run.prop)
    os.makedirs(d, exist_ok=True)
    return d


def bad_record(run, tag, records, i, why):
    """Keeps the offending observation."""
    d = os.path.join(BUILD, 'violations')
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, '%s.%s.txt' % (run.prop, tag))
    line = open(records).read().splitlines()[i - 1] if i and i > 0 else '?'
    open(dst, 'w').write('property %s, %s: %s\nobserved: %s\n' % (run.prop, tag, why, line))
    run.violation('%s: %s: %s' % (tag, why, line[:300]), dst)


# ---------------------------------------------------------------- placement
def place(run):
    d = workdir(run)
    raw = os.path.join(d, 'cases.out')
    cfgs = ['x64', 'x64r', 'x86r'] if run.tier == 'quick' else ['x64', 'x64r', 'x86', 'x86r', 'x64n', 'x64a']
    with ThreadPoolExecutor(1) as ex:
        fb = ex.submit(builds, cfgs, 'place')
        _, states, trans = vlib.tlc('Place', 'CONSTANT Mode="gen"\nINIT Init\nNEXT Next\nINVARIANTS DesignInv\nCHECK_DEADLOCK FALSE\n',
                                    'place', out=raw)
        bins = fb.result()
        cfgs = [c for c in cfgs if c in bins]
    run.model('Place', states, trans)
    cases = sorted('%s %s %s %s' % m.groups() for m in
                   (re.match(r'<<"C", (\d+), (\d+), "(\w+)", (\d+)>>', l) for l in open(raw)) if m)
    os.remove(raw)
    path = os.path.join(d, 'cases')
    open(path, 'w').write('\n'.join(cases) + '\n')
    run.sample('placement case (size align act residue): ' + cases[len(cases) // 3])

    def one(c):
        ps = [subprocess.Popen([bins[c], path, str(k), '3'], stdout=subprocess.PIPE, text=True) for k in range(3)]
        txt = ''.join(p.communicate(timeout=600)[0] for p in ps)
        rec = os.path.join(d, 'rec.' + c)
        open(rec, 'w').write(txt)
        n = len(txt.splitlines())
        if n != len(cases):
            raise ToolError('placement: %d records for %d cases' % (n, len(cases)))
        return rec, n, vlib.judge('Place', 'Mode="check"', rec, 'place_' + c)

    with ThreadPoolExecutor(3) as ex:
        for c, (rec, n, (st, tr, bad, _)) in zip(cfgs, ex.map(one, cfgs)):
            run.traces += n
            run.events += n
            run.part(module='Place', config=c, cases=n, judged_states=st)
            if bad is not None:
                bad_record(run, 'place.' + c, rec, bad, 'Place!Allowed rejects the observation')
            run.model('Place', st, tr)


# ------------------------------------------------- default stacks in memory
FEW, MANY = '{1,2,3,4}', '{%s}' % ','.join(str(x) for x in range(1, 401))


def histories(run, num, depth, seed, tag, mode='gen'):
    """Traces of StackMem in a generation mode, as lines for the mem program."""
    d = os.path.join(workdir(run), 'h.' + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    text, _, _ = vlib.tlc('StackMem', 'CONSTANTS Mode="%s" Ids=%s Vg=0 Bits=64\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                          % (mode, FEW if mode == 'gen' else MANY),
                          'smgen' + tag, workers=1, extra=['-simulate', 'num=%d,file=%s/t' % (num, d), '-depth', str(depth), '-seed', str(seed)])
    hs = []
    for f in sorted(os.listdir(d)):
        ops = re.findall(r'/\\ op = <<"(\w+)", (\d+), "(\w+)", (\d+), (\d+), "(\w+)">>', open(os.path.join(d, f)).read())
        hs.append('\n'.join(' '.join(o) for o in ops))
    shutil.rmtree(d)
    if len(hs) != num:
        raise ToolError('StackMem: %d histories instead of %d' % (len(hs), num))
    return hs


def parts(hs, n):
    return ['\n\n'.join(hs[k::n]) for k in range(n)]


def crash(run, tag, rc, recs):
    rec = os.path.join(workdir(run), 'crash.' + tag)
    open(rec, 'w').write(recs)
    bad_record(run, tag, rec, len(recs.splitlines()), 'the process ended with %d after this observation' % rc)


def stackmem(run):
    quick = run.tier == 'quick'
    cfgs = ['x64', 'x64r', 'x86', 'x86r'] if quick else ['x64', 'x64r', 'x86', 'x86r', 'x64n', 'x86nr', 'x64a']
    n = 4
    with ThreadPoolExecutor(1 + n) as ex:
        fb = ex.submit(builds, cfgs, 'mem')
        hs = sum(ex.map(lambda k: histories(run, 30 if quick else 300, 60 if quick else 120, run.seed * 100 + k, 'm%d' % k), range(n)), [])
        many = histories(run, 1 if quick else 4, 700, run.seed * 100 + 11, 'w', 'wide')
        bins = fb.result()
        cfgs = [c for c in cfgs if c in bins]
    paths = []
    for k, t in enumerate(parts(hs, 2) + ['\n\n'.join(many)]):
        paths.append(os.path.join(workdir(run), 'hist.%d' % k))
        open(paths[-1], 'w').write(t)
    run.sample('history of a default stack (op id kind pages bytes fault): ' + hs[0].replace('\n', '; ')[:200])

    def one(a):
        c, k = a
        r = subprocess.run([bins[c], paths[k]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=700)
        txt = r.stdout.lstrip('\n')
        rec = os.path.join(workdir(run), 'mem.%s.%d' % (c, k))
        open(rec, 'w').write(txt)
        j = vlib.judge('StackMem', 'Mode="check" Ids=%s Vg=0 Bits=%d' % (MANY if k == 2 else FEW, 32 if 'x86' in c else 64), rec, 'mem_%s_%d' % (c, k), invs_extra='Apart')
        return c, k, r.returncode, txt, rec, j

    with ThreadPoolExecutor(vlib.CPUS) as ex:
        for c, k, rc, txt, rec, (st, tr, bad, _) in ex.map(one, [(c, k) for c in cfgs for k in range(3)]):
            run.traces += len(many) if k == 2 else len(hs) // 2
            run.events += len(txt.splitlines())
            run.part(module='StackMem', config=c, records=len(txt.splitlines()), judged_states=st)
            if bad is not None:
                bad_record(run, 'mem.%s.%d' % (c, k), rec, bad, 'StackMem rejects the observation')
            elif rc:
                crash(run, 'mem.%s.%d' % (c, k), rc, txt)
            run.model('StackMem', st, tr)


def vg_merge(txt, err):
    """Adds Valgrind's view of each operation to its record."""
    recs = [json.loads(l) for l in txt.splitlines() if l]
    ref = int(recs[0]['ref']) if recs else 0

    def page(s):
        a = int(s, 16)
        return a // 4096 - ref if a % 4096 == 0 else 1 << 30

    groups, cur = [], None
    for l in err.splitlines():
        if l == '@@ B':
            cur = []
        elif l == '@@ E':
            groups.append(cur)
            cur = None
        elif cur is not None:
            m = re.match(r'--\d+:2:\s+stacks\s+(register|deregister|change)\b(.*)', l)
            if l.startswith('@@ '):
                cur.append([l[3:], 0, 0, 0])
            elif m and m.group(1) == 'register':
                r = re.search(r'\[(0x[0-9A-Fa-f]+)-(0x[0-9A-Fa-f]+)\] as stack (\d+)', m.group(2))
                cur.append(['reg', page(r.group(1)), page(r.group(2)), int(r.group(3))])
            elif m and m.group(1) == 'deregister':
                cur.append(['dereg', 0, 0, int(re.search(r'(\d+)', m.group(2)).group(1))])
    for r, g in zip(recs, groups):
        r['vg'] = g
    return recs, len(groups)


def valgrind_stacks(run):
    quick = run.tier == 'quick'
    cfgs = ['x64', 'x64r', 'x86r'] if quick else ['x64', 'x64r', 'x86', 'x86r', 'x64n', 'x64a']
    n = 2
    with ThreadPoolExecutor(1 + n) as ex:
        fb = ex.submit(builds, cfgs, 'mem')
        hs = sum(ex.map(lambda k: histories(run, 25 if quick else 200, 60 if quick else 120, run.seed * 100 + 50 + k, 'v%d' % k), range(n)), [])
        many = histories(run, 1, 260, run.seed * 100 + 12, 'vw', 'wide')
        bins = fb.result()
        cfgs = [c for c in cfgs if c in bins]
    hs += many
    path = os.path.join(workdir(run), 'hist')
    open(path, 'w').write('\n\n'.join(hs))

    def one(c):
        r = subprocess.run(['valgrind', '--tool=none', '-q', '-d', '-d', bins[c], path, 'vg'], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors='replace', timeout=700)
        recs, groups = vg_merge(r.stdout, r.stderr)
        rec = os.path.join(workdir(run), 'vg.' + c)
        open(rec, 'w').write(''.join(json.dumps(x) + '\n' for x in recs))
        if r.returncode == 0 and (groups != len(recs) or not any(x['vg'] for x in recs)):
            raise ToolError('valgrind log: %d groups for %d records' % (groups, len(recs)))
        j = vlib.judge('StackMem', 'Mode="check" Ids=%s Vg=1 Bits=%d' % (MANY, 32 if 'x86' in c else 64), rec, 'vg_' + c, invs_extra='Apart')
        return c, r.returncode, rec, len(recs), j

    with ThreadPoolExecutor(vlib.CPUS) as ex:
        for c, rc, rec, n, (st, tr, bad, _) in ex.map(one, cfgs):
            run.traces += len(hs)
            run.events += n
            run.part(module='StackMem (Valgrind)', config=c, records=n, judged_states=st)
            if bad is not None:
                bad_record(run, 'vg.' + c, rec, bad, 'StackMem rejects what Valgrind was told')
            elif rc:
                crash(run, 'vg.' + c, rc, open(rec).read())
            run.model('StackMem', st, tr)


def memcheck(run):
    """Walks of Coro.tla, on default stacks only, watched by memcheck."""
    quick = run.tier == 'quick'
    profs = ['ctl', 'ctlos', 'hold', 'panic', 'ps'] if quick else ['ctl', 'ctlact', 'ctlos', 'hold', 'holdc', 'panic', 'deep', 'act', 'osn', 'ps', 'ps2', 'pan']
    cfgs = ['x64', 'x64r']  # memcheck for i686 cannot start here (no symbols for its ld.so)
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(builds, cfgs, 'harness')
        ws = dict(zip(profs, ex.map(lambda p: vlib.walks_of(p, run.seed, 3), profs)))
        bins = fb.result()
        cfgs = [c for c in cfgs if c in bins]

    def one(a):
        c, p = a
        w, info = ws[p]
        dst = os.path.join(workdir(run), 'mc.%s.%s.w' % (p, c))
        k = 40 if quick else 400
        vlib.sample(w, dst, max(1, info['walks'] // k), k)
        r = subprocess.run(['valgrind', '--smc-check=none', bins[c], dst, '65535', '11', '0', '1'], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors='replace', timeout=700, env=dict(os.environ, HV_DEFAULT='1'))
        m = re.search(r'^S (\d+) (\d+)', r.stdout, re.M)
        sums = re.findall(r'ERROR SUMMARY: (\d+) errors', r.stderr)
        if not m or not sums:
            raise ToolError('memcheck: %d %s' % (r.returncode, r.stderr[-400:]))
        bad = [l for l in r.stderr.splitlines() if 'switching stacks' in l]
        v = re.search(r'^V .*', r.stdout, re.M)
        log = os.path.join(workdir(run), 'mc.%s.%s.log' % (p, c))
        open(log, 'w').write(r.stdout + r.stderr)
        why = 'Valgrind: ' + bad[0] if bad else 'Valgrind reports errors' if any(x != '0' for x in sums) else v.group(0) if v else None
        return c, p, int(m.group(1)), int(m.group(2)), why, log

    with ThreadPoolExecutor(vlib.CPUS) as ex:
        for c, p, n, ev, why, log in ex.map(one, [(c, p) for c in cfgs for p in profs]):
            run.traces += n
            run.events += ev
            run.part(module='Coro (memcheck)', config=c, profile=p, walks=n, events=ev)
            if why:
                d = os.path.join(BUILD, 'violations')
                os.makedirs(d, exist_ok=True)
                dst = os.path.join(d, 'C22.%s.%s.log' % (p, c))
                shutil.copy(log, dst)
                run.violation('%s %s: %s' % (c, p, why), dst)


# ------------------------------------------------------------- the debugger
def debugger(run):
    """GDB reads the same unwind information, by rules of its own."""
    quick = run.tier == 'quick'
    profs = ['ctlos', 'act', 'trapos', 'ps', 'hold', 'R1', 'R4'] if quick else \
        ['ctl', 'ctlact', 'ctlos', 'act', 'actp', 'actos', 'actps', 'hold', 'holdc', 'osn', 'osps', 'ps2', 'trap', 'trapos', 'panic', 'deep'] + ['R%d' % i for i in range(8)]
    cfgs = ['x64', 'x64r'] if quick else ['x64', 'x64r', 'x86']
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(builds, cfgs, 'harness')
        ws = dict(zip(profs, ex.map(lambda p: vlib.prepare(p, run.seed, 3), profs)))
        bins = fb.result()
        cfgs = [c for c in cfgs if c in bins]
    os.makedirs(os.path.join(BUILD, 'violations'), exist_ok=True)

    def one(a):
        c, p = a
        w, info = ws[p]
        dst = os.path.join(BUILD, 'violations', 'gdb.%s.%s.%s.w' % (run.prop, p, c))
        out = dst + '.out'
        k = 40 if quick else 600
        if p in vlib.profiles.PROFILES:
            vlib.sample(w, dst, max(1, info['walks'] // k), k, aborts=False)
        else:
            vlib.sample(w, dst, 1, 3 if quick else 30, aborts=False)
        r = subprocess.run(['gdb', '-q', '-nx', '-batch', '-x', os.path.join(vlib.VERIF, 'lib', 'debugger.py'),
                            '--args', bins[c], dst, str(1 << 17), '1', '0', '1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, text=True, errors='replace', timeout=800, env=dict(os.environ, HV_GDB_OUT=out, DEBUGINFOD_URLS=''))
        res = open(out).read().splitlines() if os.path.exists(out) else []
        if not res or not res[-1].startswith('S '):
            raise ToolError('gdb: %d %s' % (r.returncode, r.stdout[-600:]))
        n, bad, code = map(int, res[-1].split()[1:])
        if not bad:
            os.remove(dst)
        os.remove(out)
        return c, p, n, code, res[0] if bad else None, dst

    with ThreadPoolExecutor(vlib.CPUS) as ex:
        for c, p, n, code, why, dst in ex.map(one, [(c, p) for c in cfgs for p in profs]):
            run.events += n
            run.part(module='Coro (backtraces by GDB)', config=c, profile=p, stops=n)
            if why:
                open(dst + '.txt', 'w').write('property %s: %s\nwalk and step in %s (%s)\n' % (run.prop, why, dst, c))
                run.violation('%s/%s: %s' % (p, c, why[:300]), dst + '.txt')
            elif code != 0:
                raise ToolError('gdb: the harness ended with %d (%s, %s)' % (code, p, c))


# ------------------------------------------------------------ what compiles
def types(run):
    quick = run.tier == 'quick'
    raw = os.path.join(workdir(run), 'progs.out')
    cfgs = ['x64', 'x64d'] if quick else ['x64', 'x64d', 'x64n', 'x86', 'x64a']
    _, st, tr = vlib.tlc('Types', 'CONSTANTS Families={"A","P","B","V","U","D"} MaxLen=%d MaxWrong=2 Deep=%s\nINIT Init\nNEXT Next\n'
                         'INVARIANTS Sound Stays Emit\nCHECK_DEADLOCK FALSE\n' % (4 if quick else 6, 'FALSE' if quick else 'TRUE'), 'types', out=raw)
    run.model('Types', st, tr)
    progs = clients.parse(raw)
    os.remove(raw)
    run.sample('client program: ' + json.dumps(progs[len(progs) // 2]))
    run.sample('client program: ' + clients.rust(0, [p for p in progs if p[0] == 'D'][-1], True))
    def verdicts(c):
        try:
            return clients.compile_all(progs, os.path.join(workdir(run), c), c)
        except vlib.Unbuildable:
            return None

    with ThreadPoolExecutor(3) as ex:
        for c, res in zip(cfgs, ex.map(verdicts, cfgs)):
            if res is None:
                run.part(module='Types', config=c, skipped='does not build')
                continue
            bad, codes = res
            run.traces += len(progs)
            run.events += len(progs)
            run.part(module='Types', config=c, programs=len(progs), accepted=len(progs) - len(bad), rejected=len(bad), errors=codes)
            wrong = [k for k, p in enumerate(progs) if p[-1] == (k in bad)]
            if wrong:
                d = os.path.join(BUILD, 'violations')
                os.makedirs(d, exist_ok=True)
                dst = os.path.join(d, 'C21.%s.txt' % c)
                open(dst, 'w').write('\n\n'.join('%s\n%s\nthe specification says: %s\n%s' % (
                    json.dumps(progs[k]), clients.rust(k, progs[k], True), 'accept' if progs[k][-1] else 'reject', bad.get(k, 'the compiler accepts it')) for k in wrong))
                k = wrong[0]
                run.violation('%s: %d programs, first: %s should be %s' % (
                    c, len(wrong), clients.rust(k, progs[k], True)[:300], 'accepted' if progs[k][-1] else 'rejected'), dst)


# ---------------------------------------------------------------- liveness
def ends(run):
    """Every operation of the crate comes to an end, under weak fairness."""
    for n in ENDS[run.prop][0 if run.tier == 'quick' else 1].split():
        _, states, trans = vlib.tlc('Props', profiles.cfg(profiles.PROFILES[n], liveness=True), 'ends_' + n, workers=CPUS)
        run.model(n, states, trans)
        run.part(module='Props', profile=n, property='Ends', states=states, transitions=trans)


ENDS = {'C01': ('ctl', 'ctl ctlos osps'), 'C05': ('osn', 'panic deep pan'), 'C06': ('hold', 'stash hold act'),
        'C07': ('own', 'own hold holdc stash'), 'C08': ('nounw', 'nounw nounwos'), 'C11': ('osn', 'osn os'), 'C12': ('ps', 'ps osps'),
        'C15': ('trap', 'trap trapos'), 'C19': ('thr', 'thr thrh'), 'C20': ('reset', 'reset reset1')}
EXTRA = {'C21': [types], 'C22': [valgrind_stacks, memcheck], 'C13': [stackmem], 'C26': [findings_c26], 'C10': [place], 'C24': [place],
         'C17': [debugger], 'C04': [place], 'C11': [place], 'C12': [place], 'C14': [place]}
for _p in ENDS:
    EXTRA.setdefault(_p, []).append(ends)
