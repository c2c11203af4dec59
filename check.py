#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decides one property on /repo's working tree."""
import json
import os
import re
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import vlib
import props
import profiles
import extras


class Run:
    """What one check has done so far."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = self.aborts = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.violations = []       # (description, replay path)
        self.findings = []

    def violation(self, text, replay):
        self.violations.append((text, replay))
        if len(self.violations) <= 5:
            print('  %s' % text, flush=True)

    def model(self, name, states, transitions):
        self.states += states
        self.transitions += transitions

    def part(self, **k):
        self.parts.append(k)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)


def split(p):
    """profile@n: n histories at once, each on a thread of its own;
    profile!exit: in a destructor that runs at the end of a thread."""
    name, _, par = p.partition('!')[0].partition('@')
    return name, (10 + int(par) if par else profiles.threads(name))


def first_walk(path, n):
    out, k = [], -1
    for l in open(path):
        if l.startswith('W '):
            k += 1
            if k > n:
                break
        if k == n:
            out.append(re.sub(r'\s*\|.*', '', l.strip()))
    return ' '.join(x[2:] if x[:2] in ('D ', 'E ') else x for x in out)[:600]


def replay_jobs(run, jobs):
    profs, cfgs = [], []
    for p, c, _ in jobs:
        profs += [split(x)[0] for x in p if split(x)[0] not in profs]
        cfgs += [x for x in c if x not in cfgs]
    walks = {}
    with ThreadPoolExecutor(6) as tp, ThreadPoolExecutor(3) as bp:
        fb = tp.submit(vlib.build_all, cfgs, bp)
        fw = {p: tp.submit(vlib.prepare, p, run.seed, 3, run.tier) for p in profs}
        for p, f in fw.items():
            walks[p] = f.result()
        bins = fb.result()
    for p in profs:
        info = walks[p][1]
        run.model(p, info['states'], info['transitions'])
        run.sample('%s: %s' % (p, first_walk(walks[p][0], info['walks'] // 2)))
    env = {'HV_STEP': '30,4'} if run.tier == 'thorough' else {}
    for ps, cs, mask in jobs:
        for pp in ps:
            p, thr = split(pp)
            path, info = walks[p]
            nt = info['instance']['NT'] if 'instance' in info and thr < 10 else thr
            for c in cs:
                if c not in bins:
                    run.part(profile=pp, config=c, skipped='does not build')
                    continue
                st, viol = vlib.replay(bins[c], path, mask, nt, env=dict(env, **({'HV_CTX': pp.partition('!')[2]} if '!' in pp else {})))
                if c in vlib.FREELY:
                    viol = [v for v in viol if v['cls'] == 'registers']
                run.traces += st['walks']
                run.events += st['events']
                run.aborts += st['aborts']
                run.part(profile=pp, config=c, states=info['states'], transitions=info['transitions'],
                         edges_covered=info['covered'], walks=st['walks'], events=st['events'],
                         aborts=st['aborts'], mask=mask,
                         **({'points_stepped': st['stepped'], 'kinds_stepped': st['kinds']} if mask & props.SIG else {}))
                for v in viol:
                    d = os.path.join(vlib.BUILD, 'violations')
                    os.makedirs(d, exist_ok=True)
                    dst = os.path.join(d, '%s.%s.%s.%d.w' % (run.prop, p, c, v['index']))
                    vlib.cut(path, v, dst)
                    with open(dst + '.txt', 'w') as f:
                        f.write('property %s: %s: %s\nat step %d of the last walk of %s (profile %s)\n'
                                'replay: cd /verif && %spython3 check.py --replay %s %s %d %d\n'
                                % (run.prop, v['cls'], v['msg'], v['pos'], dst, p, 'HV_CTX=%s ' % pp.partition('!')[2] if '!' in pp else '', c, dst, mask, nt))
                    run.violation('%s/%s: %s: %s' % (p, c, v['cls'], v['msg'][:300]), dst + '.txt')
                if viol:
                    return False
                if st['walks'] != info['walks'] and thr < 10 and c not in vlib.FREELY:
                    raise vlib.ToolError('%s/%s: only %d of %d walks ran' % (p, c, st['walks'], info['walks']))
    return True


def known():
    out = []
    f = os.path.join(VERIF, 'known-findings.txt')
    for l in open(f):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
        if m:
            out.append(m.groups())
    return out


def setup():
    """Prepares what every quick check shares."""
    os.makedirs(vlib.BUILD, exist_ok=True)
    cfgs, profs = [], []
    for quick, _ in props.JOBS.values():
        for p, c, _ in quick:
            cfgs += [x for x in c if x not in cfgs]
            profs += [split(x)[0] for x in p if split(x)[0] not in profs]
    with ThreadPoolExecutor(5) as tp, ThreadPoolExecutor(3) as bp:
        fs = [tp.submit(vlib.prepare, p, 1, 3) for p in profs]
        vlib.build_all(cfgs, bp)
        for f in fs:
            f.result()


def main():
    if sys.argv[1] == '--replay':
        c, path, mask, thr = sys.argv[2:6]
        st, viol = vlib.replay(vlib.build(c), path, int(mask), int(thr), procs=1)
        print(st, viol)
        return 1 if viol else 0
    if sys.argv[1] == '--setup':
        setup()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    run = Run(prop, tier, seed)
    try:
        os.makedirs(vlib.BUILD, exist_ok=True)
        quick, thorough = props.JOBS.get(prop, ([], []))
        jobs = quick if tier == 'quick' else thorough
        go = True
        if jobs:
            go = replay_jobs(run, jobs)
        if go:
            for f in extras.EXTRA.get(prop, []):
                f(run)
                if run.violations:
                    break
    except vlib.ToolError as e:
        print('ERROR: %s' % e)
        if not run.violations:
            return 2
    except Exception:
        traceback.print_exc()
        return 2
    kn = known()
    bad = []
    for text, replay in run.violations:
        key = run_key(text)
        hit = [k for k in kn if k[0] == prop and k[1] == key]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][2]))
        else:
            bad.append((text, replay))
    for text in run.findings:
        hit = [k for k in kn if k[0] == prop and k[1] == text]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][2]))
        else:
            bad.append((text, os.path.join(VERIF, 'known-findings.txt')))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=run.states, transitions=run.transitions,
                            traces_validated_against_impl=run.traces, samples=run.samples or ['none'],
                            implementation_events_compared=run.events, aborts_confirmed=run.aborts, parts=run.parts),
              assumptions=run.assumptions + props.ASSUME, wall_s=round(time.time() - run.t0, 1), violations=len(bad))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if bad:
        for text, _ in bad[:5]:
            print('  ' + text)
        print('VIOLATION property=%s replay=%s' % (prop, bad[0][1]))
        return 1
    print('OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d aborts=%d wall=%.1fs'
          % (prop, tier, run.states, run.transitions, run.traces, run.events, run.aborts, time.time() - run.t0))
    return 0


def run_key(text):
    m = re.match(r'\[([\w.-]+)\]', text)
    return m.group(1) if m else ''


if __name__ == '__main__':
    sys.exit(main())
