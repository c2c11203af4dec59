"""Bounded instances of spec/Coro.tla."""
import random
BASE = ['MkStack', 'New', 'Resume', 'Suspend', 'Return']


def P(ops, **k):
    d = dict(NC=2, NS=2, NT=1, NP=1, MaxD=8, MaxSeg=2, Unwind=True, Own=(1,))
    d.update(k)
    d['Ops'] = BASE + ops.split()
    return d


PROFILES = {
    # control transfer: who resumes whom, from where
    'ctl': P('Drop', NC=3, NS=3, MaxD=9, MaxSeg=1),
    'ctlact': P('Drop Act', NC=3, NS=3, MaxD=7, MaxSeg=1),
    'ctlos': P('Drop OnStack OnParent', NC=2, NS=3, MaxD=9, MaxSeg=3),
    # panics, catch scopes, forced unwinding
    'panic': P('Loc Panic Catch Force Drop Rethrow', MaxD=5),
    'deep': P('Loc Panic Catch Force Drop Rethrow', NC=1, NS=1, MaxD=6, MaxSeg=4),
    'stash': P('Panic Catch Force Drop Stash', NC=1, NS=1, MaxD=6, MaxSeg=3),
    'stash2': P('Catch Force Stash', MaxD=5, MaxSeg=2),
    'act': P('Act Force Drop', MaxD=6),
    'acta': P('Act Force Drop NoPend', MaxD=6),
    'actpa': P('Act Panic Catch Drop NoPend', NC=1, NS=1, MaxD=6, MaxSeg=3),
    'actp': P('Act Panic Catch Drop', NC=1, NS=1, MaxD=6, MaxSeg=3),
    'hold': P('Hold Panic Force Drop', MaxD=6),
    'holdc': P('Hold Panic Catch Drop', MaxD=5),
    'pan': P('Loc Pan Catch Force Drop', NC=1, NS=1, MaxD=6, MaxSeg=3),
    'pan2': P('Loc Pan Catch Force Drop', MaxD=6, MaxSeg=1),
    'own': P('RmStack Drop IntoStack Bad Force Catch Panic Reset', Own=(0, 1), MaxD=6, MaxSeg=1),
    # running on other stacks
    'os': P('RmStack OnStack Loc Panic Catch Force Drop', Own=(0, 1), NC=1, NS=2, MaxD=7, MaxSeg=2),
    'osn': P('OnStack Panic Drop', NC=1, NS=3, MaxD=9, MaxSeg=5),
    'actos': P('OnStack Act Panic Catch', NC=1, NS=2, MaxD=7, MaxSeg=3),
    'actps': P('OnParent Act Panic Catch', NC=1, NS=1, MaxD=7, MaxSeg=3),
    'actp2': P('Act Panic Catch', MaxD=6),
    'osps': P('OnStack OnParent Panic Catch Drop', NC=1, NS=2, MaxD=7, MaxSeg=3),
    'ps': P('OnParent Panic Catch Drop', MaxD=7),
    'ps2': P('OnParent Loc Panic Drop', MaxD=8),
    'trap': P('Trap Loc Panic Catch Drop', MaxD=5),
    'trapos': P('Trap OnStack OnParent Drop', NC=2, NS=3, MaxD=9, MaxSeg=3),
    'reset': P('Reset Loc Catch Panic Force Drop IntoStack', MaxD=6, MaxSeg=1),
    'reset1': P('Reset Loc Act Panic Force Drop IntoStack RmStack', NC=1, NS=1, Own=(0, 1), MaxD=6, MaxSeg=3),
    'thr': P('Loc Panic Catch Force Drop Switch', NT=2, MaxD=5, MaxSeg=1),
    'thrh': P('Hold Panic Force Drop Switch', NT=2, MaxD=4),
    'thr3': P('Panic Force Drop Switch', NT=3, MaxD=4, MaxSeg=1),
    'nounw': P('Loc Panic Catch Force Drop IntoStack', Unwind=False, MaxD=7),
    'nounwos': P('OnStack OnParent Loc Force Drop', Unwind=False, NS=2, MaxD=6, MaxSeg=3),
    # the same, larger
    'Tctl': P('Drop', NC=4, NS=4, MaxD=9, MaxSeg=1),
    'Tpanic': P('Loc Panic Catch Force Drop Rethrow', MaxD=6),
    'Tdeep': P('Loc Panic Catch Force Drop Rethrow', NC=1, NS=1, MaxD=7, MaxSeg=4),
    'Tstash': P('Panic Catch Force Drop Stash', MaxD=5),
    'Tact': P('Act Panic Catch Drop', MaxD=5),
    'Thold': P('Hold Panic Catch Force Drop', MaxD=6),
    'Tpan': P('Loc Pan Catch Force Drop', MaxD=5),
    'Tos': P('RmStack OnStack Loc Panic Catch Force Drop', Own=(0, 1), NC=1, NS=2, MaxD=7, MaxSeg=3),
    'Tps': P('OnParent Loc Panic Catch Force Drop', MaxD=7),
    'Tosps': P('OnStack OnParent Panic Catch Drop', NC=1, NS=3, MaxD=8, MaxSeg=4),
    'Ttrap': P('Trap Loc Panic Catch Force Drop', MaxD=6),
    'Treset': P('Reset Loc Catch Panic Force Drop IntoStack', MaxD=5),
    'Tnounw': P('Loc Panic Catch Force Drop IntoStack OnStack', Unwind=False, NC=2, NS=2, MaxD=7),
    'Tthr': P('Panic Catch Drop Switch', NT=2, MaxD=4),
}


def swarm(name, seed):
    """The instance of Rand.tla behind a name like R7: a random part of the
    operations, of the bounds and of the program's manners."""
    kind = name[0]
    r = random.Random('%s.%d' % (name, seed))
    opt = {'R': 'Loc Panic Catch Force Rethrow Stash Act Hold Pan OnStack OnParent Trap Reset IntoStack RmStack Bad',
           'N': 'Loc Panic Catch Force Act OnStack OnParent Trap Reset IntoStack RmStack',
           'S': 'Loc Panic Catch Force Rethrow Stash Act Hold OnStack OnParent Trap Reset IntoStack RmStack',
           'A': 'Loc Panic Catch Force Rethrow Hold OnStack OnParent Trap Reset IntoStack RmStack'}[kind].split()
    ops = [o for o in opt if r.random() < 0.6]
    calm = r.random() < 0.85
    if calm and 'Pan' in ops:
        ops.remove('Pan')
    nc = r.randint(2, 6)
    d = P('Drop ' + ' '.join(ops), NC=nc, NS=min(7, r.randint(nc, nc + 2)), NP=2, MaxD=r.randint(8, 22), MaxSeg=r.randint(2, 6),
          Unwind=kind != 'N', Own=r.choice([(1,), (0, 1)]), NT=r.randint(2, 4) if kind == 'S' else 1)
    if kind == 'S':
        d['Ops'].append('Switch')
    if kind == 'A':
        d['Ops'].append('NoPend')
    return d, calm


MANNERS = ('ret', 'susp', 'hold', 'panic')


def tower(name, seed):
    """The instance of Tower.tla behind a name like T3.300."""
    i, n = (int(x) for x in name[1:].split('.'))
    ops = 'Loc Panic Catch Force Rethrow Hold OnStack OnParent IntoStack RmStack Drop Chain'
    d = P(ops, NC=n, NS=2 * n + 4, NP=3, MaxD=20 * n, MaxSeg=7, Own=(0, 1))
    return 'CONSTANTS Seed=%d Manner="%s" %s\nINIT TInit\nNEXT TNext\nVIEW TView\n\n' \
        'ACTION_CONSTRAINT TOut\nCHECK_DEADLOCK FALSE\n' % (
            (seed * 7919 + i * 104729) % 65536, MANNERS[i % len(MANNERS)], ' '.join('%s=%s' % (k, val(x)) for k, x in d.items()))


def threads(name):
    name = name.partition('~')[0]
    return PROFILES[name]['NT'] if name in PROFILES else 1


def swarm_cfg(d, calm, long, checked):
    s = 'CONSTANTS Long=%d Calm=%s ' % (long, val(calm)) + ' '.join('%s=%s' % (k, val(x)) for k, x in d.items()) + '\n'
    s += 'INIT RInit\nNEXT RNext\nVIEW RView\nCHECK_DEADLOCK FALSE\n'
    return s + ('INVARIANTS %s\nPROPERTIES %s\n' % (' '.join(INVS), ' '.join(ACTS)) if checked else '')


INVS = ('TypeOK C01_Resumer C01_Kept C03_Seg C04_NoLeak C14_One C11_Where C25_Calm C08_NoForce').split()
ACTS = ('C01_Only C03_Order C04_Once C04_Born C04_Payload C06_Clean C07_Clean C14_Last C14_Free C20_Reset '
        'C15_Trap C19_Threads C25_Hook C08_NoCross').split()


def val(x):
    if isinstance(x, bool):
        return 'TRUE' if x else 'FALSE'
    if isinstance(x, (list, tuple)):
        return '{' + ','.join('"%s"' % y if isinstance(y, str) else str(y) for y in x) + '}'
    return str(x)


def cfg(d, view='Graph', liveness=False):
    s = 'CONSTANTS ' + ' '.join('%s=%s' % (k, val(x)) for k, x in d.items()) + '\n'
    if liveness:
        return s + 'SPECIFICATION PFair\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n'
    return s + 'INIT PInit\nNEXT PNext\nVIEW PView\nINVARIANTS %s\nPROPERTIES %s\n%sCHECK_DEADLOCK FALSE\n' % (
        ' '.join(INVS), ' '.join(ACTS), 'ACTION_CONSTRAINT Out\n' if view == 'Graph' else '')
