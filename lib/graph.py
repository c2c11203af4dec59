"""State graphs printed by TLC (spec/Graph.tla): parsing, collapsing of the
deterministic event steps, and walks that cover every transition."""
import json
import random
from collections import deque


def parse_line(l):
    return json.loads(l.strip()[1:-1].replace('\\"', '"').replace('<<', '[').replace('>>', ']'))


def chain_of(ctl, mode, how):
    """The marker functions expected in a backtrace, innermost first."""
    out = []
    n = len(ctl)
    skip_co = False
    if mode in ('pop', 'unw') and ctl[-1][0] == 'act':
        out.append('x')      # its destructor reports itself
    if mode == 'sd':
        if how == 1:
            out.append('f')
        elif not (ctl[-1][0] == 'hcl' and ctl[-1][2] == 1):
            out.append('d')
    for i in range(n - 1, -1, -1):
        k, a, b = ctl[i]
        if k == 'main':
            out.append('m')
        elif k == 'tclo':
            out.append('t')
            skip_co = True
        elif k == 'co':
            if not skip_co:
                out.append(str((a - 1) % 7 + 1))
            skip_co = False
            if b == 0:
                out.append('r')
            elif b == 1:
                out.append('f')
            elif not (i > 0 and ctl[i - 1][0] == 'hcl' and ctl[i - 1][1] == a and ctl[i - 1][2] == 1):
                out.append('d')
        elif k == 'hcl':
            out.append('i' if b == 1 else 'h')
        else:
            out.append({'os': 'oO', 'ps': 'pP', 'loc': 'l', 'act': 'a', 'cat': 'k', 'got': 'gk',
                        'hold': 'h', 'cln': 'xa', 'clo': ''}[k])
    return ''.join(out)


def obs_of(mode, how, o):
    cur, stk, fl, sks, ctl, infl = o
    return '%d %d %s %d %s' % (cur, stk, ''.join(fl), infl, chain_of(ctl, mode, how))


def label_line(lab, obs):
    """One script line for a decision or event."""
    if lab[0] == 'D':
        return 'D ' + ' '.join(str(x) for x in lab[1:]) + '|' + obs
    name, a = lab[1], lab[2:]
    if name in ('hook', 'caught', 'top'):
        return 'E %s %s %s 0|%s' % (name, a[0], a[1], obs)
    return 'E %s - %s %s|%s' % (name, a[0], a[1], obs)


def history(path):
    """The script of one behaviour that TLC -simulate wrote down."""
    lines, last, md = [], 0, ''
    for l in open(path):
        if l.startswith('/\\ md = '):
            md = l
        elif l.startswith('/\\ out = "<<'):
            lab, mode, how, o = parse_line(l.strip()[9:])
            if lab[0] == 'D':
                last = len(lines)
            if lab[0] != 'tau':
                lines.append(label_line(lab, obs_of(mode, how, o)))
    if '"abt"' in md:
        return lines, 'A'
    return (lines if '"run"' in md else lines[:last]), 'X'


def behaviour(path):
    """The script of the only behaviour there is, as printed by TLC."""
    lines, abt = [], False
    for l in open(path):
        if l.startswith('"<<'):
            lab, mode, how, o = parse_line(l)
            if lab[0] != 'tau':
                lines.append(label_line(lab, obs_of(mode, how, o)))
    return lines, False


class Graph:
    """Nodes are the states in which the program decides; edges carry the
    decision and the events up to the next such state."""

    def __init__(self):
        self.edges = {}      # node -> list of (label, lines, dst or None if abort)
        self.init = None
        self.raw_states = 0
        self.raw_transitions = 0


def load(path):
    g = Graph()
    step = {}      # src -> (lab, dst, mode, how, obs)  for event steps
    dec = {}       # src -> list of (lab, dst)
    obs = {}
    mode_of = {}
    for l in open(path):
        if not l.startswith('"<<<<'):
            continue
        s, lab, d, mode, how, o = parse_line(l)
        s, d = tuple(s), tuple(d)
        g.raw_transitions += 1
        if s not in obs:
            obs[s] = obs_of(mode, how, o)
            mode_of[s] = mode
        if g.init is None and lab[0] == 'D' and len(o[4]) == 1 and set(o[2]) == {'-'} \
                and set(o[3]) == {'free'} and o[0] == 1 and o[5] == 0:
            g.init = s
        if mode == 'run':
            dec.setdefault(s, {})[json.dumps(lab)] = (lab, d)
        else:
            step[s] = (lab, d)
    g.raw_states = len(obs)
    tail = {}

    def follow(d):
        """events from d to the next decision state"""
        seq = []
        x = d
        while x in step:
            if x in tail:
                break
            seq.append(x)
            x = step[x][1]
        if x in tail:
            base, end = tail[x]
        else:
            # decision state, or no outgoing transitions printed: abort or dead end
            base, end = (), x
        for y in reversed(seq):
            lab = step[y][0]
            if lab[0] != 'tau':
                base = (label_line(lab, obs[y]),) + base
            tail[y] = (base, end)
        return base, end
    for s, ds in dec.items():
        es = []
        for lab, d in ds.values():
            lines, end = follow(d)
            es.append((lab, (label_line(lab, obs[s]),) + lines, end))
        es.sort(key=lambda e: json.dumps(e[0]))
        g.edges[s] = es
    # ends without decisions are aborts (a state in mode run always has some)
    for s, es in g.edges.items():
        g.edges[s] = [(a, b, c if c in g.edges else None) for a, b, c in es]
    return g


def walks(g, seed=1, maxlen=120, probe=60):
    """Walks from the initial state that together take every edge.  A walk
    goes down the tree of shortest paths to a state with an edge not taken
    yet, then on greedily (looking at most `probe' states ahead), and in the
    end gives everything back."""
    rnd = random.Random(seed)
    E = g.edges
    unc = {s: list(range(len(es))) for s, es in E.items()}
    for v in unc.values():
        rnd.shuffle(v)
    total = sum(len(v) for v in unc.values())
    tree = {g.init: None}
    order = [g.init]
    rev = {}
    for x in order:
        for i, (_, _, d) in enumerate(E[x]):
            if d is not None:
                rev.setdefault(d, []).append((x, i))
                if d not in tree:
                    tree[d] = (x, i)
                    order.append(d)
    back = {g.init: None}
    q = deque([g.init])
    while q:
        x = q.popleft()
        for s, i in rev.get(x, ()):
            if s not in back:
                back[s] = (s, i)
                q.append(s)

    def nearest(s):
        par = {s: None}
        q = deque([s])
        n = 0
        while q and n < probe:
            x = q.popleft()
            n += 1
            for i, (_, _, d) in enumerate(E[x]):
                if d is None or d in par:
                    continue
                par[d] = (x, i)
                if unc[d]:
                    p = []
                    while par[d] is not None:
                        p.append(par[d])
                        d = par[d][0]
                    return p[::-1]
                q.append(d)
        return None

    def take(s, i):
        try:
            unc[s].remove(i)
        except ValueError:
            pass
    out = []
    for goal in reversed(order):
        while unc[goal]:
            path = []
            x = goal
            while tree[x] is not None:
                path.append(tree[x])
                x = tree[x][0]
            path.reverse()
            for s, i in path:
                take(s, i)
            s = goal
            while s is not None and len(path) < maxlen:
                if unc[s]:
                    i = unc[s].pop()
                    path.append((s, i))
                    s = E[s][i][2]
                    continue
                p = nearest(s)
                if p is None:
                    break
                path += p
                s = E[p[-1][0]][p[-1][1]][2]
            n = 0
            while s is not None and s != g.init and s in back and n < 60:
                t, i = back[s]
                path.append((t, i))
                take(t, i)
                s = E[t][i][2]
                n += 1
            out.append((path, s is None))
    return out, total - sum(len(v) for v in unc.values()), total


def write(g, ws, path, seed):
    with open(path, 'w') as f:
        for n, (p, ab) in enumerate(ws):
            f.write('W %d %d\n' % (n, seed * 1000003 + n))
            for s, i in p:
                f.write('\n'.join(g.edges[s][i][1]) + '\n')
            f.write('A\n' if ab else 'X\n')


def rounds(g, seed=1, each=3, longest=14):
    """Walks into a cycle of the graph, for going round it many times: every
    kind of transition lies on `each' of them if it lies on one."""
    rnd = random.Random(seed)
    E = g.edges
    tree, order = {g.init: None}, [g.init]
    back, rev = {g.init: None}, {}
    for x in order:
        for i, (_, _, d) in enumerate(E[x]):
            if d is not None:
                rev.setdefault(d, []).append((x, i))
                if d not in tree:
                    tree[d] = (x, i)
                    order.append(d)
    q = deque([g.init])
    while q:
        for s, i in rev.get(q.popleft(), ()):
            if s not in back:
                back[s] = (s, i)
                q.append(s)

    def kind(e):
        return tuple(x.split('|')[0].split()[1] for x in e[1])

    def again(s, d):
        """a shortest way from d to s"""
        par, q = {d: None}, deque([(d, 0)])
        while q:
            x, n = q.popleft()
            if x == s:
                p = []
                while par[x] is not None:
                    p.append(par[x])
                    x = par[x][0]
                return p[::-1]
            if n < longest and len(par) < 4000:
                for i in rnd.sample(range(len(E[x])), len(E[x])):
                    y = E[x][i][2]
                    if y is not None and y not in par:
                        par[y] = (x, i)
                        q.append((y, n + 1))
        return None
    have, tries, out = {}, {}, []
    todo = [(s, i) for s in order for i in range(len(E[s])) if E[s][i][2] is not None and s in back]
    rnd.shuffle(todo)
    for s, i in todo:
        k = kind(E[s][i])
        if have.get(k, 0) >= each or tries.get(k, 0) >= 12:
            continue
        tries[k] = tries.get(k, 0) + 1
        p = again(s, E[s][i][2])
        if p is None:
            continue
        cycle = [(s, i)] + p
        for x, n in cycle:
            kk = kind(E[x][n])
            have[kk] = have.get(kk, 0) + 1
        pre, x = [], s
        while tree[x] is not None:
            pre.append(tree[x])
            x = tree[x][0]
        post, x = [], s
        while x != g.init:
            y, n = back[x]
            post.append((y, n))
            x = E[y][n][2]
        out.append((pre[::-1], cycle, post))
    return out, sum(1 for k in tries if k in have), len({kind(e) for es in E.values() for e in es if e[2] is not None})


def write_rounds(g, rs, path, seed):
    """`F d': the number of times is to be divided by d.  Mapping stacks and
    waking threads takes its time."""
    with open(path, 'w') as f:
        for n, (pre, cycle, post) in enumerate(rs):
            f.write('W %d %d\n' % (n, seed * 1000003 + n))
            names = set()
            for s, i in pre:
                f.write('\n'.join(g.edges[s][i][1]) + '\n')
            f.write('B\n')
            for s, i in cycle:
                names |= {x.split('|')[0].split()[1] for x in g.edges[s][i][1]}
                f.write('\n'.join(g.edges[s][i][1]) + '\n')
            f.write('F %d\n' % (16 if {'New', 'MkStack', 'Switch'} & names else 1))
            for s, i in post:
                f.write('\n'.join(g.edges[s][i][1]) + '\n')
            f.write('X\n')


if __name__ == '__main__':
    import sys
    g = load(sys.argv[1])
    seed = int(sys.argv[3])
    ws, c, n = walks(g, seed)
    write(g, ws, sys.argv[2], seed)
    rs, kinds_on, kinds = rounds(g, seed)
    write_rounds(g, rs, sys.argv[2] + '.r', seed)
    print(json.dumps(dict(nodes=len(g.edges), edges=n, covered=c, walks=len(ws), steps=sum(len(p) for p, _ in ws),
                          rounds=len(rs), kinds_on_rounds=kinds_on, kinds=kinds)))
