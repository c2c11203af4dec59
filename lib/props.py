"""Which part of the specification, and which observations of the code, decide
each property.  A job is (profiles, configurations, mask)."""
CTRL, STK, FLAG, CHAIN, FP, REG, CANARY, TOK, PANICKING, ALIGN, VALUE, HOOK, UREG, BOUNDS, STATE, FREE = \
    [1 << i for i in range(16)]
SIG = 65536
ALL = 65535
BASE = CTRL
# everything that can be seen without unwinding the stack at each step
CHEAP = ALL & ~(CHAIN | UREG | FP)


def j(profiles, configs, mask):
    return (profiles.split(), configs.split(), mask)


def R(n, kind='R'):
    return ' '.join('%s%d' % (kind, i) for i in range(n))


# property: (quick jobs, thorough jobs)
JOBS = {
    'C01': ([j('ctl ctlact', 'x64 x86', CTRL | STK | CANARY), j('ctlos', 'x64r x86r', CTRL | STK | CANARY)],
            [j('ctl ctlact ctlos thr hold ps trap', 'x64 x64r x86 x86r', CTRL | STK | CANARY),
             j('Tctl Tps Tosps Thold', 'x64r x86r', CTRL | STK | CANARY)]),
    'C02': ([j('ctl panic', 'x64rs x86rs', VALUE | TOK | ALIGN | CANARY), j('ctlos', 'x64 x86', VALUE | TOK | ALIGN | CANARY)],
            [j('ctl panic ctlos osps ps trap hold own', 'x64s x64rs x86s x86rs', VALUE | TOK | ALIGN | CANARY)]),
    'C03': ([j('panic reset own', 'x64 x86r', FLAG), j('trap', 'x64', FLAG)],
            [j('panic reset own trap act hold pan reset1 thr', 'x64 x64r x86 x86r', FLAG),
             j('Tpanic Treset Ttrap', 'x64r x86r', FLAG)]),
    'C04': ([j('panic pan own', 'x64 x86r', TOK | CANARY), j('deep os', 'x64r', TOK | CANARY)],
            [j('panic deep stash act actp actp2 actos actps hold holdc pan pan2 own os ps trap reset reset1 thr', 'x64 x64r x86 x86r', TOK | CANARY),
             j('Tpanic Tdeep Tpan Tos Thold', 'x64r x86r', TOK | CANARY)]),
    'C05': ([j('panic deep stash2', 'x64 x86r', TOK | PANICKING), j('osn ps actp2 actos', 'x64r x86', TOK | PANICKING)],
            [j('panic deep stash stash2 actp actp2 actos actps holdc os osn osps ps ps2 thr', 'x64 x64r x86 x86r', TOK | PANICKING),
             j('Tpanic Tdeep Tstash Tosps Tps', 'x64r x86r', TOK | PANICKING)]),
    'C06': ([j('panic deep stash stash2', 'x64 x86r', TOK | FLAG | STK), j('act pan actp2', 'x64r x86', TOK | FLAG | STK)],
            [j('panic deep stash stash2 act hold pan pan2 os reset thr', 'x64 x64r x86 x86r', TOK | FLAG | STK),
             j('Tpanic Tdeep Tstash Tpan Thold', 'x64r x86r', TOK | FLAG | STK)]),
    'C07': ([j('hold holdc pan', 'x64 x86r', TOK | FREE | FLAG), j('own actp', 'x64r x86', TOK | FREE | FLAG)],
            [j('hold holdc pan pan2 own actp panic deep thrh', 'x64 x64r x86 x86r', TOK | FREE | FLAG),
             j('Thold Tpan Tpanic Tact', 'x64r x86r', TOK | FREE | FLAG)]),
    'C08': ([j('nounw nounwos', 'x64n x86n', TOK | FLAG | CANARY | HOOK)],
            [j('nounw nounwos', 'x64n x64nr x86n x86nr', CHEAP), j('Tnounw', 'x64nr x86nr', CHEAP)]),
    'C09': ([j('ctl ctlos', 'x64 x64r x86 x86r', REG | CANARY), j('trap ps', 'x64r x86r', REG | CANARY),
             j('act', 'x64r x86r', REG | CANARY)],
            [j('ctl ctlos ctlact panic deep act hold os osps ps trap trapos thr', 'x64 x64r x86 x86r', REG | CANARY),
             j('Tctl Tosps Tps Ttrap', 'x64r x86r', REG | CANARY)]),
    'C10': ([j('trap', 'x64rs', ALIGN | STK), j('ctlos', 'x64s x86rs', ALIGN | STK)],
            [j('trap ctl ctlos ps osps own', 'x64s x64rs x86s x86rs', ALIGN | STK | CANARY)]),
    'C11': ([j('os osn actos', 'x64 x86r', STK | TOK | FREE | VALUE | STATE), j('osps', 'x64r x86', STK | TOK | FREE | VALUE | STATE)],
            [j('os osn osps actos ctlos trapos', 'x64 x64r x86 x86r', STK | TOK | FREE | VALUE | STATE),
             j('Tos Tosps', 'x64r x86r', STK | TOK | FREE | VALUE | STATE)]),
    'C12': ([j('ps osps actps', 'x64 x86r', STK | TOK | VALUE | CANARY), j('ps2', 'x64r x86', STK | TOK | VALUE | CANARY)],
            [j('ps ps2 osps actps ctlos trapos', 'x64 x64r x86 x86r', STK | TOK | VALUE | CANARY),
             j('Tps Tosps', 'x64r x86r', STK | TOK | VALUE | CANARY)]),
    'C13': ([], []),
    'C14': ([j('own os', 'x64 x86r', STATE | FREE | TOK | FLAG), j('reset1 trap', 'x64r x86', STATE | FREE | TOK | FLAG)],
            [j('own os reset reset1 trap hold panic pan', 'x64 x64r x86 x86r', STATE | FREE | TOK | FLAG),
             j('Tos Treset', 'x64r x86r', STATE | FREE | TOK | FLAG)]),
    'C15': ([j('trap', 'x64 x86 x64r x86r', FLAG | TOK | ALIGN | VALUE | STK | CANARY | REG),
             j('trapos', 'x64 x86r', FLAG | TOK | ALIGN | VALUE | STK | CANARY | REG)],
            [j('trap trapos Ttrap', 'x64 x64r x86 x86r', CHEAP)]),
    'C16': ([j('trap own', 'x64 x86r', BOUNDS), j('trapos ctlos hold', 'x64r x86', BOUNDS), j('thr', 'x64', BOUNDS)],
            [j('ctl ctlos act hold own os osps ps trap trapos reset reset1 thr Ttrap Tos', 'x64 x64r x86 x86r', BOUNDS)]),
    'C17': ([j('ctlos act trap', 'x64', CHAIN | UREG), j('ctlact trapos', 'x86', CHAIN | UREG), j('ps hold trapos', 'x64r', CHAIN | UREG)],
            [j('ctl ctlact ctlos act actp actp2 actos actps hold holdc os osn osps ps ps2 trap trapos panic deep thr', 'x64 x64r x86', CHAIN | UREG)]),
    'C18': ([j('ctlos act trap', 'x64 x86', FP), j('ctlact trapos', 'x64r x86r', FP), j('ps hold', 'x64', FP)],
            [j('ctl ctlact ctlos act actp actp2 actos actps hold holdc os osn osps ps ps2 trap trapos panic deep thr', 'x64 x64r x86 x86r', FP)]),
    'C19': ([j('thr thrh', 'x64 x86r', STK | TOK | FLAG | PANICKING | CHAIN), j('thr3', 'x64r', STK | TOK | FLAG | PANICKING | CHAIN),
             j('ctlos@6 panic@6 osps@4 trap@6', 'x64r x86r', STK | TOK | FLAG | PANICKING)],
            [j('thr thrh thr3 Tthr', 'x64 x64r x86 x86r', ALL & ~(CHAIN | UREG)), j('thr thrh thr3', 'x64', ALL),
             j('ctl@8 ctlos@8 panic@8 osps@8 hold@8 act@8 trap@8 Tpanic@8', 'x64 x64r x86 x86r', CHEAP)]),
    'C20': ([j('reset reset1', 'x64 x86r', TOK | FLAG | STATE | FREE)],
            [j('reset reset1 Treset', 'x64 x64r x86 x86r', TOK | FLAG | STATE | FREE | CANARY)]),
    'C21': ([], []),
    'C22': ([], []),
    'C23': ([j('ctlos osps', 'x64r x86r', SIG | CHEAP), j('act', 'x64r', SIG | CHEAP), j('hold', 'x86r', SIG | CHEAP)],
            [j('ctl ctlact ctlos osps os panic hold act pan ps trap trapos reset', 'x64r x86r', SIG | CHEAP),
             j('ctlos hold', 'x64 x86', SIG | CHEAP)]),
    'C24': ([j('os panic', 'x64d', CANARY | STATE | ALIGN | STK), j('trap ps', 'x64 x86r', CANARY | STATE | ALIGN | STK)],
            [j('os osn panic hold ps trap own ctl', 'x64d x64 x64r x86 x86r', CANARY | STATE | ALIGN | STK)]),
    'C25': ([j('panic pan', 'x64 x86r', HOOK | PANICKING), j('hold osn', 'x64r x86', HOOK | PANICKING),
             j('own actp2', 'x64', HOOK | PANICKING)],
            [j('panic deep stash act actp actp2 actos actps hold holdc pan pan2 own os osn osps ps thr', 'x64 x64r x86 x86r', HOOK | PANICKING),
             j('Tpanic Tdeep Thold', 'x64r x86r', HOOK | PANICKING)]),
    'C26': ([j('panic os', 'x64a x64r x86', CHEAP), j('hold acta', 'x64a x86r', CHEAP),
             j('panic hold deep', 'x64ar x86a', CHEAP), j('panic hold', 'x86ar', CHEAP), j('panic hold', 'x64ai x86ai', REG), j('nounw nounwos', 'x64nd x86nd', CHEAP)],
            [j('ctl ctlact ctlos panic deep stash acta actpa hold holdc pan pan2 own os osn osps ps ps2 trap trapos reset reset1 thr thrh',
               'x64a', ALL),
             j('ctl ctlact panic deep stash acta actpa hold holdc pan pan2 own os osn trap reset reset1 thr thrh', 'x64ar x86a', ALL), j('panic hold deep pan own', 'x64ai x86ai', REG),
             j('ctl ctlact ctlos panic deep stash act actp actp2 actos actps hold holdc pan pan2 own os osn osps ps ps2 trap trapos reset reset1 thr thrh',
               'x64 x64r x86 x86r', CHEAP)]),
}

# Long random histories of larger instances (Rand.tla): R with unwinding, N
# without, S on several threads, A as the limits of asm-unwind require.
LONG = {
    'C01': ([j(R(12), 'x64r x86', CTRL | STK | CANARY)], [j(R(24), 'x64 x64r x86 x86r', CTRL | STK | CANARY)]),
    'C02': ([j(R(12), 'x64rs x86s', VALUE | TOK | ALIGN | CANARY)], [j(R(24), 'x64s x64rs x86s x86rs', VALUE | TOK | ALIGN | CANARY)]),
    'C03': ([j(R(12), 'x64r x86', FLAG)], [j(R(24), 'x64 x64r x86 x86r', FLAG)]),
    'C04': ([j(R(12), 'x64r x86', TOK | CANARY)], [j(R(24), 'x64 x64r x86 x86r', TOK | CANARY)]),
    'C05': ([j(R(12), 'x64r x86', TOK | PANICKING)], [j(R(24), 'x64 x64r x86 x86r', TOK | PANICKING)]),
    'C06': ([j(R(12), 'x64r x86', TOK | FLAG | STK)], [j(R(24), 'x64 x64r x86 x86r', TOK | FLAG | STK)]),
    'C07': ([j(R(12), 'x64r x86', TOK | FREE | FLAG)], [j(R(24), 'x64 x64r x86 x86r', TOK | FREE | FLAG)]),
    'C09': ([j(R(12), 'x64r x86', REG | CANARY)], [j(R(24), 'x64 x64r x86 x86r', REG | CANARY)]),
    'C10': ([j(R(12), 'x64s x86rs', ALIGN | STK)], [j(R(24), 'x64s x64rs x86s x86rs', ALIGN | STK)]),
    'C11': ([j(R(12), 'x64r x86', STK | TOK | FREE | VALUE | STATE)], [j(R(24), 'x64 x64r x86 x86r', STK | TOK | FREE | VALUE | STATE)]),
    'C12': ([j(R(12), 'x64r x86', STK | TOK | VALUE | CANARY)], [j(R(24), 'x64 x64r x86 x86r', STK | TOK | VALUE | CANARY)]),
    'C14': ([j(R(12), 'x64r x86', STATE | FREE | TOK | FLAG)], [j(R(24), 'x64 x64r x86 x86r', STATE | FREE | TOK | FLAG)]),
    'C15': ([j(R(12), 'x64r x86', FLAG | TOK | ALIGN | VALUE | STK | CANARY | REG)], [j(R(24), 'x64 x64r x86 x86r', FLAG | TOK | ALIGN | VALUE | STK | CANARY | REG)]),
    'C16': ([j(R(12), 'x64r x86', BOUNDS)], [j(R(24), 'x64 x64r x86 x86r', BOUNDS)]),
    'C17': ([j(R(12), 'x64r x86', CHAIN | UREG)], [j(R(24), 'x64 x64r x86', CHAIN | UREG)]),
    'C18': ([j(R(12), 'x64r x86', FP)], [j(R(24), 'x64 x64r x86 x86r', FP)]),
    'C20': ([j(R(12), 'x64r x86', TOK | FLAG | STATE | FREE | CANARY)], [j(R(24), 'x64 x64r x86 x86r', TOK | FLAG | STATE | FREE | CANARY)]),
    'C23': ([j(R(4), 'x64r', SIG | CHEAP), j('R4 R5 R6 R7', 'x86r', SIG | CHEAP)], [j(R(24), 'x64r x86r', SIG | CHEAP)]),
    'C24': ([j(R(12), 'x64r x86', CANARY | STATE | ALIGN | STK)], [j(R(24), 'x64 x64r x86 x86r', CANARY | STATE | ALIGN | STK)]),
    'C25': ([j(R(12), 'x64r x86', HOOK | PANICKING)], [j(R(24), 'x64 x64r x86 x86r', HOOK | PANICKING)]),
    'C08': ([j(R(6, 'N'), 'x64nr x86n', CHEAP)], [j(R(18, 'N'), 'x64n x64nr x86n x86nr', CHEAP)]),
    'C19': ([j(R(6, 'S'), 'x64r x86', STK | TOK | FLAG | PANICKING | CHAIN), j('R2@6 R7@6', 'x64 x86r', STK | TOK | FLAG | PANICKING)],
            [j(R(18, 'S'), 'x64 x64r x86 x86r', STK | TOK | FLAG | PANICKING | CHAIN),
             j(' '.join('R%d@8' % i for i in range(12)), 'x64 x64r x86 x86r', CHEAP)]),
    'C26': ([j(R(6, 'A'), 'x64a x86a', CHEAP), j(R(6), 'x64 x86r', CHEAP)],
            [j(R(18, 'A'), 'x64a', ALL), j(R(18), 'x64 x64r x86 x86r', CHEAP), j(R(12, 'N'), 'x64nr x64nd x86nd', CHEAP),
             j('nounw nounwos', 'x64nd x86nd', CHEAP)]),
}
# The other ways to build the crate: without unwinding, and with asm-unwind.
OTHER = {
    'C01': CTRL | STK | CANARY, 'C02': VALUE | TOK | ALIGN | CANARY, 'C03': FLAG, 'C04': TOK | CANARY, 'C05': TOK | PANICKING,
    'C06': TOK | FLAG | STK, 'C07': TOK | FREE | FLAG, 'C09': REG | CANARY, 'C10': ALIGN | STK,
    'C11': STK | TOK | FREE | VALUE | STATE, 'C12': STK | TOK | VALUE | CANARY, 'C14': STATE | FREE | TOK | FLAG,
    'C15': FLAG | TOK | ALIGN | VALUE | STK | CANARY | REG, 'C16': BOUNDS, 'C17': CHAIN | UREG, 'C18': FP,
    'C20': TOK | FLAG | STATE | FREE, 'C24': CANARY | STATE | ALIGN | STK, 'C25': HOOK | PANICKING,
}
for _p, _m in OTHER.items():
    _q, _t = [j(R(5, 'A'), 'x64a x86a', _m)], [j(R(18, 'A'), 'x64a x86a', _m)]
    if _p not in ('C05', 'C06', 'C25', 'C17'):
        _q.append(j(R(4, 'N'), 'x64nr x86n', _m))
        _t.append(j(R(18, 'N'), 'x64n x64nr x86n x86nr', _m))
    LONG[_p] = (LONG[_p][0] + _q, LONG[_p][1] + _t)
# Going round the cycles of a state graph: quick, thorough.
ROUNDS = {
    'C01': ('ctl~70000 ctlos~70000', 'ctl~300000 ctlos~300000 osps~70000 thr~70000', CTRL | STK),
    'C02': ('ctl~70000', 'ctl~70000 ctlos~70000 osps~70000', VALUE | TOK),
    'C03': ('ctl~70000 panic~3000', 'ctl~70000 reset~70000 panic~70000 trap~70000', FLAG),
    'C04': ('panic~3000 own~10000', 'panic~70000 own~70000 hold~70000 trap~70000', TOK),
    'C05': ('panic~3000 osn~3000', 'panic~70000 osn~70000 ps~70000', TOK | PANICKING),
    'C06': ('panic~3000 stash2~3000', 'panic~70000 stash2~70000 act~70000', TOK | FLAG),
    'C07': ('hold~10000', 'hold~70000 holdc~70000 own~70000', TOK | FREE | FLAG),
    'C08': ('nounw~5000', 'nounw~70000 nounwos~70000', TOK | FLAG),
    'C09': ('ctl~20000', 'ctl~70000 ctlos~70000 trap~70000', REG),
    'C11': ('osn~5000 ctlos~70000', 'osn~70000 ctlos~70000 osps~70000', STK | TOK | FREE | VALUE | STATE),
    'C12': ('osps~10000', 'osps~70000 ps~70000', STK | TOK | VALUE),
    'C14': ('own~10000', 'own~70000 os~70000', STATE | FREE | FLAG),
    'C15': ('trap~10000', 'trap~70000 trapos~70000', FLAG | TOK | VALUE | STK | REG),
    'C19': ('thr~20000', 'thr~200000 thr3~200000', STK | TOK | FLAG | PANICKING),
    'C20': ('reset~5000', 'reset~70000', TOK | FLAG | STATE | FREE),
    'C25': ('panic~3000 hold~5000', 'panic~70000 hold~70000 pan2~20000', HOOK | PANICKING),
}
for _p, (_q, _t, _m) in ROUNDS.items():
    _c = {'C02': ('x64rs', 'x64rs x86rs'), 'C08': ('x64nr', 'x64nr x86nr')}.get(_p, ('x64r', 'x64r x86r'))
    LONG.setdefault(_p, ([], []))
    LONG[_p] = (LONG[_p][0] + [j(_q, _c[0], _m)], LONG[_p][1] + [j(_t, _c[1], _m)])
# In a destructor that runs at the end of a thread, when others have run already.
LATE = {
    'C01': ('ctl', 'ctl ctlos osps', CTRL | STK | CANARY),
    'C05': ('osn', 'panic osn deep', TOK | PANICKING), 'C06': ('stash2', 'panic act', TOK | FLAG), 'C07': ('own', 'own hold holdc', TOK | FREE | FLAG),
    'C11': ('osn', 'osn os', STK | TOK | FREE | VALUE | STATE), 'C12': ('ps', 'ps osps', STK | TOK | VALUE), 'C15': ('trapos', 'trap trapos', FLAG | TOK | VALUE | STK | REG),
    'C19': ('ctl osps hold trap', 'ctl ctlos osps hold trap panic own os', STK | TOK | FLAG | PANICKING | CHAIN), 'C25': ('pan', 'panic pan', HOOK | PANICKING),
}
for _p, (_q, _t, _m) in LATE.items():
    _f = lambda x: ' '.join(y + '!exit' for y in x.split())
    LONG[_p] = (LONG[_p][0] + [j(_f(_q), 'x64r', _m)], LONG[_p][1] + [j(_f(_t), 'x64 x64r x86 x86r', _m)])
# Other ways for the compiler to use the same code.
OTHERWISE = {
    'C01': ('ctlos', 'x64l', CTRL | STK | CANARY), 'C02': ('ctl', 'x64z', VALUE | TOK | CANARY), 'C05': ('osn', 'x64l', TOK | PANICKING),
    'C06': ('stash2', 'x86z', TOK | FLAG | STK), 'C09': ('ctlos osps', 'x64v x64l x86l', REG | CANARY), 'C11': ('osn', 'x64z', STK | TOK | FREE | VALUE),
    'C12': ('ps', 'x64z', STK | TOK | VALUE), 'C15': ('trapos', 'x64l x86z', FLAG | TOK | VALUE | STK | CANARY | REG),
    'C17': ('hold', 'x64z', CHAIN | UREG), 'C18': ('hold', 'x64l', FP),
}
for _p, (_q, _c, _m) in OTHERWISE.items():
    LONG[_p] = (LONG[_p][0] + [j(_q, _c, _m)],
                LONG[_p][1] + [j(_q + ' ctl ctlos osps hold trap', 'x64v x64l x64z' + (' x86l x86z' if _p != 'C17' else ''), _m)])
# Hundreds of coroutines and stacks in use at once.
TALL = {
    'C01': ('T0.300', 'x86r', STK | TOK | VALUE), 'C02': ('T1.140', 'x64r', VALUE | TOK), 'C03': ('T2.140 T3.140', 'x64r x86', FLAG | TOK),
    'C04': ('T2.300 T1.140', 'x64r', TOK | VALUE), 'C05': ('T7.300', 'x64r x86', TOK | PANICKING | STK), 'C06': ('T1.300', 'x64r x86', TOK | FLAG | STK),
    'C07': ('T2.300', 'x86r', FLAG | TOK | STK), 'C11': ('T0.300', 'x64', STK | TOK | FREE | VALUE), 'C12': ('T4.300', 'x64r', STK | TOK | VALUE),
    'C14': ('T1.300 T0.140', 'x64', FREE | STATE | FLAG | TOK), 'C16': ('T4.300', 'x64r x86', BOUNDS | STK), 'C17': ('T2.300', 'x64r', CHAIN | UREG),
    'C18': ('T0.300', 'x64', FP), 'C20': ('T5.300', 'x86', FLAG | FREE | TOK | STK), 'C25': ('T3.140', 'x64 x86', HOOK | PANICKING | TOK),
}
_ALL = 'T0.300 T1.300 T2.300 T3.300 T4.600 T5.600 T6.600 T7.600 T8.140 T9.140 T10.140 T11.140'
for _p, (_q, _c, _m) in TALL.items():
    LONG[_p] = (LONG[_p][0] + [j(_q, _c, _m)], LONG[_p][1] + [j(_ALL, 'x64 x64r x86 x86r', _m)])
for _p, (_q, _t) in LONG.items():
    JOBS[_p] = (JOBS[_p][0] + _q, JOBS[_p][1] + _t)

ASSUME = [
    'x86-64 and i686 Linux only: the other architectures and Windows can be neither built nor run here',
    'the specification is explored within the constants of the profiles in lib/profiles.py',
]
TECH = {
    'C10': 'TLA+ specification of placement checked with TLC; every enumerated case run on the real crate and its observation judged by the specification',
    'C13': 'TLA+ specification of default stacks in an address space; histories generated by TLC run on the real crate with faults injected, every observation judged by the specification',
    'C21': 'TLA+ specification of what client programs the types allow, checked sound by TLC; every enumerated program given to the compiler and the verdicts compared',
    'C22': 'TLA+ specification of default stacks; histories generated by TLC run under Valgrind, its registrations judged by the specification; walks of the coroutine specification run under memcheck',
    'C24': 'TLA+ specification checked with TLC; its state graph and placement cases replayed on custom stacks whose contract checks and surroundings are observed',
}
NOTE = {}
NA = {}
