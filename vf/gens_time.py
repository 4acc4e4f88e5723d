from .core import op, Conf
from .registry import add


# ---------------------------------------------------------------- C12 timeouts and stopwatch
def timers(rng, i, n):
    u = rng.randint(0, 1)
    big = rng.random() < .3
    P = lambda: rng.choice([0, 1, 2, 5, 1000, rng.randint(1, 100000), rng.randint(1, 2 ** 30) if big else 7])
    yield op('new', [u, rng.choice([0, 1, 1, 2, rng.randint(3, 10 ** 6)]), P()])
    bigs = tot = run = 0
    for _ in range(rng.randint(20, 80)):
        k = rng.random()
        if k < .35:
            ms, us = rng.choice([0, 0, 1, 2, 10, 1000]), rng.choice([0, 1, 5, 999, 1000, 100000])
            if u == 1 and bigs < 3 and run < 0 and rng.random() < .1:
                ms, bigs = rng.randint(10 ** 6, 2 ** 30 - 1), bigs + 1
            yield op('wait', [ms, us])
        elif k < .45: bigs = 0; yield op('reset')
        elif k < .58: bigs = 0; yield op('resetp', [P()])
        elif k < .68: yield op('period', [P()])
        elif k < .72: bigs = 0; yield op('trigger')
        elif k < .85: run = 0; yield op('start')
        elif k < .98: run = -1; yield op('stop')
        else: yield op('clear')


add('C12', 'Timeouts and stopwatch', Conf('Timers', 'timers.cpp', mc=['MC_Timers.cfg'], edge='MC_Timers_edges.cfg',
                                         gen=timers, n=(400, 6000)))


# ---------------------------------------------------------------- C09 StateMachine
def fsm(rng, i, n):
    cap = rng.choice([1, 2, 3, 4, 6, 8])
    yield op('new', [cap, rng.randint(0, 5), rng.choice([0, 1, rng.randint(2, 4294967290)])])
    good = lambda: rng.randint(0, 5)
    any_ = lambda: rng.choice([good(), good(), good(), good(), good(), good(), 6, 7, 200])
    T = lambda: rng.choice([0, 1, 5, 50, 1000, rng.randint(0, 100000)])
    for _ in range(rng.randint(20, 100)):
        k = rng.random()
        if k < .12: yield op('set', [], [any_() if rng.random() < .3 else good() for _ in range(rng.randint(0, min(10, cap + 2)))])
        elif k < .26: yield op('append', [], [any_() if rng.random() < .3 else good() for _ in range(rng.randint(0, min(10, cap + 2)))])
        elif k < .36: yield op('post', [any_()])
        elif k < .46: yield op('pre', [any_()])
        elif k < .76: yield op('advance', [rng.choice([0, 0, 0, -1, 1]), rng.choice([-1, -1, -1, T()])])
        elif k < .78: yield op('reset', [good()])
        elif k < .80: yield op('mark', [good()])
        elif k < .84: yield op('slow', [T()])
        elif k < .87: yield op('lock', [T()])
        elif k < .95: yield op('wait', [T()])
        else: yield op('isnext', [any_()])


add('C09', 'State machine', Conf('StateMachine', 'statemachine.cpp', mc=['MC_StateMachine.cfg'], edge='MC_StateMachine_edges.cfg',
                                 gen=fsm, n=(300, 6000)))


# ---------------------------------------------------------------- C10 AsyncSequencer
def sequencer(rng, i, n):
    k = rng.choice([1, 2, 3, 5, 8, 16, 32])
    flags = rng.sample(range(32), k)
    order = list(range(k))
    if rng.random() < .5: rng.shuffle(order)       # dependencies may be listed before or after their dependents
    dens = rng.choice([.1, .3, .7])
    deps = [[flags[order[b]] for b in range(k) if order.index(s) > b and rng.random() < dens] for s in range(k)]
    if rng.random() < .1 and k < 32: deps[rng.randrange(k)].append(rng.choice([b for b in range(32) if b not in flags]))
    if rng.random() < .3: deps = [[flags[order[order.index(s) - 1]]] if order.index(s) else [] for s in range(k)]   # one long chain
    yield op('new', flags, *deps)
    m = lambda: rng.sample(flags, rng.randint(1, k)) if rng.random() < .5 else [rng.choice(flags)]
    yield op('request', m())
    good = rng.choice([.5, .8, .95])
    ans = lambda: 1 if rng.random() < good else rng.choice([0, 0, 0, -1, 2])
    for _ in range(rng.randint(10, 60)):
        x = rng.random()
        if x < .75: yield op('poll', [], [ans() for _ in range(k)], [ans() for _ in range(k)])
        elif x < .83: yield op('request', m() if rng.random() < .8 else rng.sample(range(32), 3))
        elif x < .90: yield op('resetsteps', m())
        elif x < .91: yield op('resetall')
        elif x < .93: yield op('setstate', [], *[sorted(rng.sample(range(32), rng.randint(0, 6))) for _ in range(5)])
        else: yield op('mask', m())


add('C10', 'Sequencer', Conf('AsyncSequencer', 'asyncsequencer.cpp', mc=['MC_AsyncSequencer.cfg'],
                             edge='MC_AsyncSequencer_edges.cfg', gen=sequencer, n=(300, 6000)))


# ---------------------------------------------------------------- C11 Scheduler
def scheduler(rng, i, n):
    yield op('new', [rng.choice([0, 1, 1, 2, rng.randint(10, 2 ** 31 - 20)])])
    k = rng.choice([1, 2, 4, 10])
    P = lambda: 10 * rng.choice([0, 1, 5, 10, 100, rng.randint(0, 1000)])
    for s in range(k): yield op('make', [s, P(), rng.choice([-1, -1, 0, 1, 2, 3]), rng.choice([1, 1, 0])])
    for s in range(k):
        if rng.random() < .8: yield op('add', [s])
    for _ in range(rng.randint(20, 100)):
        s = rng.randrange(k)
        x = rng.random()
        if x < .25: yield op('tick')
        elif x < .45: yield op('service')
        elif x < .65: yield op('wait', [10 * rng.choice([0, 1, 4, 10, 100, rng.randint(0, 2000)])])
        elif x < .68: yield op('add', [s])
        elif x < .73: yield op('enable', [s, rng.randint(0, 1)])
        elif x < .78: yield op('delay', [s])
        elif x < .81: yield op('delayby', [s, P()])
        elif x < .85: yield op('setrec', [s, rng.choice([-1, 0, 1, 2, 5])])
        elif x < .87: yield op('setper', [s, P()])
        elif x < .98: yield op('script', [s, 10 * rng.choice([0, 1, 50]), rng.randint(0, 1), 10 * rng.choice([0, 1, 50]), rng.choice([-1, -1, 0, 1]), rng.choice([-2, -2, -1, 0, 1, 2])])
        else: yield op('has', [s])


add('C11', 'Scheduler', Conf('Scheduler', 'scheduler.cpp', mc=['MC_Scheduler.cfg'], mc_thorough=['MC_Scheduler_big.cfg'],
                             edge='MC_Scheduler_edges.cfg', gen=scheduler, n=(300, 6000), driver_env={'VF_FORK': '1'}))
