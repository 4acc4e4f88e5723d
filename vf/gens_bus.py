from .core import op, Conf
from .registry import add


# ---------------------------------------------------------------- C28 UART
def uart(rng, i, n):
    t, r = rng.choice([1, 2, 5, 16, 64, 255]), rng.choice([1, 2, 5, 16, 64, 255])
    p, q = rng.choice([(1, 1), (1, 1), (1, 1), (1, 0), (0, 1)])
    opts = lambda: [rng.choice([0, 150, 255, rng.randrange(256)]) for _ in range(4)] + [1, 8, rng.randint(0, 2), rng.randint(0, 4), rng.randint(0, 3), 19, 17, rng.randrange(256)]
    yield op('new', [t, r, p, q])
    def data(m): return [rng.randrange(256) for _ in range(m)]
    def size(c): return rng.choice([0, 1, 2, c - 1, c, c + 1, 2 * c + 3, rng.randint(0, c)])
    given = False
    if rng.random() < .9:
        yield op('init', [], opts()); given = True
    full = rng.random() < .3
    for _ in range(rng.randint(10, 70)):
        k = rng.random()
        if k < .14:
            yield op('push', [], *[data(max(0, size(t))) for _ in range(rng.randint(0, 4))])
        elif k < .34:
            w = rng.randint(0, 3)
            if w == 0: yield op('write', [0], *[data(max(0, size(t))) for _ in range(rng.randint(0, 3))])
            elif w == 1: yield op('write', [1], data(max(0, size(t))))
            elif w == 2: yield op('write', [2], [rng.randint(1, 255) for _ in range(max(0, size(t)))])
            else: yield op('write', [3], [rng.randrange(256)])
        elif k < .44: yield op('readn', [max(0, size(r))])
        elif k < .52: yield op('reads', [], data(rng.choice([0, 0, 1, 5])))
        elif k < .62: yield op('sink', [rng.choice([-2, -1, 0, 1, 3, r, r + 5, 1000]), rng.choice([0, 1, 2, r, 1000])])
        elif k < .84: yield op('poll', [0 if full and rng.random() < .8 else max(0, size(t)), 1 if rng.random() < .05 else 0], data(max(0, size(r))), data(rng.choice([0, 0, 1, 2, r])))
        elif k < .88: yield op('tick', [rng.choice([0, 1, 20, 49, 50, 51, 100])])
        elif k < .92: yield op('silent')
        elif k < .94: yield op('hw', [rng.choice([0, 0, 0, -1]), rng.choice([0, 0, 0, -1])])
        elif k < .96: yield op(rng.choice(['deinit', 'reset']))
        elif k < .985:
            o = opts() if not given or rng.random() < .4 else []
            given = True
            yield op('init', [], o)
        elif given: yield op('opts')


add('C28', 'UART adapter',
    Conf('UART', 'uart.cpp', mc=['MC_UART.cfg'], edge='MC_UART_edges.cfg', gen=uart, n=(300, 4000)))


# ---------------------------------------------------------------- C27 bus adapters
def bus(rng, i, n):
    kind = rng.randint(1, 2)
    yield op('new', [kind, rng.choice([1, 2, 4]), rng.choice([1, 2, 3, 8]), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1), -1 if rng.random() < .05 else 0])
    S = 8
    style = rng.random()
    for _ in range(rng.randint(20, 120)):
        k = rng.random()
        j = rng.randint(1, S)
        if k < .22:
            own = rng.choice([1, 2, 2])
            yield op('job', [j, own, rng.choice([0, 1, 1, 2, 2]) if own == 1 else rng.randint(1, 2), rng.choice([0, 0, 0, 1, 2, -1]),
                             rng.randint(j + 1, S) if j < S and rng.random() < .3 else 0, 1 if rng.random() < .1 else 0, rng.choice([0, 1, 2, 3])])
        elif k < .45: yield op('submit', [j, rng.choice([0, 0, 1, 2, 5]) if kind == 2 else 0])
        elif k < .48: yield op('drop', [j])
        elif k < .70: yield op('poll')
        elif k < .80: yield op('serve') if kind == 2 else op('poll')
        elif k < .88: yield op('irq', [rng.randint(0, 1)])
        elif k < .95: yield op('hw', [rng.choice([0, 0, 1, 1, 2, 3]), rng.choice([0, 1, 1, 2])])
        elif k < .975: yield op('purgedev', [rng.randint(1, 2)])
        elif k < .99: yield op('purge', [rng.randint(0, 1)])
        elif rng.random() < .3: yield op('new', [kind, 1, 2, rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1), 0])


add('C27', 'bus adapters',
    Conf('Bus', 'bus.cpp', mc=['MC_Bus.cfg'], mc_thorough=['MC_Bus_thorough.cfg'], edge='MC_Bus_edges.cfg', edge_thorough='MC_Bus_edges_thorough.cfg', gen=bus, n=(300, 4000)))
