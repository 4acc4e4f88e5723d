from .core import op, Conf
from .registry import add


# ---------------------------------------------------------------- C01 RingBuffer
def ringbuffer(rng, i, n):
    cap = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 33])
    yield op('new', [cap])
    vals = rng.choice([3, 200, 65535])
    v = lambda: rng.randint(0, vals)
    for _ in range(rng.randint(20, 120)):
        k = rng.random()
        if k < .25: yield op('insert', [v()])
        elif k < .35: yield op('absent', [v()])
        elif k < .50: yield op('insertN', [], [v() for _ in range(rng.randint(0, cap + 2))])
        elif k < .62: yield op('get')
        elif k < .66: yield op('peek')
        elif k < .76: yield op('getN', [rng.randint(0, cap + 2)])
        elif k < .84: yield op('peekN', [rng.randint(0, cap + 2)])
        elif k < .92: yield op('cull', [rng.randint(0, cap + 2)])
        elif k < .98: yield op('contains', [v()])
        else: yield op('clear')


add('C01', 'Ring buffer is a bounded FIFO under every mix of single, bulk, peek and cull calls',
    Conf('RingBuffer', 'ringbuffer.cpp', mc=['MC_RingBuffer.cfg'], edge='MC_RingBuffer_edges.cfg', gen=ringbuffer, n=(400, 6000)))


# ---------------------------------------------------------------- C02 LinkedList
def linkedlist(rng, i, n):
    yield op('new')
    m = rng.choice([2, 4, 200])
    v = lambda: rng.randint(1, m)
    w = rng.choice([.3, .45, .6])
    size = 0
    for _ in range(rng.randint(20, 120)):
        k = rng.random()
        if k < w: yield op(rng.choice(['insert', 'head']), [v()])
        elif k < w + .1: yield op('removeval', [v()])
        elif k < w + .2: yield op('removeat', [rng.randint(-1, 8)])
        elif k < w + .25: yield op('pop')
        elif k < w + .27: yield op('clear')
        elif k < .9: yield op('contains', [v()])
        elif k < .95: yield op('getat', [rng.randint(-1, 12)])
        else: yield op(rng.choice(['get', 'has']))
    yield op('end')


add('C02', 'Linked list', Conf('LinkedList', 'linkedlist.cpp', mc=['MC_LinkedList.cfg'], edge='MC_LinkedList_edges.cfg',
                               gen=linkedlist, n=(300, 6000), suffix=[op('end')]))


# ---------------------------------------------------------------- C03 PriorityQueue
def priorityqueue(rng, i, n):
    yield op('new')
    m = rng.choice([3, 8, 200])
    v = lambda: rng.randint(1, m)
    lo, hi = rng.choice([(0, 2), (-3, 4), (-100000, 100000)])
    p = lambda: rng.randint(lo, hi)
    for _ in range(rng.randint(20, 120)):
        k = rng.random()
        if k < .30: yield op('insert', [v(), p()])
        elif k < .45: yield op('absent', [v(), p()])
        elif k < .52: yield op('dequeue')
        elif k < .57: yield op('recycle')
        elif k < .62: yield op('removeval', [v()])
        elif k < .67: yield op('removeat', [rng.randint(-1, 8)])
        elif k < .83: yield op(rng.choice(['inc', 'dec']), [v()])
        elif k < .84: yield op('clear')
        elif k < .92: yield op(rng.choice(['pos', 'prival', 'contains']), [v()])
        elif k < .97: yield op(rng.choice(['getat', 'pripos', 'bypri']), [rng.randint(-1, 8)])
        else: yield op(rng.choice(['get', 'has']))
    yield op('end')


add('C03', 'Priority queue', Conf('PriorityQueue', 'priorityqueue.cpp', mc=['MC_PriorityQueue.cfg'],
                                  edge='MC_PriorityQueue_edges.cfg', edge_thorough='MC_PriorityQueue_edges4.cfg',
                                  gen=priorityqueue, n=(400, 6000), suffix=[op('end')]))


# ---------------------------------------------------------------- C04 ElementPool
def elementpool(rng, i, n):
    cap, lim = rng.randint(1, 6), rng.randint(0, 5)
    yield op('new', [cap, lim, rng.randint(0, 1)])
    held, over = {}, 0
    for _ in range(rng.randint(20, 100)):
        k = rng.random()
        free = [s for s in range(12) if s not in held]
        if k < .5 and free:
            s = rng.choice(free)
            pool = sum(1 for x in held.values() if x == 1)
            heap = len(held) - pool
            if pool < cap: held[s] = 1
            elif heap < lim: held[s] = 2
            yield op('take', [s])
        elif k < .9 and held:
            s = rng.choice(sorted(held))
            del held[s]
            yield op('give', [s])
        elif k < .95: yield op('alloc')
        elif k < .99:
            lim = rng.randint(0, 5)
            yield op('limit', [lim])
    for s in sorted(held): yield op('give', [s])
    yield op('end')


add('C04', 'Element pool', Conf('ElementPool', 'elementpool.cpp', mc=['MC_ElementPool.cfg'], edge='MC_ElementPool_edges.cfg',
                                gen=elementpool, n=(300, 6000)))
