from .core import op, Conf
from .registry import add

# ---------------------------------------------------------------- C14 numeric conversions
NT = [1, 2, 3, 4, 6, 7, 8, 9, 11, 12, 13]
NW = {1: 8, 6: 8, 11: 8, 2: 16, 7: 16, 3: 32, 8: 32, 12: 32, 4: 64, 9: 64, 13: 64}


def limbs(x, n=4):
    return [(x >> (16 * i)) & 0xFFFF for i in range(n)]


def rawnum(rng, t):
    w = NW[t]
    if t == 11:
        return rng.randint(0, 1)
    if t == 12:
        k = rng.random()
        e = rng.choice([0, 0, 1, 127, 254, 255, rng.randrange(256), 127 + rng.choice([6, 7, 8, 14, 15, 16, 23, 24, 30, 31, 32, 62, 63, 64])])
        f = 0 if e == 255 and k < .7 else (1 << 22) if e == 255 else rng.choice([0, 1, rng.getrandbits(23), (1 << 23) - 1])
        return rng.getrandbits(1) << 31 | e << 23 | f
    if t == 13:
        e = rng.choice([0, 1, 1023, 2046, 2047, rng.randrange(2048), rng.randint(870, 1160), 1023 + rng.choice([6, 7, 8, 14, 15, 16, 23, 24, 30, 31, 32, 52, 53, 62, 63, 64])])
        f = 0 if e == 2047 else rng.choice([0, 1, rng.getrandbits(52), (1 << 52) - 1, 1 << 51, 1 << 29, 1 << 28, rng.getrandbits(8) << 44, rng.getrandbits(24) << 28])
        return rng.getrandbits(1) << 63 | e << 52 | f
    k = rng.random()
    if k < .3:
        return sum(rng.choice([0, 0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF]) << (16 * i) for i in range(4)) % (1 << w)
    if k < .6:
        b = rng.choice([7, 8, 15, 16, 24, 25, 31, 32, 53, 54, 63, 64])
        v = (1 << b) + rng.choice([-129, -2, -1, 0, 1, 2, 127])
        return (v if rng.random() < .5 else -v) % (1 << w)
    return rng.getrandbits(rng.randint(1, w)) * rng.choice([1, -1]) % (1 << w)


def num(rng, i, n):
    t = rng.choice(NT)
    yield op('new', [t, rng.choice([0, 1, 1, 1])], limbs(rawnum(rng, t)))
    for _ in range(rng.randint(20, 80)):
        k = rng.random()
        if k < .45:
            x = rng.choice(NT)
            yield op('set', [x, rng.randint(0, 1)], limbs(rawnum(rng, x)))
        elif k < .7: yield op('get', [rng.choice(NT)])
        elif k < .85: yield op('getc', [rng.choice([3, 4, 8, 9, 11, 12, 13])])
        elif k < .93 and t not in (12, 13): yield op('text')
        elif k < .97: yield op('risk', [rng.choice(NT), rng.choice(NT)])
        else: yield op('dirty', [rng.randint(0, 30)])


add('C14', 'numeric conversions',
    Conf('NumValue', 'numvalue.cpp', mc=['MC_NumValue.cfg'], edge='MC_NumValue_edges.cfg', gen=num, n=(1200, 10000)))


# ---------------------------------------------------------------- C15 values and pairs in lists
def vval(rng, ty):
    if ty == 1: return [rng.randrange(256) for _ in range(4)]
    if ty == 2: return [rng.randint(1, 255) for _ in range(rng.choice([0, 1, 2, 7, 40]))]
    if ty == 5: return [rng.randint(-32768, 32767) for _ in range(3)]
    return [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 7, 40]))]


KEYS = [[97], [98, 98], [97, 98], [99] * 30, []]


def vlist(rng, i, n):
    sim = []            # list lengths and reap flags: the generator follows the structure to aim its operations
    info = {}
    made = 0
    refs = rng.random() < .7
    for _ in range(rng.randint(20, 90)):
        k = rng.random()
        if not sim or (k < .2 and made < 40):
            kind = rng.choice([0, 1, 1, 2, 3])
            ty = rng.choice([1, 2, 3, 4, 5] if refs else [1])
            own = 1 if ty in (3, 4) and rng.random() < .5 or (ty == 2 and kind == 0 and rng.random() < .5) else 0
            key = rng.choice(KEYS) if kind in (1, 2) else []
            yield op('new', [kind, ty, own], key, vval(rng, ty))
            made += 1
            info[made] = dict(kind=kind, ty=ty, own=own, reap=0)
            sim.append([made])
            continue
        a = rng.randrange(len(sim))
        b = rng.randrange(len(sim))
        s = sim[a]
        p = rng.randrange(len(s))
        nd = info[s[p]]
        if k < .42 and a != b:
            r = rng.choice([0, 1, 1])
            yield op('link', [a + 1, b + 1, r])
            info[sim[b][0]]['reap'] = r
            s += sim[b]
            sim.pop(b)
        elif k < .47:
            if p == 0: continue
            x = rng.randint(0, 1)
            yield op('unlink', [a + 1, p + 1, x])
            rest = s[p:]
            sim[a] = s[:p]
            if x and info[rest[0]]['reap']:
                rest = rest[1:]
                while rest and info[rest[0]]['reap']: rest = rest[1:]
            if rest: sim.append(rest)
        elif k < .52:
            x = rng.randint(0, 1)
            yield op('drop', [a + 1, p + 1, x])
            m = s.pop(p)
            if not s: sim.pop(a)
            if not (x and info[m]['reap']): sim.append([m])
        elif k < .54:
            yield op('del', [a + 1])
            rest = s[1:]
            while rest and info[rest[0]]['reap']: rest = rest[1:]
            sim.pop(a)
            if rest: sim.append(rest)
        elif k < .56 and a != b: yield op(rng.choice(['unlinkmiss', 'dropmiss']), [a + 1, b + 1, 0])
        elif k < .61 and nd['kind']: yield op('setkey', [a + 1, p + 1, rng.randint(0, 1)], rng.choice(KEYS)); nd['kind'] = nd['kind'] if nd['kind'] != 3 else 1
        elif k < .70 and not nd['own']:
            ty = nd['ty'] if rng.random() < .8 else rng.randint(1, 5)
            yield op('set', [a + 1, p + 1, ty], vval(rng, ty))
        elif k < .80: yield op('read', [a + 1, p + 1])
        elif k < .83:
            ty = rng.randint(1, 5)
            if ty != nd['ty'] and not (nd['ty'] == 2 and ty == 4): yield op('wrong', [a + 1, p + 1, ty])
        elif k < .86 and nd['ty'] in (2, 4): yield op('text', [a + 1, p + 1])
        elif k < .89: yield op('idx', [a + 1, rng.randint(0, len(s) + 1)])
        elif k < .91: yield op('count', [a + 1, p + 1])
        elif k < .95 and info[s[0]]['kind']: yield op('find', [a + 1], rng.choice(KEYS + [[120]]))
        elif k < .97 and info[s[0]]['kind']: yield op('keys', [a + 1])
        elif nd['kind']: yield op('nextpair', [a + 1, p + 1])
    yield op('end')


add('C15', 'values and pairs in lists',
    Conf('ValueList', 'valuelist.cpp', mc=['MC_ValueList.cfg'], mc_thorough=['MC_ValueList_big.cfg'], edge='MC_ValueList_edges.cfg', gen=vlist,
         n=(400, 6000), suffix=[op('end')]),
    Conf('ValueList', 'valuelist.cpp', edge='MC_ValueList_vals.cfg', name='ValueListVals', suffix=[op('end')]))
