from .core import op, Conf
from .registry import add


def digest(n):
    return [((n >> (8 * i)) & 255) ^ 0xAA for i in range(4)]


def le(n, w):
    return [(n >> (8 * i)) & 255 for i in range(w)]


def image(rng, kind, tag, pay):
    name = [rng.choice([0x61, 0x62, 0x5a]) for _ in range(rng.choice([1, 3, 15, 16]))]
    name += [0] * (16 - len(name))
    return tag + [1, rng.choice([0, 0, 8, 255]), kind, 98] + name + le(len(pay), 4) + [rng.randrange(256) for _ in range(8)] + digest(len(pay)) + pay


def record(rng, i, n):
    kind = rng.choice([4, 5, 1])
    tags = [[1, 2, 3, 4], [1, 2, 3, 132], [0, 0, 0, 0], [255, 255, 255, 255]]
    yield op('new', [kind])
    def payload(): return [rng.choice([0, 1, 7, 200, 255]) for _ in range(rng.choice([0, 1, 2, 5, 39, 40, 41, 80, rng.randint(0, 300)]))]
    for _ in range(rng.randint(8, 40)):
        k = rng.random()
        if k < .15: yield op('pay', [], payload())
        elif k < .18: yield op('fail', [rng.randint(0, 1)])
        elif k < .38: yield op('save', [], rng.choice(tags), [rng.choice([0x61, 0x62, 0x20, 0xe9]) for _ in range(rng.choice([0, 1, 3, 15, 16, 17, 40, 255, 256, 257, 300, 512]))])
        elif k < .70:
            tag = rng.choice(tags)
            b = image(rng, rng.choice([kind] * 9 + [0, 6]), tag, payload())
            q = rng.random()
            if q < .12: b = b[:rng.choice([0, 1, 39, 40, 41, len(b) - 1, rng.randint(0, len(b))])]
            elif q < .30: b = b + [rng.choice([0, 255, 7]) for _ in range(rng.randint(1, 60))]
            elif q < .45:
                w = rng.choice([4, 5, 6, 7, 24, 25, 26, 27, rng.randrange(40)])
                b[w] = rng.choice([0, 1, 98, 255, b[w] ^ 1, b[w] ^ 128, rng.randrange(256)])
            elif q < .60:     # a length that agrees with the digest and not with the data
                m = max(0, len(b) - 40 + rng.choice([-2, -1, 1, 2, 300, 65536, 16777216, 2147483647, 4294967295 - len(b) + 1, 4294967295]))
                b[24:28] = le(m, 4); b[36:40] = digest(m)
            elif q < .65: b[24:28] = [rng.choice([0, 1, 255]) for _ in range(4)]
            yield op('load', [rng.randint(0, 1)], tag if rng.random() < .85 else rng.choice(tags), b)
        elif k < .80: yield op('stat')
        elif k < .88: yield op('name')
        elif k < .94: yield op('new', [kind])


add('C26', 'SimpleDataRecord',
    Conf('Record', 'record.cpp', mc=['MC_Record.cfg'], edge='MC_Record_edges.cfg', gen=record, n=(500, 6000)))


# ---------------------------------------------------------------- C30 enumerated definitions and the records they key
def confrec(rng, i, n):
    from .gens_values import NT, rawnum, limbs
    pool = [[0x61], [0x62], [0x61, 0x62], [0x61, 0x42], [0x5a, 0x2d, 0x31], [0x41], [0xc3, 0xa9], [0x5b], [0x7b], [0x40], [0x60],
            [0x6b] * 24, [0x6b] * 25, [0x78] * 40, [0x61, 0x20, 0x61], [0x25, 0x73]]
    distinct = rng.random() < .75
    def lowered(s): return bytes(s).lower()
    def mk():
        cnt = rng.choice([1, 2, 3, 5, 8, 12])
        names = []
        for _ in range(cnt):
            s = rng.choice(pool) if rng.random() < .7 else [rng.randint(0x21, 0x7e) for _ in range(rng.randint(1, 30))]
            if distinct and any(lowered(x) == lowered(s) for x in names): continue
            names.append(s)
        a = []
        vals = list(range(0, 40)); rng.shuffle(vals)
        for j, _ in enumerate(names):
            a += [rng.choice([0, 65535, 256]) if rng.random() < .1 else vals[j] if rng.random() < .9 else vals[0],
                  rng.choice([0, 0, 0, 0, 0, 1, 2, 3, 4, 255]), rng.choice(NT + NT + [0])]
        return a, names
    a, names = mk()
    yield op('list', a, *names)
    def key():
        by = rng.randint(0, 1)
        s = rng.choice(names)
        q = rng.random()
        if q < .1: s = [c ^ 32 if 65 <= (c & 0xdf) <= 90 else c for c in s]
        elif q < .15: s = s + [rng.choice([0x61, 0x5f])]
        elif q < .2: s = s[:-1]
        return by, (rng.choice(a[0::3]) if rng.random() < .9 else rng.choice([0, 1, 40, 41, 65535])), s
    last = {}
    for _ in range(rng.randint(10, 50)):
        k = rng.random()
        if k < .35:
            by, v, s = key(); x = rng.choice(NT)
            yield op('set', [by, v, x], limbs(rawnum(rng, x)), s)
        elif k < .6:
            by, v, s = key()
            yield op('get', [by, v, rng.choice(NT)], s)
        elif k < .64: yield op('alloc', [rng.randint(0, 1)])
        elif k < .68: yield op('print')
        elif k < .72: yield op('keys')
        elif k < .82: yield op('bystr', [], key()[2])
        elif k < .97: yield op(rng.choice(['valid', 'str', 'extra', 'def']), [key()[1]])
        else:
            a, names = mk()
            yield op('list', a, *names)


add('C30', 'configuration records and enumerated keys',
    Conf('ConfRec', 'confrec.cpp', mc=['MC_ConfRec.cfg'], edge='MC_ConfRec_edges.cfg', gen=confrec, n=(400, 6000)))
