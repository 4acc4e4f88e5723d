from .core import op, Conf
from .registry import add


def limbs(x, n=4):
    return [(x >> (16 * i)) & 0xFFFF for i in range(n)]


def number(rng, bits=64):
    k = rng.random()
    if k < .6:
        return ((1 << rng.choice([0, 4, 5, 7, 8, 15, 16, 24, 31, 32, 48, 63, 64])) + rng.choice([-9, -8, -2, -1, 0, 1, 7, 8])) % (1 << bits)
    return rng.getrandbits(rng.randint(1, bits))


def head(rng, major, n, exact=False):
    sizes = [s for s in (0, 1, 2, 4, 8) if n < ((24 if s == 0 else 1 << (8 * s)))]
    if exact or rng.random() < .7: s = sizes[0]
    else: s = rng.choice(sizes)
    if s == 0: return [major << 5 | n]
    return [major << 5 | {1: 24, 2: 25, 4: 26, 8: 27}[s]] + list(n.to_bytes(s, 'big'))


def text(rng, n):
    return [rng.choice([0x61, 0x62, 0x7a, 0xe2, 0x20, 0x30]) for _ in range(n)]


def atom(rng):
    m = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 7])
    if m in (2, 3):
        n = rng.choice([0, 1, 2, 5, 23, 24, 40, 255, 256, 300])
        h = head(rng, m, n)
        if h[0] & 31 == 27: h = head(rng, m, n, True)
        body = text(rng, n) if m == 3 else [rng.randrange(256) for _ in range(n)]
        if m == 3 and body and rng.random() < .1: body[rng.randrange(n)] = 0
        return h + body
    if m in (4, 5): return head(rng, m, number(rng, 32))
    if m == 7:
        k = rng.choice([20, 21, 22, 23, 24, 25, 26, 27, rng.randint(0, 23)])
        return [0xE0 | k] + [rng.randrange(256) for _ in range({24: 1, 25: 2, 26: 4, 27: 8}.get(k, 0))]
    return head(rng, m, number(rng))


def bad(rng):
    k = rng.random()
    if k < .5: return [rng.randrange(8) << 5 | rng.choice([28, 29, 30, 31])]
    m = rng.choice([2, 3, 4, 5])
    if k < .8: return [m << 5 | 27] + [rng.randrange(256) for _ in range(8)]
    return [rng.choice([2, 3]) << 5 | 26, rng.randint(128, 255)] + [rng.randrange(256) for _ in range(3)]


def stream(rng, i, n):
    yield op('new', [rng.randint(0, 1)])
    data = []
    for _ in range(rng.randint(1, 14)): data += atom(rng)
    if rng.random() < .3:
        data += bad(rng)
        for _ in range(rng.randint(0, 3)): data += atom(rng)
    if rng.random() < .3: data = data[:rng.randint(0, len(data))]
    p = 0
    while p < len(data):
        k = rng.choice([1, 1, 2, 3, 8, 30, 200])
        yield op('feed', [], data[p:p + k])
        p += k
    if rng.random() < .5: yield op('whole', [], data)
    if rng.random() < .3: yield op('whole', [], [rng.randrange(256) for _ in range(rng.randint(0, 12))])
    for _ in range(rng.randint(0, 8)):
        k = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 11, 12])
        w, v, d = 64, 0, []
        if k == 0: w = rng.choice([8, 16, 32, 64]); v = number(rng, w)
        elif k == 1:
            w = rng.choice([8, 16, 32, 64]); v = number(rng, w)
            if v >> (w - 1): v = (v - (1 << w)) % (1 << 64)
        elif k in (4, 5, 6): v = number(rng, 32)
        elif k == 7: v = rng.randint(0, 1)
        elif k == 11: v = number(rng, 32)
        elif k == 12: v = number(rng)
        else:
            w = rng.randint(0, 1)
            d = text(rng, rng.choice([0, 1, 3, 23, 24, 255, 256, 300, 1000]))
        if rng.random() < .5: yield op('enc', [k, w] + limbs(v), d)
        else: yield op('encto', [rng.choice([0, 1, 2, 3, 5, 9, 24, 26, 1003]), k, w] + limbs(v), d)


add('C17', 'streaming CBOR codec',
    Conf('CborStream', 'cborstream.cpp', mc=['MC_CborStream.cfg'], mc_thorough=['MC_CborStream_big.cfg'], edge='MC_CborStream_edges.cfg', gen=stream, n=(500, 8000)))


# ---------------------------------------------------------------- C16 values in CBOR
VEC = {56: (85, 12), 57: (86, 24), 58: (72, 3), 59: (64, 3), 60: (77, 6), 61: (69, 6), 62: (78, 12), 63: (70, 12)}


def bts(rng, n): return [rng.randrange(256) for _ in range(n)]


def item(rng, depth, junk=True):
    k = rng.random()
    if depth <= 0 or k < .6:
        k = rng.random()
        if k < .2: return head(rng, 0, number(rng))
        if k < .4: return head(rng, 1, number(rng))
        if k < .5: n = rng.choice([0, 1, 3, 24, 300]); return head(rng, 2, n) + bts(rng, n)
        if k < .65:
            n = rng.choice([0, 1, 3, 24, 300]); t = text(rng, n)
            if n and rng.random() < .1: t[rng.randrange(n)] = 0
            return head(rng, 3, n) + t
        if k < .72: return [rng.choice([0xF4, 0xF5, 0xF4, 0xF5, 0xF6, 0xF7])]
        if k < .78: return [0xFA] + bts(rng, 2) + [rng.randrange(256), rng.randrange(256)] if rng.random() < .5 else [0xFA, 0x40, 0x49, 0x0F, 0xDB]
        if k < .84: return [0xFB] + ([0x40, 9] + bts(rng, 6))
        if k < .96 or not junk:
            t = rng.choice(list(VEC)); tag, n = VEC[t]
            if rng.random() < .1: n = max(0, n + rng.choice([-1, 1, -n]))
            body = bts(rng, n)
            if t == 56: body = ([0, 0, 0x80, 0x3F] * 6)[:n]
            if t == 57: body = ([0, 0, 0, 0, 0, 0, 0xF0, 0x3F] * 6)[:n]
            return [217, 233, t, 216, tag] + head(rng, 2, n) + body
        return rng.choice([[0xE0 | rng.randrange(32)] + [rng.randrange(200) for _ in range(9)], [0x80], [0xA0], head(rng, 6, rng.randrange(1000)) + [1], bad(rng), [0x9B, 0, 0, 0, 1, 0, 0, 0, 1, 5],
                           [0x5B, 0, 0, 0, 1, 0, 0, 0, 1, 5], [0x7B, 0, 0, 0, 1, 0, 0, 0, 1, 5], [0xBB, 0, 0, 0, 1, 0, 0, 0, 1, 0x61, 0x61, 5], [0x5A, 255, 255, 255, 255, 1], [0x7A, 255, 255, 255, 250, 1]])
    n = rng.choice([1, 1, 2, 3, 5])
    if k < .78:
        out = head(rng, 4, n)
        for _ in range(n): out += item(rng, depth - 1, junk)
        return out
    out = head(rng, 5, n)
    for _ in range(n):
        kl = rng.choice([0, 1, 1, 2, 5, 23, 24, 30])
        out += head(rng, 3, kl) + text(rng, kl) + item(rng, depth - 1, junk)
    return out


def mutate(rng, b):
    b = list(b)
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if not b: break
        if k < .4: b = b[:rng.randint(0, len(b))]
        elif k < .8: b[rng.randrange(len(b))] = rng.randrange(256)
        else: i = rng.randrange(len(b)); b[i:i] = bts(rng, rng.randint(1, 3))
    return b


def node(rng, keyed, depth):
    key = text(rng, rng.choice([1, 1, 2, 5, 23, 24, 40, 0])) if keyed else []
    k = rng.choice([1, 1, 1, 2, 3, 3, 4, 6, 7, 9] + ([8] if depth > 0 and keyed else []))
    if k == 1:
        neg = rng.randint(0, 1); c = [neg] + limbs(number(rng, 63 if neg else 64))
    elif k == 2: c = bts(rng, rng.choice([1, 2, 23, 24, 255, 256, 300]))
    elif k == 3: c = text(rng, rng.choice([0, 1, 2, 23, 24, 255, 256, 300]))
    elif k == 4: c = [rng.randint(0, 1)]
    elif k == 6:
        c = [rng.getrandbits(16), rng.choice([0, 0x3F80, 0xC049, 0x7F80, rng.randrange(0x7F00)])]
        if c[1] == 0x7F80: c[0] = 0
    elif k == 7: c = limbs(rng.choice([0, 1, 0x3FF0000000000000, rng.getrandbits(62)]))
    elif k == 9:
        t = rng.choice(list(VEC)); n = VEC[t][1]
        c = [t] + (([0, 0, 0x80, 0x3F] * 6)[:n] if t == 56 else ([0, 0, 0, 0, 0, 0, 0xF0, 0x3F] * 6)[:n] if t == 57 else bts(rng, n))
    else:
        c = []
        for i in range(rng.randint(1, 3)):
            m = node(rng, True, depth - 1)
            while i == 0 and m[1] == 0: m = node(rng, True, depth - 1)
            c += m
    return [int(keyed), len(key)] + key + [k, len(c)] + c


def value(rng, i, n):
    yield op('new')
    for _ in range(rng.randint(3, 15)):
        k = rng.random()
        if k < .5:
            data = []
            for _ in range(rng.randint(1, 3)): data += item(rng, rng.randint(0, 3))
            if rng.random() < .25: data = data[:rng.randint(0, len(data))]
            yield op('new')
            p = 0
            while p < len(data):
                z = rng.choice([1, 2, 7, 40, 400, 400])
                yield op('feed', [], data[p:p + z])
                p += z
                if rng.random() < .5 or p >= len(data): yield op('next', [int(rng.random() < .2)])
            for _ in range(rng.randint(0, 4)): yield op('next', [int(rng.random() < .2)])
        elif k < .7:
            yield op('probe', [], mutate(rng, item(rng, 3)) if rng.random() < .7 else [217, 233, rng.randrange(256)] + rng.choice([item(rng, 2), [216, rng.randint(60, 90)] + item(rng, 1)]))
        else:
            if rng.random() < .3: yield op('ser', [], node(rng, False, 0))
            else: yield op('ser', [], *[node(rng, True, 2) for _ in range(rng.choice([1, 1, 2, 3, 6]))])


add('C16', 'values in CBOR',
    Conf('CborValue', 'cborvalue.cpp', mc=['MC_CborValue.cfg'], mc_thorough=['MC_CborValue_big.cfg'], edge='MC_CborValue_edges.cfg', gen=value, n=(500, 8000)))
