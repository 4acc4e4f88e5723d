"""Generators for identities, type pipes and time series."""
from .core import op, Conf
from .registry import add

HEXD = [ord(c) for c in '0123456789abcdefABCDEF']


def name(rng):
    n = rng.choice([0, 1, 1, 2, 5, 9, 20, rng.randint(0, 60), 233, 234, 235, 300]) if rng.random() < .5 else rng.randint(0, 12)
    return [rng.randint(1, 255) for _ in range(n)]


def text(rng):
    k = rng.random()
    if k < .5:
        s = ''.join('%02x' % rng.randint(0, 255) for _ in range(16))
        s = '-'.join([s[:8], s[8:12], s[12:16], s[16:20], s[20:]])
        if rng.random() < .4: s = s.upper()
        t = [ord(c) for c in s]
        if rng.random() < .2: t = t[:rng.randint(0, len(t))]
        if rng.random() < .2: t += [rng.choice(HEXD) for _ in range(rng.randint(1, 6))]
        return t
    if k < .7: return [rng.choice(HEXD) for _ in range(rng.randint(0, 40))]
    return [rng.choice(HEXD + [45, 45, 32, 58, 47, 64, 71, 96, 103, 255, 0x7f, 1]) for _ in range(rng.randint(0, 60))]


def rec(rng, h):
    n = len(h) + 22
    b = [n // 256, n % 256, rng.randint(0, 255), rng.randint(0, 255), 2] + h + [0] + [rng.randint(0, 255) for _ in range(16)]
    k = rng.random()
    if k < .3: return b
    if k < .45: return b + [rng.randint(0, 255) for _ in range(rng.randint(1, 30))]
    if k < .6: return b[:rng.randint(0, len(b))]
    if k < .75:
        m = rng.choice([n - 1, n + 1, 0, 6, 7, 22, rng.randint(0, n + 40), 65535])
        b[0], b[1] = m // 256 % 256, m % 256
        return b + [rng.randint(0, 255) for _ in range(rng.choice([0, 0, 5, 50]))]
    if k < .85:
        b[4] = rng.choice([0, 1, 3, 4, 16, 17, 18, 19, 64, 255])
        return b
    return b[:5] + [x or 1 for x in b[5:]] + ([rng.randint(1, 255)] * rng.randint(0, 20))


def ident(rng, i, n):
    r16 = lambda: rng.choice([[0] * 16, [255] * 16] + [[rng.randint(0, 255) for _ in range(16)]] * 6)
    names = [name(rng) for _ in range(3)]
    for _ in range(rng.randint(15, 40)):
        k = rng.random()
        s = rng.randint(1, 3)
        t = rng.randint(1, 2)
        if k < .12: yield op('ufrom', [s], text(rng))
        elif k < .18: yield op('uto', [s, rng.choice([0, 1, 35, 36, 37, 37, 38, 40, 100, rng.randint(0, 60)])])
        elif k < .21: yield op('usb', [s])
        elif k < .27: yield op('ugen', [s], r16())
        elif k < .31: yield op('ucmp', [s, rng.randint(1, 3)])
        elif k < .35: yield op('ucopy', [s, rng.randint(1, 3)])
        elif k < .43: yield op('igen', [t], rng.choice(names), r16())
        elif k < .53: yield op('istr', [t], rng.choice(names), text(rng))
        elif k < .63: yield op('ifrom', [t], rec(rng, rng.choice(names)))
        elif k < .70: yield op('iload', [t])
        elif k < .72: yield op('idel', [t])
        elif k < .84: yield op('iser', [t, rng.choice([-1, -1, 0, 5, 6, 7, 21, 22, rng.randint(0, 90), 400])])
        elif k < .88: yield op('iself', [t, rng.randint(0, 1)])
        elif k < .92: yield op('ifmt', [t, rng.choice([0, 1, 2, 2, 3, 16, 64])])
        elif k < .97: yield op('iname', [t], rng.choice(names))
        else: yield op('itext', [t])


def typepipe(rng, i, n):
    from .gens_cbor import node as any_node, item as any_item
    # Bytes that are cut anyhow must not happen to read as a vendor tag of ours, whose malformed use is left open.
    mixed = rng.random() < .6
    tagless = lambda d: all(x % 256 not in (217, 233) and x // 256 not in (217, 233) for x in d) and 9 not in d
    def node(r, keyed, depth):
        while True:
            x = any_node(r, keyed, depth)
            if not mixed or tagless(x): return x
    def item(r, depth):
        while True:
            x = any_item(r, depth)
            if tagless(x): return x
    mx = rng.choice([4096, 4096, 4096, 64, 20, 9, 5, 3, 1, 0, rng.randint(1, 100)])
    link = rng.choice([1, 1, 1, 1, 2, 0])
    yield op('new', [mx, int(rng.random() < .95), link, rng.choice([4096, 4096, 100, rng.randint(0, 60)])])
    pend = 0
    for _ in range(rng.randint(10, 35)):
        k = rng.random()
        if k < .4:
            if rng.random() < .6: yield op('value', [rng.randint(0, 1)], node(rng, False, 0))
            else:
                first = node(rng, True, 2)
                while first[1] == 0: first = node(rng, True, 2)
                yield op('value', [0], first, *[node(rng, True, 1) for _ in range(rng.choice([0, 0, 1, 2, 5]))])
        elif k < .62: yield op('carry', [rng.choice([1, 1, 2, 3, 5, 9, 20, 100, 1000, 1000])])
        elif k < .86: yield op('push')
        elif k < .91: yield op('room', [rng.choice([0, 1, 2, 3, 9, 20, 100, 4096, 4096])])
        elif k < .94 and mixed:
            d = item(rng, rng.randint(0, 2))
            yield op('feed', [], d if rng.random() < .7 else d[:rng.randint(0, len(d))])
        elif k < .96 and link != 2 and mixed: yield op('pass', [], [rng.randint(0, 216) for _ in range(rng.randint(1, 12))])
        elif k < .98 and mixed: yield op('discard')
        else:
            link = rng.choice([0, 1, 1, 2]); yield op('link', [link])


add('C29', 'UUIDs and identities',
    Conf('Ident', 'ident.cpp', mc=['MC_Ident.cfg'], edge='MC_Ident_edges.cfg', gen=ident, n=(400, 4000)),
    Conf('Ident', 'ident.cpp', edge='MC_Ident_uedges.cfg', name='IdentU'))

add('C20', 'type pipe',
    Conf('TypePipe', 'typepipe.cpp', mc=['MC_TypePipe.cfg'], edge='MC_TypePipe_edges.cfg', gen=typepipe, n=(400, 5000)))


TS = {1: 0, 2: 0, 3: 0, 4: 0, 6: 1, 7: 1, 8: 1, 9: 1, 12: 1, 13: 1}


def cbor_head(major, n, wide=0):
    if wide == 8 or n >= 2**32: return [major * 32 + 27] + list(n.to_bytes(8, 'big'))
    if wide == 4 or n >= 65536: return [major * 32 + 26] + list(n.to_bytes(4, 'big'))
    if wide == 2 or n >= 256: return [major * 32 + 25] + list(n.to_bytes(2, 'big'))
    if wide == 1 or n >= 24: return [major * 32 + 24, n]
    return [major * 32 + n]


def foreign_series(rng):
    num = lambda n: cbor_head(0, n, rng.choice([0, 0, 0, 1, 2, 4, 8]) if n < 256 else rng.choice([0, 0, 8]))
    txt = lambda s: cbor_head(3, len(s)) + [ord(c) for c in s]
    odd = lambda: rng.choice([txt('x'), [246], [245], cbor_head(1, 5), [250, 63, 128, 0, 0], cbor_head(2, 3) + [1, 2, 3], [0x82, 1, 2], [0xA1, 0x61, 0x61, 1], [251, 64, 0, 0, 0, 0, 0, 0, 0]])
    win = rng.choice([0, 1, 2, 3, 5, 8, 2**31, 2**30 + 1, 2**29 + 1, 2**32 - 1, 2**32 + 2])
    tc = rng.choice([1, 2, 3, 4, 6, 7, 8, 9, 12, 13] + ([0, 5, 255, 258] if rng.random() < .2 else []))
    if win == 2**31 and tc in (1, 6) or win == 2**32 - 1: tc = 4
    if win in (2**30 + 1, 2**29 + 1) and tc not in (4, 9, 13): win = 2**31 + 1 if tc in (2, 7) else 2**30 + 1 if tc in (3, 8, 12) else 4
    k = rng.randint(0, 6)
    dat = cbor_head(4, k) + sum([(num(rng.randint(0, 300)) if rng.random() < .9 else odd()) for _ in range(k)], []) if k else odd()
    ents = [('tc', num(tc)), ('win', num(win)), ('ttl', num(rng.choice([0, 1, win, win + 3, 2**31, 2**32 + 1]))), ('idx', num(rng.choice([0, 1, win, 2**32 - 1]))), ('dat', dat),
            ('n', txt('name')), ('u', txt('u'))]
    if rng.random() < .4: rng.shuffle(ents)
    ents = [(a, odd() if rng.random() < .05 else b) for a, b in ents if rng.random() < .92]
    out = [217, 233, 0xE9] + cbor_head(5, len(ents) if rng.random() < .9 else rng.randint(0, 9))
    for a, b in ents: out += txt(a) + b
    if rng.random() < .2: out = out[:rng.randint(0, len(out))]
    return out


def series(rng, i, n):
    t = rng.choice(list(TS))
    b = rng.choice([0, 0, 1, -1]) if t in (8, 9) else rng.choice([0, 0, 1]) if t < 12 else 0
    lo, hi = (0, 50) if b else (-100 if TS[t] else 0, 100)
    own = int(rng.random() < .75)
    w = rng.choice([1, 2, 3, 4, 5, 8, 16, rng.randint(1, 40)])
    yield op('new', [t, own, w if own == 0 or rng.random() < .9 else 0, b])
    if rng.random() < .92: yield op('init')
    x = lambda: rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(0, 5)])
    cw = w
    for _ in range(rng.randint(10, 40)):
        k = rng.random()
        if k < .4:
            for _ in range(rng.choice([1, 1, 2, cw, cw + 1])): yield op('feed', [x()])
        elif k < .46: yield op('bulk', [], [x() for _ in range(cw)])
        elif k < .52: yield op('value')
        elif k < .60:
            rel = rng.random() < .4
            yield op('copy', [rng.choice([0, 1, cw, cw, cw + 1, rng.randint(0, cw)]), 0 if rel else rng.choice([0, 0, 1, cw - 1, cw, rng.randint(0, 2 * cw)]), int(not rel)])
        elif k < .66: yield op('which', [rng.choice([0, cw - 1, cw, cw + 1, 3 * cw, rng.randint(0, cw)])])
        elif k < .84: yield op(rng.choice(['minmax', 'mean', 'rms', 'stdev', 'median', 'median', 'snr']))
        elif k < .86: yield op('purge')
        elif k < .88:
            cw2 = rng.choice([0, cw, rng.randint(1, 20)])
            yield op('window', [cw2])
            if own: cw = cw2 or cw
        elif k < .89: yield op('init')
        elif k < .91: yield op('clean')
        elif k < .93: yield op(rng.choice(['name', 'units']), [], [rng.randint(1, 127) for _ in range(rng.choice([0, 1, 4, 30]))])
        elif k < .96:
            yield op('trip'); own = 1
        else: yield op('probe', [], foreign_series(rng))


add('C13', 'time series',
    Conf('TimeSeries', 'timeseries.cpp', mc=['MC_TimeSeries.cfg'], edge='MC_TimeSeries_edges.cfg', gen=series, n=(500, 6000)))


def sensorfilter(rng, i, n):
    dim = rng.choice([1, 1, 3])
    t = 12 if dim == 3 else rng.choice([k for k in TS if k not in (4, 9)])
    u = 0 if t in (1, 6) else rng.choice([0, 1]) if t < 12 else rng.choice([0, 2])
    sg = TS[t]
    if t in (7, 2) and u: lo, hi = (-128, 127) if sg else (0, 255)
    elif u == 1: lo, hi = (-2048, 2047) if sg else (0, 2047) if t == 4 else (0, 4095)
    elif u == 2: lo, hi = -2000, 2000
    else: lo, hi = (-60, 60) if sg else (0, 120)
    if t in (1, 6): lo, hi = (-128, 127) if sg else (0, 255)
    own = int(dim == 3 or rng.random() < .75)
    w = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
    yield op('new', [dim, t, u, own, w if own == 0 or rng.random() < .9 else 0, rng.choice([0, 1, 1, 2, 2])])
    if rng.random() < .95: yield op('init')
    x1 = lambda: rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(0, 5)])
    x = lambda: [x1() for _ in range(dim)]
    cw = w
    for _ in range(rng.randint(10, 40)):
        k = rng.random()
        if k < .4:
            for _ in range(rng.choice([1, 1, 2, cw, cw + 1])):
                yield op('feed', x())
                if rng.random() < .7: yield op('value')
        elif k < .46: yield op('bulk', [], [x1() for _ in range(cw * dim)])
        elif k < .56: yield op('value')
        elif k < .62: yield op('strat', [rng.randint(0, 2)])
        elif k < .84: yield op(rng.choice(['minmax', 'mean', 'rms', 'stdev', 'median', 'median', 'snr']))
        elif k < .87: yield op('purge')
        elif k < .91:
            cw2 = rng.choice([0, cw, rng.randint(1, 8)])
            yield op('window', [cw2])
            if own: cw = cw2 or cw
        elif k < .93: yield op('init')
        elif k < .96: yield op(rng.choice(['name', 'units']), [], [rng.randint(1, 127) for _ in range(rng.choice([0, 1, 4, 30]))])
        elif k < .97: yield op('print')
        else: yield op('ser')


add('C34', 'sensor filters',
    Conf('SensorFilter', 'sensorfilter.cpp', mc=['MC_SensorFilter.cfg', 'MC_SensorFilter_vec.cfg'], edge='MC_SensorFilter_edges.cfg', gen=sensorfilter, n=(500, 6000)))
