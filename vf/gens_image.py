"""Generators for images and what is drawn on them."""
from .core import op, Conf
from .registry import add

BPP = {0: 0, 1: 1, 2: 24, 3: 16, 4: 8, 5: 4, 6: 32, 7: 24, 8: 16, 9: 8}


def nbytes(w, h, f): return (w * h * BPP[f] + 7) // 8


def colour(rng):
    k = rng.random()
    if k < .15: return 0
    if k < .3: return -1
    if k < .5: return rng.randint(0, 255)
    if k < .6: return rng.choice([0x80, 0x8000, 0x800000, 0x7fffffff, -2147483647, 0xff00, 0xff0000, 0x10000, 0x1000000])
    return rng.randint(-2**31 + 1, 2**31 - 1)


def size(rng, f):
    w = rng.randint(1, 20); h = rng.randint(1, 20)
    if rng.random() < .08:      # a long strip: its size needs more than a byte
        w, h = (rng.randint(1, 3), rng.randint(250, 600))
        if rng.random() < .5: w, h = h, w
        if f == 1: h += -h % 8
        return w, h
    if f == 1 and rng.random() < .85: h = 8 * rng.randint(1, 3)
    return w, h


def draw(rng, w, h):
    s = max(w, h)
    x = lambda: rng.randint(0, s + 3) if rng.random() < .97 else rng.choice([60000, 300, 65535])
    near = lambda: rng.randint(0, s + 3)
    c = colour(rng)
    k = rng.choice(['line'] * 4 + ['hline', 'vline', 'frect', 'rect', 'circle', 'circle', 'fcircle', 'fcircle', 'rrect', 'rrect', 'frrect', 'frrect', 'tri', 'ftri', 'ftri', 'bitmap'])
    if k == 'line': return op(k, [x(), x(), x(), x(), c])
    if k in ('hline', 'vline'): return op(k, [near(), near(), rng.choice([0, 1, near(), near(), 500]), c])
    if k in ('frect', 'rect'): return op(k, [near(), near(), rng.choice([0, 1, near(), near()]), rng.choice([0, 1, near(), near(), 200]), c])
    if k in ('circle', 'fcircle'): return op(k, [near(), near(), rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, near(), 30]), c])
    if k in ('rrect', 'frrect'): return op(k, [near(), near(), rng.choice([1, 2, near(), near()]), rng.choice([1, 2, near(), near()]), rng.choice([0, 1, 2, 3, 4, 5, near()]), c])
    if k == 'bitmap':
        bw, bh = rng.randint(0, 5), rng.randint(0, 5)
        return op(k, [near(), near(), bw, bh], [rng.randint(0, 255) for _ in range(bw * bh)])
    p = [near() for _ in range(6)]
    if rng.random() < .3: p[3] = p[1]
    if rng.random() < .2: p[5] = p[1]
    return op(k, p + [c])


def newimage(rng, small=False):
    f = rng.choice([1, 1, 2, 3, 4, 6, 7, 7, 8, 9]) if rng.random() < .97 else 5
    w, h = size(rng, f)
    return op('new', [w, h, f, 1 if rng.random() < .3 else 0]), w, h, f


def image(rng, i, n):
    if rng.random() < .1: o, w, h, f = None, 0, 0, 0
    else:
        o, w, h, f = newimage(rng); yield o
    for _ in range(rng.randint(8, 30)):
        k = rng.random()
        c = colour(rng)
        if k < .2 and w: yield op('set', [rng.randint(0, w + 1), rng.randint(0, h + 1), c])
        elif k < .3: yield op('rgb', [rng.randint(0, w + 1), rng.randint(0, h + 1)] + [rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(3)])
        elif k < .34: yield op('get', [rng.randint(0, w + 2), rng.randint(0, h + 2)])
        elif k < .37: yield op('get', [rng.choice([65535, 65535 - rng.randint(0, 20), 300]), rng.randint(0, h + 2)])
        elif k < .44: yield op('as', [rng.randint(0, w + 1), rng.randint(0, h + 1), rng.choice([1, 6, 7, 8, 9])])
        elif k < .48: yield op('fill', [c])
        elif k < .56: yield op('orient', [rng.randint(0, 3)])
        elif k < .62: yield op('flip', [rng.randint(0, 1), rng.randint(0, 1)])
        elif k < .72: yield draw(rng, w, h)
        elif k < .76: yield op('ser')
        elif k < .80:
            if rng.random() < .7: yield op('ser'); yield op('wipe'); w = h = f = 0
            yield op('load')
        elif k < .86:
            g = rng.choice([0, 1, 2, 3, 4, 6, 7, 8, 9, f])
            a, b = rng.randint(0, 6), 8 * rng.randint(0, 2) if g == 1 else rng.randint(0, 6)
            d = [0, 0, 0, a, 0, 0, 0, b, g, rng.randint(0, 255) & 0xF1] + [rng.randint(0, 255) for _ in range(nbytes(a, b, g))]
            m = rng.random()
            if m < .1: d[rng.choice([0, 1, 4, 5])] = rng.randint(1, 255)
            elif m < .2: d = d[:rng.randint(0, len(d))]
            elif m < .3: d = d + [0]
            elif m < .35: d[8] = rng.choice([10, 77, 255, 5])
            elif m < .42:   # sizes whose product does not fit
                d = [0, 0] + rng.choice([[255, 255, 0, 0, 255, 255], [128, 0, 0, 0, 64, 0], [1, 0, 0, 0, 255, 255]]) + [rng.choice([6, 7, 4]), 0] + d[10:10 + rng.choice([0, 4])]
            if rng.random() < .6: yield op('wipe'); w = h = f = 0
            yield op('loadd', [], d)
        elif k < .92:
            g = rng.choice([1, 2, 3, 4, 6, 7, 8, 9, f, f, 0])
            d = [rng.randint(0, 255) for _ in range(nbytes(w, h, g))]
            if g == 1 and h % 8: continue
            yield op('copy', [g], d)
        elif k < .95:
            w, h = size(rng, f); yield op('size', [w, h])
        elif k < .96: w = h = f = 0; yield op('wipe')
        else: o, w, h, f = newimage(rng); yield o


def shapes(rng, i, n):
    o, w, h, f = newimage(rng); yield o
    if rng.random() < .3: yield op('orient', [rng.randint(0, 3)])
    if rng.random() < .2: yield op('flip', [rng.randint(0, 1), rng.randint(0, 1)])
    for _ in range(rng.randint(10, 30)):
        if rng.random() < .2: yield op('fill', [0])
        yield draw(rng, w, h)


def texts(rng, i, n):
    f = rng.choice([1, 6, 7, 8, 9])
    w, h = rng.randint(6, 40), rng.choice([8, 16, 24])
    yield op('new', [w, h, f, rng.randint(0, 1)])
    if rng.random() < .2: yield op('orient', [rng.randint(0, 3)])
    font = wrap = 0; sz = 1; first, ng = 65, 3
    for _ in range(rng.randint(6, 20)):
        k = rng.random()
        if k < .08:
            first, ng, d = rng.choice([1, 33, 65, 200, rng.randint(1, 240)]), rng.randint(1, 5), []
            if first < 14: first = 33       # (line ends are not printed)
            for _ in range(ng):
                gw, gh = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12]), rng.randint(0, 5)
                if gw * gh == 0: gw = gh = 0
                d += [gw, gh, rng.randint(0, 12), rng.randint(-2, 2), rng.randint(-4, 2)] + [rng.randint(0, 1) for _ in range(gw * gh)]
            yield op('font', [first, rng.randint(0, 12)], d)
        elif k < .3:
            font, wrap, sz = rng.randint(0, 1), rng.randint(0, 1), rng.choice([0, 1, 1, 2, 3])
            fg = colour(rng)
            yield op('text', [rng.randint(0, w), rng.randint(0, 12), sz, fg, fg if rng.random() < .4 else colour(rng), font, wrap, rng.randint(0, 1)])
            sz = max(sz, 1)
        elif k < .55:
            if font: G = lambda: first + rng.randint(0, ng - 1); c = [rng.choice([G(), G(), G(), G(), 10, 13, first - 1, first + ng, 255]) for _ in range(rng.randint(0, 6))]
            else: c = [rng.choice([10, 13, 9, rng.randint(33, 126), rng.randint(33, 126), rng.randint(1, 255)]) for _ in range(rng.randint(0, 5))]
            yield op('write', [], c)
        elif k < .75: yield op('char', [rng.randint(0, w + 1), rng.randint(0, h + 1), first + rng.randint(0, ng - 1) if font else rng.randint(0, 255), colour(rng), colour(rng), rng.choice([0, 1, 1, 2, 3])])
        elif k < .9:
            if font:
                c = [rng.choice([first + rng.randint(0, ng - 1), first + rng.randint(0, ng - 1), first + rng.randint(0, ng - 1), first - 1, 10, 13]) for _ in range(rng.randint(0, 6))]
                yield op('box', [rng.randint(0, w), rng.randint(0, 30)], c)
            else: yield op('box', [rng.randint(0, w + 3), rng.randint(0, 30)], [rng.choice([10, 13, 9, 65, 200, 66]) for _ in range(rng.randint(0, 6))])
        elif k < .95: yield op('fill', [colour(rng)])
        else: yield draw(rng, w, h)


add('C31', 'images',
    Conf('Image', 'image.cpp', mc=['MC_Image.cfg'], edge='MC_Image_edges.cfg', gen=image, n=(400, 6000)))
add('C32', 'shapes and text',
    Conf('Shapes', 'image.cpp', mc=['MC_Shapes.cfg'], mc_thorough=['MC_Shapes_thorough.cfg'], gen=shapes, n=(300, 5000), trace_spec='Trace_Image', trace_cfg='Trace_Image.cfg'),
    Conf('Image', 'image.cpp', gen=texts, n=(300, 5000), name='Text'))
