from .core import op, Conf
from .registry import add


def rbytes(rng, n, alpha=None):
    return [rng.choice(alpha) if alpha else rng.randrange(256) for _ in range(n)]


# ---------------------------------------------------------------- C18 BufferAccepter: sink and fork
def sink(rng, i, n):
    yield op('new', [rng.choice([0, 1, 2, 5, 16, 64, 200, rng.randint(0, 300)])])
    for _ in range(rng.randint(15, 60)):
        k = rng.random()
        if k < .4: yield op('feed', [], rbytes(rng, rng.choice([1, 1, 2, 3, 8, 30])))
        elif k < .8: yield op('push')
        elif k < .88: yield op('extra', [], rbytes(rng, rng.choice([1, 2, 10])))
        else: yield op('drain', [rng.randint(1, 60)])


def fork(rng, i, n):
    yield op('new', rng.choice([[1, 1]] * 8 + [[1, 0], [0, 1], [0, 0]]))
    small = rng.random() < .5
    for _ in range(rng.randint(15, 70)):
        k = rng.random()
        if k < .3: yield op('feed', [], rbytes(rng, rng.choice([1, 2, 3, 5] if small else [1, 4, 17, 40])))
        elif k < .65: yield op('push')
        elif k < .98: yield op('room', [rng.randint(1, 2), rng.choice([0, 1, 2, 3, 5, 9, 30]), rng.choice([0, 1, 2, 3, 7, 50, 50, 50])])
        else: yield op('swap', [rng.randint(1, 2)])


add('C18', 'BufferAccepter contract',
    Conf('Sink', 'accepter.cpp', mc=['MC_Sink.cfg'], edge='MC_Sink_edges.cfg', gen=sink, n=(200, 3000), chunks=4),
    Conf('Fork', 'accepter.cpp', mc=['MC_Fork.cfg'], edge='MC_Fork_edges.cfg', edge_thorough='MC_Fork_edges4.cfg', gen=fork,
         n=(300, 4000), driver_env=dict(VF_ACC='fork')))


# ---------------------------------------------------------------- C19 Base64
B64 = [ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/']


def b64(rng, i, n):
    dec = rng.random() < .5
    yield op('new', [int(dec), rng.choice([0, 0, 0, 1, 2, 3, 4, 8, 12, 15, 64, rng.randint(1, 40)])])
    yield op('room', [rng.choice([1000, 1000, 100, rng.randint(0, 60)])])
    for _ in range(rng.randint(10, 30)):
        k = rng.random()
        if k < .45:
            m = rng.choice([1, 2, 3, 4, 5, 6, 7, 30, rng.randint(1, 120)])
            if dec:
                m = max(4, m - m % 4) if rng.random() < .9 else m
                d = rbytes(rng, m, B64)
                if rng.random() < .3: d[-1] = 61
                if rng.random() < .15 and m > 1: d[-2:] = [61, 61]
                if rng.random() < .25:
                    d[rng.randrange(m)] = rng.choice([61, 0, 32, 10, 45, 46, 64, 91, 96, 123, 127, 128, 255, 42, 44, 58])
            else:
                d = rbytes(rng, m)
            while d:
                x = rng.randint(1, len(d))
                yield op('feed', [], d[:x])
                d = d[x:]
        elif k < .8: yield op('push')
        elif k < .92: yield op('room', [rng.choice([0, 1, 3, 4, 5, 8, 20, 40, 100, 400, rng.randint(0, 200)])])
        elif k < .95: yield op('discard')
        elif k < .98: yield op('chunk', [rng.choice([0, 0, 1, 3, 4, 8, rng.randint(1, 30)])])
        else: yield op('link', [rng.choice([0, 1, 1])])


add('C19', 'Base64 codec',
    Conf('Base64', 'base64.cpp', mc=['MC_Base64.cfg', 'MC_Base64_dec.cfg'], edge='MC_Base64_edges.cfg', gen=b64, n=(400, 4000)),
    Conf('Base64', 'base64.cpp', edge='MC_Base64_decedges.cfg', name='Base64dec'))


def axispipe(rng, i, n):
    N = rng.randint(1, 8)
    yield op('new', [N])
    G = [0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15]
    kinds = {}
    senses = [rng.randint(0, 5) for _ in range(rng.choice([1, 2, 2, 3]))]
    for j in range(N, 0, -1):
        k = rng.choice([1, 5] if j == N else [1, 1, 2, 2, 3, 4, 5])
        if j == 1 and N > 1: k = rng.choice([2, 2, 3, 4])
        kinds[j] = k
        c = lambda: 0 if j == N or rng.random() < .08 else rng.choice([j + 1, rng.randint(j + 1, N)])
        s = rng.choice(senses)
        if k == 1: yield op('node', [j, 1, s, 0, 0, 0, 0, rng.randint(0, 2)])
        elif k == 2: yield op('node', [j, 2, 0, c(), c(), 0, 0, 0])
        elif k == 3: yield op('node', [j, 3, s, c(), 0, rng.choice([0, 2]), rng.choice([1, 1, 2, 2, 3, 4, 5]), 0])
        elif k == 4: yield op('node', [j, 4, 0, c(), 0, 0, 0, rng.choice(G)])
        else: yield op('node', [j, 5, 0, 0, 0, 0, 0, rng.choice([0, 0, 0, -1, -2, 1])])
    x = lambda: 256 * rng.choice([0, 1, -1, rng.randint(-100, 100), rng.randint(-100, 100), rng.randint(-100, 100)])
    for _ in range(rng.randint(5, 30)):
        k = rng.random()
        if k < .7: yield op('push', [rng.choice([1, 1, 1, rng.randint(1, N)]), rng.choice(senses + [rng.randint(0, 5)]), x(), x(), x(), int(rng.random() < .4), x(), x(), x()])
        elif k < .84:
            j = rng.choice([q for q in kinds if kinds[q] in (1, 3)] or [1])
            yield op('take', [j])
        elif k < .88: yield op('clear', [rng.randint(1, N)])
        elif k < .94: yield op('clock', [rng.choice([1, 5, 100, 70000])])
        else:
            j = rng.randint(1, N); c = lambda: rng.choice([0, rng.randint(j, N)])
            yield op('link', [j, c(), c()])


add('C35', 'three-axis pipelines',
    Conf('AxisPipe', 'axispipe.cpp', mc=['MC_AxisPipe.cfg', 'MC_AxisPipe_four.cfg'], edge='MC_AxisPipe_edges.cfg', gen=axispipe, n=(600, 8000)))


def nmea(body, sep='*'):
    x = 0
    for c in body: x ^= ord(c)
    return '$%s%s%02X' % (body, sep, x)


def gps_body(rng):
    r = rng.random
    opt = lambda s, p=.12: '' if r() < p else s
    frac = lambda hi, k: '%d%s' % (rng.randint(0, hi), '' if r() < .15 else '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randint(0, k))))
    time = lambda: opt('%02d%02d%02d' % (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 60)) + rng.choice(['', '.00', '.%d' % rng.randint(0, 999999)]), .08)
    date = lambda: opt('%02d%02d%02d' % (rng.randint(0, 31) if r() < .9 else rng.randint(0, 99), rng.randint(1, 12) if r() < .9 else rng.randint(0, 99), rng.choice([0, 3, 4, 24, 37, 38, rng.randint(0, 40), 99])), .06)
    lat = lambda: (opt('%02d%02d' % (rng.choice([0, 0, 89, rng.randint(0, 90)]), rng.randint(0, 59)) + opt('.' + ''.join(rng.choice('0123456789') for _ in range(rng.choice([2, 3, 4, 5, 7, 8, 9]))), .1)), opt(rng.choice('NS')))
    lon = lambda: (opt('%03d%02d' % (rng.choice([0, 0, 179, rng.randint(0, 180)]), rng.randint(0, 59)) + opt('.' + ''.join(rng.choice('0123456789') for _ in range(rng.choice([2, 3, 4, 5, 7, 8, 9]))), .1)), opt(rng.choice('EW')))
    sp = lambda s: rng.choice(['', '', '', '', ' ', '+']) + s if s else s
    t = rng.choice(['GP', 'GP', 'GN', 'GL', 'xx'])
    k = rng.choice(['RMC', 'RMC', 'GGA', 'GGA', 'VTG', 'VTG', 'VTG', 'GSA', 'GSA', 'GLL', 'GST', 'GSV', 'ZDA'])
    if k == 'RMC': f = [time(), rng.choice(['A', 'V', '']), *lat(), *lon(), opt(frac(500, 3)), opt(frac(359, 2)), date(), opt(frac(20, 1)), opt(rng.choice('EW'))]
    elif k == 'GGA': f = [time(), *lat(), *lon(), str(rng.randint(0, 8)), opt(sp('%02d' % rng.choice([0, 4, 12, 255, 256, 300, rng.randint(0, 40)]))), opt(sp(frac(50, 2))), opt(rng.choice(['', '-', ' ', '+']) + frac(9000, 4)), rng.choice(['M', 'M', 'M', 'M', 'f', '']), opt(frac(60, 1)), opt('M'), opt(str(rng.randint(0, 9)), .5), opt('0120', .6)]
    elif k == 'VTG': f = [opt(frac(359, 2)), 'T', opt(sp(frac(359, 3))), 'M', opt(frac(900, 3)), 'N', opt(frac(1900, 9)), 'K'] + rng.choice([[], ['A'], ['D'], [''], ['A', 'x']])
    elif k == 'GSA': f = [rng.choice('AM'), rng.choice('123')] + [opt('%02d' % rng.randint(1, 99), .4) for _ in range(12)] + [opt(sp(frac(99, 2))) for _ in range(3)]
    elif k == 'GLL': f = [*lat(), *lon(), time(), rng.choice('AV')] + rng.choice([[], ['A']])
    elif k == 'GST': f = [time()] + [opt(frac(99, 1)) for _ in range(7)]
    elif k == 'GSV': f = [str(rng.randint(1, 4)), str(rng.randint(1, 4)), '%02d' % rng.randint(0, 20)] + [opt(str(rng.randint(0, 359)), .1) for _ in range(rng.choice([0, 0, 3, 4, 8, 12, 16, 17]))]
    else: f = [time(), '%02d' % rng.randint(0, 31), '12', '2024']
    if r() < .06 and f: f.pop(rng.randrange(len(f)))
    if r() < .04: f.insert(rng.randint(0, len(f)), rng.choice(['', 'A', '7', 'N']))
    if r() < .06:
        j = rng.randrange(len(f)); f[j] = f[j] + rng.choice(['x', '.', '+', ' ', '9', '/', ':'])
    if r() < .03:
        j = rng.randrange(len(f)); f[j] = rng.choice(['0.' + '0' * rng.randint(8, 40), '0.' + '0' * 31, '99999999999', '2147483647', '2147483648', '+', '.', 'abcde', '12345', '1234567'])
    return t + k + rng.choice(['', '', '', '', '', '', '', '', '', 'Q']) + ',' + ','.join(f)


def gps(rng, i, n):
    yield op('new', [int(rng.random() < .9)])
    text = []
    for _ in range(rng.randint(3, 22)):
        k = rng.random()
        b = gps_body(rng)
        if k < .75: s = nmea(b)
        elif k < .81: s = '$' + b                           # without a checksum: good when a carriage return ends it
        elif k < .85: s = '$%s*%02X' % (b, int(nmea(b)[-2:], 16) ^ (1 << rng.randint(0, 7)))        # one bit of the checksum is wrong
        elif k < .88:
            s = nmea(b); j = rng.randrange(len(s))          # damaged
            s = s[:j] + rng.choice(['', rng.choice('AZ09,*$.') , s[j] + rng.choice('09,')]) + s[j + 1:]
        elif k < .91: s = nmea(b).lower() if rng.random() < .5 else nmea(b) + rng.choice(['x', '  ', 'FF'])
        elif k < .94: s = nmea(b + ',' * rng.randint(max(0, 130 - len(b)), max(1, 150 - len(b))))     # about as long as they may be
        elif k < .97: s = ''.join(chr(rng.choice([36, 42, 44, rng.randint(32, 126), rng.randint(128, 255), 7])) for _ in range(rng.randint(0, 60)))
        else: s = ''
        text.append(s + rng.choice(['\r\n', '\r\n', '\r\n', '\n']))
    if rng.random() < .06: text.insert(rng.randrange(len(text)), rng.choice(['x', '$', '\n']) * rng.choice([139, 140, 141, 300, 1023, 1024, 1025, 1400]))
    if rng.random() < .12: text = text * 5
    s = ''.join(text)
    mode = rng.choice(['lines', 'lines', 'bits', 'mid', 'all', 'mixed', 'mixed'])
    at = 0; q = 0
    while at < len(s) and q < 90:
        m = mode if mode != 'mixed' else rng.choice(['lines', 'bits', 'mid', 'all'])
        if m == 'lines': e = s.find('\n', min(len(s) - 1, at + rng.choice([0, 0, 150]))) + 1
        else: e = at + (rng.randint(1, 12) if m == 'bits' else rng.randint(20, 260) if m == 'mid' else rng.randint(300, 3000))
        if e <= at: e = len(s)
        yield op('push', [], [ord(c) for c in s[at:e]]); at = e; q += 1
        while rng.random() < .55: yield op('look', [rng.choice([0, 0, 1]), rng.randint(1, 9)])
        if rng.random() < .01: yield op('init')
        if rng.random() < .02: yield op('print')
    for w in (0, 1):
        for x in range(1, 10): yield op('look', [w, x])
    for _ in range(4):
        m = rng.randint(0, 3); c = lambda: rng.choice([0, 1, 9000, rng.randint(-9000, 9000), rng.randint(-9000, 9000)]) * (2 if m == 1 and rng.random() < .5 else 1)
        x, y = c(), c()
        yield op('dist', [m, x, -x if rng.random() < .4 else y])


add('C36', 'satellite receiver text',
    Conf('Gps', 'gps.cpp', mc=['MC_Gps.cfg'], mc_thorough=['MC_Gps.cfg', 'MC_Gps_thorough.cfg'], edge='MC_Gps_edges.cfg', gen=gps, n=(260, 4000)))
