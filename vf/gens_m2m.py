"""Machine-to-machine link: framing, one end, two ends."""
from .core import op, Conf
from .registry import add


def nb(x):
    return 0 if x == 0 else 1 if x < 256 else 2 if x < 65536 else 3


def be(x, n):
    return [(x >> (8 * (n - 1 - i))) & 255 for i in range(n)]


def frame(c, rb, mid, pl, bad=None, lenb=None):
    i = nb(mid)
    rest = 3 + i + len(pl)
    b = lenb or (1 if rest + 1 < 256 else 2 if rest + 2 < 65536 else 3)
    n = rest + b
    f = rb + 16 * b + 64 * i
    if bad == 'resv': f |= 4
    if bad == 'nolen': f &= ~0x30
    if bad == 'short': n = max(0, 3 + i + b - 1)
    if bad == 'long': n += 2
    k = (c + f + n + 1) & 255
    if bad == 'chk': k ^= 4
    return [c, f] + be(n, b) + be(mid, i) + [k] + list(pl)


def strhead(n, base=96):
    return [base + n] if n < 24 else [base + 24, n] if n < 256 else [base + 25, n >> 8, n & 255]


def payload(kind, v):
    return [] if kind == 0 else [161, 97, 107, v] if kind == 1 else [161, 97, 107] + strhead(v) + [120] * v


def logpay(n):
    return [161, 97, 98] + strhead(n) + [122] * n


def some_pay(rng):
    k = rng.random()
    if k < .25: return []
    if k < .7: return payload(1, rng.randrange(24))
    return payload(2, rng.choice([1, 3, 5, 23, 24, 40, rng.randint(1, 60)]))


SYNC = [1, 17, 4, 23]
SYNCR = [1, 18, 4, 24]


def m2mlink(rng, i, n, focus=None):
    mto, kal = rng.choice([10, 20, 50]), rng.choice([5, 30, 100, 1000])
    mtu = rng.choice([4096, 4096, 512, 40, 20])
    fl = rng.choice([0, 0, 0, 4, 4, 2, 6, 1])
    r0 = rng.choice([0, 0, 100, 250, 251, 252, 253, 254, 65531, 65533, 16777211, 16777213, 5000000])
    t0 = rng.choice([5000, 5000, 2000, -40, -200])
    yield op('new', [mto, kal, mtu, 0 + fl, t0, r0, rng.randrange(3), rng.choice([0, 0, 0, 7])])
    up = rng.random() < (.8 if focus == 'est' else .97)
    # how often: polls, bytes, sends, long sends, log, waits, policies, transport, hangup, reset, callback, bursts of polls
    W = dict(est=[34, 32, 5, 1, 1, 12, 1, 6, 1, 1, 1, 5], msg=[34, 24, 14, 2, 3, 10, 4, 4, 1, 1, 0, 4], hang=[36, 22, 8, 1, 2, 8, 2, 5, 6, 5, 1, 4])[focus or 'msg']
    # what arrives: syncs, the application's, asking, answers, services, log, whoami, connect, hangup, others, malformed, noise
    B = dict(est=[30, 8, 4, 6, 3, 2, 6, 14, 3, 6, 12, 6], msg=[4, 16, 14, 22, 10, 8, 6, 3, 2, 5, 6, 2], hang=[14, 8, 8, 12, 3, 3, 4, 12, 22, 4, 6, 4])[focus or 'msg']
    if up:
        yield op('eff', [rng.choice([1, 1, 0])])
        yield op('cb')
        for _ in range(3): yield op('poll')
        if rng.random() < (.4 if focus == 'est' else .93):
            yield op('push', [], SYNCR + (SYNC if rng.random() < .5 else []))
            for _ in range(2): yield op('poll')
            yield op('push', [], frame(2, 2, (r0 + 2) & 0xffffff, []))
            for _ in range(2): yield op('poll')
    pend = []
    for _ in range(rng.randint(15, 60)):
        k = rng.choices(range(12), W)[0]
        if k == 0: yield op('poll')
        elif k == 1:
            q = rng.choices(range(12), B)[0]
            mid = rng.choice([0, (r0 + rng.randint(1, 8)) & 0xffffff, (r0 + rng.randint(2, 30)) & 0xffffff, rng.choice([1, 5, 255, 256, 65535, 65536, 16777215])])
            anyrb = rng.choice([0, 1, 2, 3]) if mid else 0
            if q == 0: b = rng.choice([SYNC, SYNCR, SYNC * 2, SYNCR * 3, [0] + SYNC, SYNC + SYNCR, SYNCR + SYNC, [7, 7] + SYNCR, SYNC[:2], SYNC[2:], SYNC[:3], [1, 16, 4, 22], [1, 19, 4, 25]])
            elif q == 1: b = frame(15, 0, 0, some_pay(rng))
            elif q == 2: b = frame(15, 1, mid or 9, some_pay(rng))
            elif q == 3: b = frame(15, 2 + (rng.random() < .2), mid or 3, some_pay(rng))
            elif q == 4: b = frame(rng.choice([16, 17, 18, 20, 31]), anyrb, mid, some_pay(rng))
            elif q == 5: b = frame(8, min(anyrb, 2), mid, rng.choice([logpay(rng.choice([1, 4, 30])), logpay(2), [], payload(1, 4), [161, 97, 98, 5], [161, 97, 98, 245]]))
            elif q == 6: b = frame(9, rng.choice([1, 2, 3]), mid or 4, [])
            elif q == 7: b = frame(2, rng.choice([1, 2, 2]), mid or 8, [])
            elif q == 8: b = frame(5, rng.choice([1, 1, 2]), mid or 6, [])
            elif q == 9: b = frame(rng.choice([3, 4, 6, 7, 10, 14, 0, 11, 32, 200]), rng.choice([0, 1, 2]) if mid else rng.choice([0, 1]), mid, some_pay(rng))
            elif q == 10: b = frame(rng.choice([15, 15, 1, 2, 16]), rng.randrange(4), mid, some_pay(rng), bad=rng.choice(['resv', 'nolen', 'short', 'long', 'chk', None]), lenb=rng.choice([None, 2, 3]))
            else: b = [rng.choice([0, 1, 4, 15, 16, 17, 23, 255, rng.randrange(256)]) for _ in range(rng.randint(1, 12))]
            pend += b
            # cut the stream anywhere
            if rng.random() < .3:
                x = rng.randint(1, len(pend))
                yield op('push', [], pend[:x])
                pend = pend[x:]
            else:
                yield op('push', [], pend)
                pend = []
        elif k == 2: yield op('send', [rng.choice([0, 1, 1, 2]), rng.randint(1, 22), int(rng.random() < .6)])
        elif k == 3: yield op('send', [2, rng.choice([243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 300, 1000]), int(rng.random() < .5)])
        elif k == 4: yield op('wlog', [rng.choice([0, 1, 5, 30]), int(rng.random() < .5)])
        elif k == 5: yield op('wait', [rng.choice([1, 5, mto, mto + 1, mto + 1, 2 * mto, kal, kal + 1])])
        elif k == 6: yield op('pol', [rng.choice([0, 0, 0, 1, 2]), rng.randrange(7)])
        elif k == 7: yield op('eff', [rng.choice([1, 1, 1, 0, 0, -1, -1, 2])])
        elif k == 8: yield op('hangup', [int(rng.random() < .7)])
        elif k == 9: yield op('reset')
        elif k == 10: yield op('cb')
        else:
            for _ in range(4): yield op('poll')
    if rng.random() < .5: yield op('eff', [1])
    for _ in range(6): yield op('poll')
    yield op('drop')


CODES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 16, 20, 31]
IDS = [0, 1, 9, 255, 256, 65535, 65536, 16777215, 16777216, 16777217]
LENS = [0, 1, 5, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 65519, 65520, 65522, 65524, 65526, 65527, 65528, 65529, 65530, 65531, 65532,
        65533, 65534, 65535, 65536, 16777200, 16777202, 16777203, 16777204, 16777205, 16777206, 16777207, 16777208, 16777209, 16777213, 16777215, 16777216, 2147483600,
        -1, -2, -4, -5, -6, -10]


def m2mmsgs(rng, i, n):
    bad = lambda: rng.choice([None, None, None, None, None, 'resv', 'nolen', 'short', 'long', 'chk'])
    def fr(c=None):
        mid = rng.choice(IDS[:8] + [rng.randrange(16777216)])
        rb = rng.choice([1, 2, 3]) if mid and rng.random() < .9 else rng.choice([0, 0, 0, 1])
        return frame(c or rng.choice(CODES + [0, 10, 12, 32, 255]), rb, mid, some_pay(rng) if rng.random() < .9 else payload(2, rng.randint(240, 260)), bad=bad(), lenb=rng.choice([None] * 6 + [2, 3]))
    def pay(): return rng.choice([[0, 0], [1, rng.randrange(24)], [2, rng.randint(1, 40)], [2, rng.randint(236, 260)]])
    yield op('begin')
    for _ in range(rng.randint(8, 30)):
        k = rng.random()
        if k < .12: yield op('mk', [rng.choice(CODES + [0, 12, 32]), rng.choice([0, 1, 9, 100, 240, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255]), rng.randrange(256), rng.choice(IDS + [rng.randrange(16777216)])])
        elif k < .22: yield op('setlen', [rng.choice(LENS + [rng.randrange(300), rng.randrange(16777216)])])
        elif k < .26: yield op('flag', [rng.randrange(2), rng.randrange(2)])
        elif k < .34: yield op('ser')
        elif k < .48:
            b = fr()
            q = rng.random()
            if q < .3: b = b[:rng.randint(0, min(len(b), 12))]
            elif q < .4: b = b + fr()
            elif q < .5: b[rng.randrange(min(len(b), 9))] = rng.randrange(256)
            elif q < .55: b = [rng.randrange(256) for _ in range(rng.randint(0, 12))]
            yield op('parse', [rng.choice([0, 0, rng.randint(1, 12)])], b)
        elif k < .66:
            b = fr()
            q = rng.random()
            rest = []
            if q < .6: x = rng.randint(0, len(b)); b, rest = b[:x], b[x:] + (fr() if rng.random() < .5 else [])[:rng.choice([0, 1, 1, 2, 3, 99])]
            elif q < .8: b = b + fr()
            yield op('unser', [rng.choice([0, 0, rng.randint(1, 12)])], b)
            while rest and rng.random() < .9:
                x = rng.randint(0, len(rest))
                yield op('feed', [0], rest[:x])
                rest = rest[x:]
            if rng.random() < .2: yield op('feed', [1], fr())
        elif k < .76: yield op('out', [rng.choice(CODES + [0, 12]), rng.randrange(4), rng.choice(IDS + [rng.randrange(16777216)])] + pay())
        elif k < .80: yield op('pay', pay())
        elif k < .90:
            yield op('reply', pay() + [int(rng.random() < .5)])
        elif k < .95: yield op('write')
        elif k < .96: yield op('sent')
        elif k < .97: yield op('ackd')
        else: yield op('retry')
    yield op('end')


def foc(f):
    def g(rng, i, n): return m2mlink(rng, i, n, f)
    return g


add('C22', 'Link establishment',
    Conf('M2MLink', 'm2mlink.cpp', mc=['MC_M2MLink_est.cfg'], mc_thorough=['MC_M2MLink_est4.cfg', 'MC_M2MLink_est5.cfg'], edge='MC_M2MLink_estedges.cfg', edge_thorough='MC_M2MLink_estedges4.cfg',
         gen=foc('est'), n=(300, 4000)))
add('C23', 'Link messages',
    Conf('M2MLink', 'm2mlink.cpp', mc=['MC_M2MLink.cfg'], edge='MC_M2MLink_msgedges.cfg', edge_thorough='MC_M2MLink_handedges.cfg', gen=foc('msg'), n=(400, 4000)))
add('C24', 'Link hangup',
    Conf('M2MLink', 'm2mlink.cpp', mc=['MC_M2MLink_hang.cfg'], edge='MC_M2MLink_hangedges.cfg', gen=foc('hang'), n=(300, 4000)))
add('C21', 'Link frames',
    Conf('M2MMsgs', 'm2mmsgs.cpp', mc=['MC_M2MMsgs.cfg'], edge='MC_M2MMsgs_edges.cfg', gen=m2mmsgs, n=(600, 8000), prefix=[op('begin')], suffix=[op('end')]))


def m2mpair(rng, i, n):
    mto, kal = rng.choice([10, 20, 50]), rng.choice([5, 30, 100])
    r0 = rng.choice([0, 100, 240, 65500, 16777000, 5000000])
    fl = rng.choice([[0, 0], [0, 0], [2, 0], [2, 2], [4, 4], [1, 0]])
    yield op('new', fl + [mto, kal, rng.choice([4096, 4096, 512]), rng.choice([5000, 2000]), r0])
    for w in (1, 2):
        if rng.random() < .8: yield op('pol', [w, rng.choice([1, 1, 1, 2, 3, 4, 5, 6])])
    faulty = rng.random() < .5
    if rng.random() < .6: yield op('turns', [rng.choice([1, 5, 12]), rng.randint(6, 25)])
    for _ in range(rng.randint(15, 50)):
        k = rng.random()
        w = rng.choice([1, 2])
        if k < .36: yield op('poll', [w])
        elif k < .60: yield op('arrive', [w, rng.choice([1, 2, 3, 4, 5, 9, 99999, 99999, 99999])])
        elif k < .76: kd = rng.choice([0, 1, 1, 2]); yield op('send', [w, kd, rng.randint(1, 22) if kd < 2 or rng.random() < .6 else rng.choice([240, 250, 256, 300, 500]), int(rng.random() < .6)])
        elif k < .82: yield op('wait', [rng.choice([1, mto, mto + 1, kal + 1])])
        elif k < .90: yield op('turns', [rng.choice([1, 3, mto + 1]), rng.randint(1, 6)])
        elif k < .95:
            if not faulty: yield op('poll', [w])
            elif rng.random() < .5: yield op('lose', [w, rng.randint(1, 6), rng.choice([1, 2, 4, 50])])
            else: yield op('spoil', [w, rng.randint(1, 10), rng.randrange(256)])
        elif k < .965: yield op('hangup', [w, int(rng.random() < .8)])
        elif k < .985: yield op('reset', [w])
        else: yield op('pol', [w, rng.randrange(7)])
    # two ends left in peace recover (as the specification has it)
    yield op('turns', [rng.choice([kal + 1, 12]), rng.randint(30, 60)])
    if rng.random() < .5:
        yield op('send', [1, 1, 3, 1])
        yield op('turns', [1, 6])
        yield op('hangup', [rng.choice([1, 2]), 1])
        yield op('turns', [2, 12])
        for w in (1, 2): yield op('reset', [w])
        yield op('turns', [kal + 1, 30])
    yield op('drop')


add('C33', 'Two ends of a link',
    Conf('M2MPair', 'm2mpair.cpp', mc=['MC_M2MPair_split.cfg', 'MC_M2MPair_loss.cfg', 'MC_M2MPair_again.cfg'],
         mc_thorough=['MC_M2MPair_split.cfg', 'MC_M2MPair_loss.cfg', 'MC_M2MPair_again.cfg', 'MC_M2MPair_live.cfg', 'MC_M2MPair_hang.cfg', 'MC_M2MPair_msgs.cfg'],
         edge='MC_M2MPair_edges.cfg', edge_thorough='MC_M2MPair_edges4.cfg', gen=m2mpair, n=(250, 3000)),
    Conf('M2MPair', 'm2mpair.cpp', edge='MC_M2MPair_msgedges.cfg', name='M2MPair-messages'))
