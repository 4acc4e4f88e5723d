from .core import op, Conf
from .registry import add

AB = [97, 98]
TXT = [97, 98, 99, 65, 66, 122, 90, 32, 44, 45, 48, 57, 95]


def s(rng, alpha, lo, hi):
    return [rng.choice(alpha) for _ in range(rng.randint(lo, hi))]


def building(rng, alpha, t, big=False):
    hi = rng.choice([1, 3, 6, 6, 12] + ([200, 700] if big else []))
    k = rng.random()
    if k < .40: return op('concat', [t], s(rng, alpha, 0, hi))
    if k < .55: return op('prepend', [t], s(rng, alpha, 0, hi))
    if k < .70: return op('handbuf', [t], s(rng, alpha, 1, hi))
    if k < .80: return op('concatb', [t, rng.choice(alpha)])
    if k < .90: return op('concats', [t], [x for x in s(rng, alpha, 0, hi) if x])
    return op('concatsb', [t])


def wrap(gen):
    """new ... end around the body; the fragments are freed and the heap compared at the end."""
    def g(rng, i, n):
        yield op('new')
        yield from gen(rng, i, n)
        yield op('end')
    return g


def keep_short(rng, t):
    # content is bounded, so that evaluating the specification stays cheap
    return op('cull2', [t, 0, 0]) if rng.random() < .5 else op('clear', [t])


@wrap
def content(rng, i, n):
    alpha = rng.choice([AB, TXT, list(range(256)), [0, 1, 255]])
    size = 0
    for _ in range(rng.randint(10, 60)):
        t = rng.randint(1, 2)
        k = rng.random()
        if k < .35: yield building(rng, alpha, t)
        elif k < .40: yield op('copylimit', [t, rng.randint(0, 14)])
        elif k < .50: yield op('cull1', [t, rng.randint(-1, 12)])
        elif k < .58: yield op('cull2', [t, rng.randint(-1, 8), rng.randint(0, 10)])
        elif k < .62: yield op(rng.choice(['upper', 'lower']), [t])
        elif k < .70: yield op('string', [t])
        elif k < .80: yield op('byteat', [t, rng.randint(-2, 24)])
        elif k < .90: yield op('copyto', [t, rng.randint(0, 20), rng.randint(0, 14)])
        elif k < .94: yield op('isempty', [t])
        elif k < .955: yield op('concati', [t, rng.choice([0, 7, -1, 2147483647, -2147483647, rng.randint(-10**9, 10**9)])])
        elif k < .965: yield op('concatd', [t, rng.choice([-9, -1, 1, 7, 9]), rng.randint(0, 21)])
        elif k < .98:
            big = rng.random() < .15
            yield op('concatf', [t, rng.randint(-99999, 99999)],
                     [rng.choice([97, 98, 65, 48]) for _ in range(rng.choice([700, 1500]) if big else rng.randint(0, 9))])
            if big: yield op('cull1', [t, 690])
        else: yield keep_short(rng, t)


@wrap
def handoffs(rng, i, n):
    alpha = rng.choice([AB, TXT, list(range(256)), [0, 97, 255], [0, 7, 97]])
    for _ in range(rng.randint(10, 60)):
        t = rng.randint(1, 2)
        k = rng.random()
        if k < .42: yield building(rng, alpha, t)
        elif k < .70: yield op('limit', [t, rng.choice([1, 1, 2, 3, 4, 5, 7, 9, 12, 30, 0])])
        elif k < .80: yield op('handoff', [t])
        elif k < .90: yield op('prehandoff', [t])
        elif k < .96: yield op('string', [t])
        elif k < .98: yield op('cull1', [t, rng.randint(0, 9)])
        else: yield op('clear', [t])


@wrap
def search(rng, i, n):
    alpha = rng.choice([AB, AB, [97, 98, 99], [0, 97, 255]])
    text = [x for x in alpha if x]
    for _ in range(rng.randint(10, 50)):
        t = 1
        k = rng.random()
        if k < .40: yield building(rng, alpha, t)
        elif k < .62: yield op('locate', [t, rng.randint(0, 14)] if rng.random() < .5 else [t, 0], s(rng, alpha, 0, rng.choice([2, 3, 4, 6])))
        elif k < .72: yield op('containss', [t], s(rng, text, 0, 5))
        elif k < .76: yield op('containsc', [t, rng.choice(alpha + [100])])
        elif k < .80: yield op('cmpbin', [t], s(rng, alpha, 1, 4))
        elif k < .94: yield op('replace', [t], s(rng, text, 0, rng.choice([1, 2, 3, 4])), s(rng, [97, 98, 120], 0, 3))
        elif k < .97: yield op('string', [t])
        else: yield op('cull1', [t, rng.randint(0, 30)])


@wrap
def tokens(rng, i, n):
    alpha = rng.choice([[97, 44, 32], [97, 98, 44], [97, 98, 99, 44, 32, 59]])
    num = lambda: [ord(c) for c in rng.choice([
        str(rng.randint(-999999999, 999999999)), str(rng.randint(0, 999)), hex(rng.getrandbits(rng.choice([4, 16, 31, 32]))),
        '0x' + '%X' % rng.getrandbits(rng.choice([32, 40, 63, 64])), '0x', '0xg1', '0x12z9', '12ab', 'x9', '-', ' 42', '+7',
        '0x%016x' % rng.getrandbits(64), '0x%x1' % rng.getrandbits(64)])]
    for _ in range(rng.randint(10, 60)):
        t = rng.randint(1, 2)
        k = rng.random()
        if k < .25: yield building(rng, alpha, t)
        elif k < .33: yield op('concat', [t], num())
        elif k < .43: yield op('split', [t], s(rng, [44, 32, 59], 1, 2))
        elif k < .50: yield op('implode', [t], s(rng, [44, 45, 120], 0, 3))
        elif k < .56: yield op('chunk', [t, rng.randint(-1, 7)])
        elif k < .63: yield op('drop', [t, rng.randint(0, 6)])
        elif k < .70: yield op('position', [t, rng.randint(-1, 7)])
        elif k < .73: yield op('postrim', [t, rng.randint(0, 4)]); yield op('clear', [t])
        elif k < .78: yield op('posint', [t, rng.randint(0, 5)])
        elif k < .83: yield op('concats', [t], num()); yield op('posu64', [t, rng.randint(0, 5)])
        elif k < .92: yield op('poshandoff', [t, rng.randint(0, 5), rng.randint(0, 4)])
        elif k < .94: yield op('handoff', [t])
        elif k < .96: yield op('prehandoff', [t])
        elif k < .98: yield op('maxfrag', [t])
        else: yield op('clear', [t])


def sb(mode, gen, n, tok=False):
    return Conf('StringBuilder', 'stringbuilder.cpp', mc=['MC_StringBuilder_%s.cfg' % mode],
                edge='MC_StringBuilder_%s_edges.cfg' % mode, edge_thorough='MC_StringBuilder_%s_edges4.cfg' % mode,
                gen=gen, n=n, prefix=[op('new')], suffix=[op('end')],
                trace_spec='Trace_StringBuilderTok' if tok else 'Trace_StringBuilder',
                driver_env={'VF_TOKENS': '1'} if tok else {})


add('C05', 'StringBuilder content', sb('content', content, (600, 6000)))
add('C06', 'StringBuilder handoff', sb('handoff', handoffs, (800, 8000)))
add('C07', 'StringBuilder tokens', sb('tokens', tokens, (800, 8000), True))
add('C08', 'StringBuilder search', sb('search', search, (800, 8000)))
