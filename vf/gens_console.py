from .core import op, Conf
from .registry import add


def B(s):
    return [ord(ch) for ch in s]


# ---------------------------------------------------------------- C25 ParsingConsole
NAMES = ['help', 'conf', 'echo', 'Echo', 'e', 'x', 'reboot', 'link', 'i2c', 'foo-bar', 'a', 'A', 'verylongcommandname', 'st', 'say', 'l2']
CONFS = ['echo', 'history', 'help-on-fail', 'prompt', 'force', 'rxterm', 'bogus', 'ECHO', 'History']
SUBS = ['clear', 'depth', 'logerrors', 'what', 'Clear']
NUMS = ['0', '1', '2', '3', '5', '-1', '0x02', '9', 'x']
SEP = [' ', ' ', ' ', '  ', '   ', ' \t ']
TERMS = {0: '\0', 1: '\r', 2: '\n', 3: '\r\n', 8: '\n'}


def line(rng, names):
    k = rng.random()
    pad = rng.choice(['', '', '', ' ', '\t', '  ']), rng.choice(['', '', '', ' ', '\t '])
    if k < .06: return ''.join(pad)
    if k < .15: return ''.join(rng.choice('abxyz 019\t\x01\x7f-+"\xe9') for _ in range(rng.randint(1, 12)))
    if k < .4:
        w = ['conf'] if rng.random() < .9 else []
        f = rng.choice(CONFS)
        w.append(f)
        if f.lower() == 'history' and rng.random() < .8: w.append(rng.choice(SUBS))
        if rng.random() < .7: w.append(rng.choice(NUMS))
    else:
        n = rng.choice(names) if names else 'x'
        if rng.random() < .2: n = ''.join(ch.upper() if rng.random() < .5 else ch.lower() for ch in n)
        w = [n] + [''.join(rng.choice('abc019.-_\t') for _ in range(rng.randint(1, 5))) for _ in range(rng.choice([0, 0, 1, 2, 3, 5]))]
        if n == 'help' and rng.random() < .6: w = [n, rng.choice(names + ['nope'])]
    sep = rng.choice(SEP)
    return pad[0] + sep.join(w) + pad[1]


def console(rng, i, n):
    maxlen = rng.choice([128, 128, 128, 64, 20, 8, 7, 4, 200])
    slow = rng.random() < .3
    yield op('new', [maxlen, int(rng.random() < .8), rng.choice([0, 30, 200]) if slow else 100000, rng.choice([1, 10, 50]) if slow else 100000])
    names = []

    def define(kind=None, name=None):
        nm = name or rng.choice(NAMES)
        names.append(nm)
        sc = ord(rng.choice('hcelA1?x')) if rng.random() < .5 else 0
        if sc: names.append(chr(sc))
        kd = kind if kind is not None else rng.choice([0, 0, 0, 3])
        return op('def', [rng.randint(0, 2), sc, rng.choice([0, 0, 0, 1, 2, 3]) if kd != 1 else 0, kd, rng.choice([0, 0, 0, -1, 1, 5])],
                  B(nm), B(rng.choice(['', 'Does a thing', '100% sure'])), B(rng.choice(['', '[x|y]'])), B(rng.choice(['', 'ok', 'a\nb'])))
    yield define(2, 'conf')
    if rng.random() < .7: yield define(1, 'help')
    for _ in range(rng.randint(0, 5)): yield define()
    if rng.random() < .4: yield op('pstr', [], B(rng.choice(['> ', '$', 'prompt%s '])))
    for f in range(1, 6):
        if rng.random() < .35: yield op('flag', [f, 1])
    term = 2
    if rng.random() < .5:
        term = rng.choice([0, 1, 2, 3, 3, 8])
        yield op('term', [term])
    pend = ''
    for _ in range(rng.randint(10, 35)):
        k = rng.random()
        if k < .75:
            # a few lines, typed with mistakes, then delivered in pieces of any size
            s = ''
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                ln = line(rng, names)
                t = ''
                for ch in ln:
                    if rng.random() < .04: t += rng.choice('qw') + '\x08'
                    t += ch
                if rng.random() < .05: t += '\x08' * rng.randint(1, 4)
                s += t + (TERMS[term] if rng.random() < .9 else rng.choice(['', '\r', '\n', '\0', '\n\n', '\r\n']))
            s = pend + s
            cut = rng.randint(0, len(s)) if rng.random() < .4 else len(s)
            pend, s = s[cut:], s[:cut]
            if len(pend) > 60: pend = ''
            mode = rng.random()
            if mode < .4:
                yield op('push', [], *([B(s)] if s else []))
            elif mode < .6 and len(s) < 40:
                for ch in s: yield op('push', [], B(ch))
            else:
                while s:
                    m = rng.choice([1, 2, 3, 7, 20])
                    parts = []
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        if s: parts.append(B(s[:m])); s = s[m:]
                    yield op('push', [], *parts)
        elif k < .79: yield op('flag', [rng.randint(1, 5), rng.randint(0, 1)])
        elif k < .82:
            term = rng.choice([0, 1, 2, 2, 3, 3, 8])
            yield op('term', [term])
        elif k < .85: yield op('depth', [rng.choice([0, 1, 2, 3, 8, 255])])
        elif k < .86: yield op('clear')
        elif k < .88: yield op('fetch')
        elif k < .90: yield op('print', [], B('note\n'))
        elif k < .92: yield op('prompt')
        elif k < .93: yield op('pstr', [], *rng.choice([[], [B('>')]]))
        elif k < .95: yield op('room', [rng.choice([0, 10, 100, 1000]), rng.choice([1, 20, 1000])])
        elif k < .96: yield op('eff', [rng.randint(0, 1)])
        elif k < .97: yield op('help')
        elif k < .98: yield op('helpfor', [], B(rng.choice(names + ['zz'])))
        elif len(names) < 12: yield define()
    yield op('end')


add('C25', 'ParsingConsole',
    Conf('Console', 'console.cpp', mc=['MC_Console.cfg', 'MC_Console_out.cfg', 'MC_Console_kept.cfg'], edge='MC_Console_edges.cfg', gen=console, n=(400, 5000)),
    Conf('Console', 'console.cpp', edge='MC_Console_outedges.cfg', name='Console-output'))
