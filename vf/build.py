"""Builds the conformance drivers from /repo's working tree (objects cached by content in /verif/.build)."""
import hashlib, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
CACHE = os.path.join(ROOT, '.build')
CXX = 'g++'
FLAGS = ['-m32', '-std=gnu++17', '-fsingle-precision-constant', '-fno-rtti', '-fno-exceptions',
         '-O1', '-g1', '-fno-omit-frame-pointer', '-w',
         '-DCONFIG_C3P_CBOR', '-DCONFIG_C3P_M2M_SUPPORT', '-DCONFIG_C3P_IMG_SUPPORT',
         '-DCONFIG_C3P_TRACE_ENABLED', '-D_GNU_SOURCE', '-DC3P_VERIF_HOOKS']
SKIP = ('M2MLink/LinkUtils/DataSharing.cpp', 'Pipes/BufferAccepter/MapFileParser/MapFileParser.cpp')


class BuildError(Exception):
    pass


def sources():
    out = []
    for d, _, fs in os.walk(SRC):
        rel = os.path.relpath(d, SRC)
        if rel == 'Meta' or rel.startswith('Meta/') or rel.startswith('CryptoBurrito'):
            continue
        for f in sorted(fs):
            if f.endswith('.cpp'):
                r = os.path.normpath(os.path.join(rel, f))
                if r not in SKIP:
                    out.append(r)
    return sorted(out)


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def _headers():
    hs = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(('.h', '.hpp', '.inc')):
                hs.append(os.path.join(d, f))
    return hs


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])


def build(driver, asan=True, extra=()):
    """Compile the library and harness/<driver>; return the path of the executable."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    flags = FLAGS + (['-fsanitize=address'] if asan else []) + list(extra)
    hd = _digest(_headers()) + '|' + ' '.join(flags)
    jobs, objs = [], []
    srcs = [(os.path.join(SRC, s), s) for s in sources()]
    for path, rel in srcs:
        with open(path, 'rb') as f:
            key = hashlib.sha256((hd + '|' + rel + '|').encode() + f.read()).hexdigest()[:24]
        o = os.path.join(CACHE, key + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((path, o))
    hdir = os.path.join(ROOT, 'harness')
    hh = _digest([os.path.join(hdir, f) for f in os.listdir(hdir) if f.endswith(('.h', '.cpp'))])
    hobjs = []
    for f in (driver, 'platform.cpp'):
        key = hashlib.sha256((hd + '|' + hh + '|' + f).encode()).hexdigest()[:24]
        o = os.path.join(CACHE, 'h' + key + '.o')
        hobjs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.join(hdir, f), o))
    def cc(j):
        tmp = j[1] + '.tmp%d.o' % os.getpid()
        _run([CXX] + flags + ['-I' + SRC, '-I' + hdir, '-c', j[0], '-o', tmp])
        os.rename(tmp, j[1])
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max(2, os.cpu_count() or 8)) as ex:
        list(ex.map(cc, jobs))
    key = hashlib.sha256('|'.join(objs + hobjs + flags).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, driver.replace('.cpp', '') + '-' + key)
    if not os.path.exists(exe):
        ar = exe + '.tmp%d.a' % os.getpid()
        _run(['ar', 'rcs', ar] + objs)
        _run([CXX] + flags + ['-o', exe + '.tmp'] + hobjs + [ar, '-lm'])
        os.rename(exe + '.tmp', exe)
        os.remove(ar)
    lock.close()
    return exe


if __name__ == '__main__':
    for d in sys.argv[1:]:
        print(build(d))
