"""Running TLC: exhaustive checking, transition dumps, and trace validation."""
import json, os, re, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


def _tlc(args, env=None, heap='1500m', timeout=800, gc='-XX:+UseSerialGC', wd=None, stack='16m', out=None):
    meta = tempfile.mkdtemp(prefix='vf-tlc-')
    try:
        cmd = ['java', gc, '-Xmx' + heap, '-Xss' + stack, '-cp', CP, '-XX:TieredStopAtLevel=4',
               'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE'] + args
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=wd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors='replace', timeout=timeout)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b''
            return 'timeout', o.decode(errors='replace') if isinstance(o, bytes) else o
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def _num(s):
    return int(s.replace(',', ''))


def check(module, cfg, workers=4, heap='6g', timeout=800, extra=()):
    """Exhaustive check.  Returns dict(states, transitions, ok, out)."""
    rc, out = _tlc(['-workers', str(workers), '-config', cfg, '-nowarning'] + list(extra) + [module],
                   heap=heap, timeout=timeout, gc='-XX:+UseParallelGC')
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    st = dict(rc=rc, out=out, transitions=_num(m[-1][0]) if m else 0, states=_num(m[-1][1]) if m else 0)
    d = re.findall(r'The depth of the complete state graph search is (\d+)', out)
    st['depth'] = int(d[-1]) if d else 0
    st['ok'] = rc == 0 and 'No error has been found' in out
    return st


def edges(module, cfg, timeout=400, heap='4g'):
    """Dump every transition of the (small) state graph: list of (pre, op, post)."""
    rc, out = _tlc(['-workers', '1', '-config', cfg, '-nowarning', module], heap=heap, timeout=timeout)
    if rc != 0:
        raise ToolError('TLC edges %s: rc=%s\n%s' % (module, rc, out[-3000:]))
    es = []
    for line in out.splitlines():
        if line.startswith('<<"@E", '):
            parts = json.loads('[' + line[8:-2] + ']')
            es.append((parts[0], json.loads(parts[1]), parts[2]))
    return es


def trace(module, path, timeout=800, heap='2g', dfs=False, cfg=None):
    """Validate one recorded trace.  Returns (accepted, index of the first event not explained or None, out)."""
    n = sum(1 for _ in open(path))
    if n == 0:
        return True, None, ''
    for attempt in (1, 2):
        rc, out = _tlc(['-workers', '1', '-config', cfg or module + '.cfg', '-nowarning', module],
                       env={'TRACE': os.path.abspath(path)}, timeout=timeout, heap=heap)
        if rc == 0 and 'No error has been found' in out:
            return True, None, out
        m = re.findall(r'The depth of the complete state graph search is (\d+)', out)
        if m and ('PostCondition' in out or 'POSTCONDITION' in out.upper()) and 'violated' in out or \
           (m and 'TraceAccepted' in out):
            return False, int(m[-1]) - 1, out
        m = re.findall(r'Error: (Invariant|Action property) (\S+) is violated', out)
        if m:
            k = re.findall(r'^State (\d+):', out, re.M)
            return False, (int(k[-1]) - 2 if k else 0), out
    raise ToolError('TLC trace %s on %s: rc=%s\n%s' % (module, path, rc, out[-4000:]))
