"""One check = exhaustive checking of a specification + conformance of the code to it, in both directions."""
import hashlib, json, os, random, shutil, subprocess, sys, tempfile, threading, time, traceback
from collections import deque
from concurrent.futures import ThreadPoolExecutor
from . import build as B, tlc as T

ROOT = B.ROOT
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
QUICK = TIER != 'thorough'
OUT = os.path.join(ROOT, 'out')


def op(name, a=(), *d):
    return (name, list(a), [list(x) for x in d])


def line(o):
    s = o[0]
    if o[1]:
        s += ' ' + ' '.join(str(int(x)) for x in o[1])
    for x in o[2]:
        s += ' |' + ''.join(' %d' % int(y) for y in x)
    return s


def walks(edges, root, maxlen=400, rng=None):
    """Paths from the initial state which together take every dumped transition.  Each path is an episode."""
    adj = {}
    for i, (p, o, q) in enumerate(edges):
        adj.setdefault(p, []).append(i)
    # breadth-first tree for shortest approach
    par = {root: None}
    dq = deque([root])
    while dq:
        s = dq.popleft()
        for i in adj.get(s, ()):
            t = edges[i][2]
            if t not in par:
                par[t] = i
                dq.append(t)
    todo = {s: deque(v) for s, v in adj.items()}
    left = sum(len(v) for v in todo.values())
    eps, starts = [], [s for s in par if todo.get(s)]

    def approach(s):
        path = []
        while par[s] is not None:
            path.append(par[s])
            s = edges[par[s]][0]
        return path[::-1]

    def nearest(s):
        """Shortest path from s to a state with an untaken transition."""
        seen = {s: None}
        dq = deque([s])
        n = 0
        while dq and n < 400:
            u = dq.popleft()
            n += 1
            if todo.get(u):
                path = []
                while seen[u] is not None:
                    path.append(seen[u])
                    u = edges[seen[u]][0]
                return path[::-1]
            for i in adj.get(u, ()):
                t = edges[i][2]
                if t not in seen:
                    seen[t] = i
                    dq.append(t)
        return None

    for s0 in starts:
        while todo[s0]:
            path = approach(s0)
            s = s0
            while len(path) < maxlen:
                if todo.get(s):
                    i = todo[s].popleft()
                    path.append(i)
                    s = edges[i][2]
                else:
                    x = nearest(s)
                    if x is None:
                        break
                    path += x
                    s = edges[x[-1]][2]
            eps.append([tuple(edges[i][1]) for i in path])
    return eps


class Conf:
    """A component: a specification module, its exhaustive configurations, and a driver of the real code."""
    def __init__(self, spec, driver, mc=(), edge=None, edge_thorough=None, gen=None, n=(200, 2000), chunks=8,
                 mc_thorough=None, trace_spec=None, asan=True, timeout=(250, 700), steer=None, driver_env=None,
                 trace_cfg=None, name=None, prefix=(), suffix=()):
        self.spec, self.driver, self.mc, self.edge, self.gen = spec, driver, list(mc), edge, gen
        self.edge_thorough = edge_thorough or edge
        self.mc_thorough = list(mc_thorough if mc_thorough is not None else mc)
        self.n, self.chunks = n, chunks
        self.trace_spec = trace_spec or 'Trace_' + spec
        self.trace_cfg = trace_cfg
        self.asan = asan
        self.timeout = timeout
        self.name = name or spec
        self.driver_env = driver_env or {}
        self.prefix, self.suffix = list(prefix), list(suffix)


class Check:
    def __init__(self, pid, title, confs, level_note=''):
        self.pid, self.title, self.confs = pid, title, confs


class Violation(Exception):
    pass


class Runner:
    def __init__(self, check, known=()):
        self.c = check
        self.known = list(known)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vf-' + check.pid + '-')
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        episodes=0, events=0, spec_transitions_replayed=0, exhaustive_configs=[], ops={})
        self.violations = []
        self.lock = threading.Lock()

    def run_driver(self, conf, exe, episodes, tag):
        """Execute episodes on the real code; return the path of the recorded trace."""
        sp = os.path.join(self.tmp, tag + '.ops')
        tp = os.path.join(self.tmp, tag + '.ndjson')
        with open(sp, 'w') as f:
            for ep in episodes:
                for o in ep:
                    f.write(line(o) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0',
                   TZ='UTC', **conf.driver_env)
        err = os.path.join(self.tmp, tag + '.err')
        with open(err, 'w') as ef:
            try:
                p = subprocess.run([exe, sp, tp], stdout=subprocess.DEVNULL, stderr=ef, timeout=400, env=env)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        if rc == 2:
            raise T.ToolError('driver could not read its script')
        if rc != 0:
            with open(tp, 'rb+') as f:          # drop a partial last line
                data = f.read()
                k = data.rfind(b'\n') + 1
                f.truncate(k)
                f.seek(k)
                if rc != 98:
                    f.write(b'{"op":"CRASH","a":[],"d":[],"r":[],"s":[]}\n')
        return sp, tp, err, rc

    def validate(self, conf, exe, episodes, tag, expect_fail=False):
        sp, tp, err, rc = self.run_driver(conf, exe, episodes, tag)
        ok, idx, out = T.trace(conf.trace_spec, tp, timeout=conf.timeout[0 if QUICK else 1], cfg=conf.trace_cfg)
        return ok, idx, out, tp, err, rc

    def episode_at(self, episodes, idx):
        k = 0
        for i, ep in enumerate(episodes):
            if idx < k + len(ep):
                return i, idx - k
            k += len(ep)
        return len(episodes) - 1, len(episodes[-1]) - 1

    def work(self, conf, exe, episodes, tag):
        if not episodes:
            return
        ok, idx, out, tp, err, rc = self.validate(conf, exe, episodes, tag)
        n = sum(len(e) for e in episodes)
        with self.lock:
            self.cov['events'] += n if ok else idx
            self.cov['episodes'] += len(episodes)
            for e in episodes:
                for o in e:
                    self.cov['ops'][o[0]] = self.cov['ops'].get(o[0], 0) + 1
            if ok:
                self.cov['traces_validated_against_impl'] += len(episodes)
            if len(self.cov['samples']) < 3:
                with open(tp) as f:
                    self.cov['samples'].append([next(f, '').strip()[:300] for _ in range(4)])
        if ok:
            for p in (tp,):
                os.remove(p)
            return
        with self.lock:
            if len(self.violations) >= 3:
                return
        # confirm on the single episode
        ei, k = self.episode_at(episodes, idx)
        ep = episodes[ei][:k + 1]
        ok2, idx2, out2, tp2, err2, rc2 = self.validate(conf, exe, [ep], tag + 'r')
        if ok2:   # needs what came before it in the same process
            ep = [o for e in episodes[:ei] for o in e] + ep
            ok2, idx2, out2, tp2, err2, rc2 = self.validate(conf, exe, [ep], tag + 'q')
        if ok2:
            raise T.ToolError('rejection of %s did not repeat (event %d)' % (tag, idx))
        ep = ep[:idx2 + 1]
        ep, idx2, out2, tp2, err2 = self.shrink(conf, exe, ep, tag, idx2, out2, tp2, err2)
        self.report(conf, ep, idx2, tp2, err2, out2)

    def shrink(self, conf, exe, ep, tag, idx, out, tp, err):
        t0 = time.time()
        best = (ep, idx, out, tp, err)
        step = max(1, (len(ep) - 2) // 2)
        k = 0
        while step >= 1 and time.time() - t0 < 40 and len(best[0]) > 2:
            i, progress = 1, False
            while i < len(best[0]) - 1 and time.time() - t0 < 40:
                cand = best[0][:i] + best[0][min(i + step, len(best[0]) - 1):]
                k += 1
                try:
                    ok2, i2, o2, t2, e2, _ = self.validate(conf, exe, [cand], '%ss%d' % (tag, k))
                except T.ToolError:
                    ok2 = True
                if not ok2 and i2 == len(cand) - 1:
                    best = (cand, i2, o2, t2, e2)
                    progress = True
                else:
                    i += step
            if step == 1 and not progress:
                break
            step = step // 2 if step > 1 else (1 if progress else 0)
        return best

    def report(self, conf, ep, idx, tp, err, out):
        os.makedirs(OUT, exist_ok=True)
        key = hashlib.sha256(repr(ep).encode()).hexdigest()[:10]
        path = os.path.join(OUT, '%s-%s-%s.txt' % (self.c.pid, conf.name, key))
        with open(path, 'w') as f:
            f.write('property %s: %s\nspecification %s; the code departs from it at event %d (0-based)\n' %
                    (self.c.pid, self.c.title, conf.spec, idx))
            f.write('\n-- operations (driver harness/%s)\n' % conf.driver)
            for o in ep:
                f.write(line(o) + '\n')
            f.write('\n-- recorded events\n' + open(tp).read())
            e = open(err).read()
            if e.strip():
                f.write('\n-- stderr of the driver\n' + e[:6000])
            f.write('\n-- TLC\n' + '\n'.join(x for x in out.splitlines() if not x.startswith(('Parsing', 'Semantic', 'Linting', 'TLC2', 'Running')))[-3000:])
        with self.lock:
            if path in self.violations or len(self.violations) >= 3:
                return
            self.violations.append(path)
        print('VIOLATION property=%s replay=%s' % (self.c.pid, path))
        sys.stdout.flush()

    def run_mc(self, conf, cfg):
        module = 'MC_' + conf.spec if not isinstance(cfg, tuple) else cfg[0]
        cfgf = cfg if not isinstance(cfg, tuple) else cfg[1]
        st = T.check(module, cfgf, workers=3, timeout=800)
        if not st['ok']:
            raise T.ToolError('the specification itself fails: %s %s\n%s' % (module, cfgf, st['out'][-4000:]))
        with self.lock:
            self.cov['states'] += st['states']
            self.cov['transitions'] += st['transitions']
            self.cov['exhaustive_configs'].append(dict(module=module, cfg=cfgf, states=st['states'],
                                                       transitions=st['transitions'], depth=st['depth']))

    def run_conf(self, conf, ex, futs):
        exe = B.build(conf.driver, asan=conf.asan)
        for cfg in (conf.mc if QUICK else conf.mc_thorough):
            futs.append(ex.submit(self.run_mc, conf, cfg))
        tier = 0 if QUICK else 1
        eps = []
        if conf.gen:
            rng = random.Random('%s-%s-%d-%s' % (self.c.pid, conf.name, SEED, TIER))
            n = conf.n[tier]
            for i in range(n):
                eps.append(list(conf.gen(rng, i, n)))
        def spread(eps, tag):
            ch = conf.chunks if QUICK else conf.chunks * 4
            buckets = [[] for _ in range(ch)]
            size = [0] * ch
            for e in eps:
                k = size.index(min(size))
                buckets[k].append(e)
                size[k] += len(e)
            for i, b in enumerate(buckets):
                if b:
                    futs.append(ex.submit(self.work, conf, exe, b, '%s-%s%d' % (conf.name, tag, i)))
        spread(eps, 'g')
        cfg = conf.edge if QUICK else conf.edge_thorough
        if cfg:
            def ed():
                module = 'MC_' + conf.spec if not isinstance(cfg, tuple) else cfg[0]
                es = T.edges(module, cfg if not isinstance(cfg, tuple) else cfg[1])
                roots = set(p for p, _, _ in es)
                root = es[0][0]
                w = [conf.prefix + x + conf.suffix for x in walks(es, root)]
                with self.lock:
                    self.cov['spec_transitions_replayed'] += len(es)
                spread(w, 'w')
            futs.append(ex.submit(ed))

    def main(self):
        rc = 0
        try:
            futs = []
            with ThreadPoolExecutor(9) as ex:
                for conf in self.c.confs:
                    self.run_conf(conf, ex, futs)
                i = 0
                while i < len(futs):     # tasks may add tasks
                    futs[i].result()
                    i += 1
                self.probe_known(ex)
            rc = 1 if self.violations else 0
        except Exception:
            traceback.print_exc()
            rc = 1 if self.violations else 2
        self.evidence(rc)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if rc == 0:
            print('%s: held on everything explored (%d spec states, %d episodes / %d events of the code, %.0f s)' %
                  (self.c.pid, self.cov['states'], self.cov['episodes'], self.cov['events'], time.time() - self.t0))
        return rc

    def probe_known(self, ex):
        for k in self.known:
            conf = [c for c in self.c.confs if c.name == k['conf']][0]
            exe = B.build(conf.driver, asan=conf.asan)
            ok, idx, out, tp, err, rc = self.validate(conf, exe, [[tuple(o) for o in k['ops']]], 'known-' + k['id'])
            if not ok:
                print('KNOWN-FINDING: property=%s %s' % (self.c.pid, k['what']))

    def evidence(self, rc):
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        ev = dict(property=self.c.pid, tier='quick' if QUICK else 'thorough', seed=SEED, level='model_checking',
                  coverage=self.cov, wall_s=round(time.time() - self.t0, 2))
        ev['violations'] = self.violations
        with open(os.path.join(ROOT, 'evidence', self.c.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
