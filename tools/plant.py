#!/usr/bin/env python3
"""Plants changes in a scratch copy of /repo, confirms them, and runs the property's check against them.
usage: plant.py BATCH.py [ID ...]      (BATCH.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)])
Nothing here is used by a check."""
import importlib.util, json, os, shutil, subprocess, sys
W = '/tmp/wt'
SRC = os.environ.get('PLANT_SRC', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, CCACHE_DISABLE='1', LC_ALL='C.UTF-8')
DEMO = '''#!/bin/bash
# Builds demo.cpp against the objects of the current build and runs it: 0 when the property's promise is kept.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
find "$R/_build/src" -name '*.o' -print0 | xargs -0 ar rcs "$T/l.a"
g++ -m32 -std=gnu++17 -O0 -g -w -fsingle-precision-constant -fno-rtti -fno-exceptions -D_GNU_SOURCE -DCONFIG_C3P_CBOR -DCONFIG_C3P_M2M_SUPPORT \\
  -DCONFIG_C3P_IMG_SUPPORT -DCONFIG_C3P_TRACE_ENABLED -I"$R/src" -I"$D" -Wl,--gc-sections -o "$T/demo" "$D/demo.cpp" "$T/l.a" -lm || exit 3
timeout 60 "$T/demo"
'''
PLAT = '''// Simulated platform for the demonstration.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "AbstractPlatform.h"
static uint64_t sim_us = 5000000;
uint32_t randomUInt32() { static uint32_t x = 2463534242U; x ^= x << 13; x ^= x >> 17; x ^= x << 5; return x; }
int8_t random_fill(uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t) randomUInt32(); return 0; }
long unsigned micros() { return (long unsigned) (uint32_t) sim_us; }
long unsigned millis() { return (long unsigned) (uint32_t) (sim_us / 1000); }
void sleep_ms(uint32_t ms) { sim_us += 1000ULL * ms; }
void sleep_us(uint32_t us) { sim_us += us; }
#define EXPECT(c) do { if (!(c)) { printf("line %d: %s does not hold\\n", __LINE__, #c); return 1; } } while (0)
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)


def build():
    return sh('make -C %s/extras/unit_tests -f /opt/vp/c3p.mk --no-print-directory -j8 B=%s/_build CXX=/usr/bin/g++ everything' % (W, W))


def tests():
    os.makedirs('/tmp/wt-tools', exist_ok=True)
    with open('/opt/vp/run_tests.py') as f:
        s = f.read().replace('/repo/', W + '/')
    with open('/tmp/wt-tools/run_tests.py', 'w') as f:
        f.write(s)
    sh('rm -f %s/_build/results.txt' % W)
    sh('python3 /tmp/wt-tools/run_tests.py %s/_build/results.txt' % W)
    sh('python3 /opt/vp/results.py /tmp/wt-tools/r.json lines:%s/_build/results.txt' % W)
    r = json.load(open('/tmp/wt-tools/r.json'))
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in st if t not in r['passed']]


def demo(d):
    p = sh('bash %s/demo.sh' % d, cwd=W, timeout=300)
    return p.returncode, p.stdout[-600:]


def main():
    sp = importlib.util.spec_from_file_location('batch', sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    want = sys.argv[2:]
    head = sh('git -C %s rev-parse HEAD' % SRC + '').stdout
    if not os.path.isdir(W):
        sh('cp -a /repo ' + W)
    if sh('git -C %s rev-parse HEAD' % W).stdout != head:
        sh('git -C %s fetch -q %s HEAD && git -C %s checkout -q -f FETCH_HEAD' % (W, SRC, W))
    for b in m.BUGS:
        if want and b['id'] not in want:
            continue
        sh('git -C %s checkout -q -- .' % W)
        d = os.path.join(ROOT, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        put = lambda n, s: open(os.path.join(d, n), 'w').write(s)
        put('demo.sh', DEMO)
        put('plat.h', PLAT)
        put('demo.cpp', b['demo'].lstrip('\n'))
        put('meta.json', json.dumps(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), indent=1) + '\n')
        r = build()
        if r.returncode:
            print(b['id'], 'unchanged tree does not build', r.stdout[-500:]); continue
        rc, o = demo(d)
        if rc:
            print(b['id'], 'DEMO FAILS ON THE UNCHANGED TREE', rc, o); continue
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(W, f)
            s = open(p, newline='').read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches %d times in %s: %r' % (s.count(old), f, old[:60])); ok = False; break
            open(p, 'w', newline='').write(s.replace(old, new))
        if not ok:
            shutil.rmtree(d); continue
        put('patch.diff', subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
        r = build()
        if r.returncode:
            print(b['id'], 'does not compile', r.stdout[-800:]); shutil.rmtree(d); continue
        bad = tests()
        rc, o = demo(d)
        if bad or rc == 0:
            print(b['id'], 'NOT KEPT: failing tests %s; demo rc %s' % (bad[:4], rc)); shutil.rmtree(d); continue
        print(b['id'], 'confirmed; demo:', rc, o.strip()[-120:])
        for pid in [b['prop']] + list(b.get('also', [])):
            p = sh('VERIF_REPO=%s python3 check.py %s' % (W, pid), cwd=ROOT, timeout=1200)
            v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            print('   ', pid, 'rc', p.returncode, 'CAUGHT' if p.returncode == 1 and v else '**** MISSED', v[:1] or p.stdout[-300:])
        sys.stdout.flush()
    sh('git -C %s checkout -q -- .' % W)


main()
