#!/usr/bin/env python3
"""check.py ID [ID...]: decide the property; exit 0 / 1 (VIOLATION line) / 2 (error of the check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
from vf.registry import CHECKS


def known(pid):
    p = os.path.join(core.ROOT, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                k = json.loads(l)
                if k.get('property') == pid and k.get('ops'):
                    out.append(k)
    return out


rc = 0
for pid in sys.argv[1:]:
    r = core.Runner(CHECKS[pid], known(pid)).main()
    rc = max(rc, r)
sys.exit(rc)
