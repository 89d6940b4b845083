#!/usr/bin/env python3
"""determinism.py [-n RUNS] PROP...   executes the same seeds several times, in different numbers of processes, and compares
every run's event-log hash and outcome."""
import os, sys, glob, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import VERIF
import check
args = sys.argv[1:]
n = 2000
if args[:1] == ['-n']:
    n = int(args[1]); args = args[2:]
bad = 0
for prop in args:
    out = '%s/.build/det-%s-%d' % (VERIF, prop, os.getpid())
    try:
        b, exe = check.prepare(prop, out)
        ref = None
        for rep, (workers, seed) in enumerate([(8, 7), (3, 7), (8, 7), (5, 7)]):
            d = '%s/r%d' % (out, rep); os.makedirs(d)
            rc, o, e = check.sim(exe, ['--prop', prop, '--build', out, '--tier', 'quick', '--seed', str(seed), '--count', str(n), '--wall', '900', '--workers', str(workers), '--out', d, '--hashes', '1'], 2000)
            h = {}
            for f in glob.glob(d + '/h*'):
                for line in open(f):
                    k, v = line.split(' ', 1); h[int(k)] = v
            if ref is None: ref = h
            diff = [k for k in ref if ref[k] != h.get(k)] + [k for k in h if k not in ref]
            if diff: bad += 1
            print('%s: %d runs, %d workers: %s' % (prop, len(h), workers, 'identical' if not diff else 'DIFFER at runs %s' % diff[:10]), flush=True)
    finally:
        shutil.rmtree(out, ignore_errors=True)
sys.exit(1 if bad else 0)
