#!/usr/bin/env python3
"""check.py PROP            run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
   check.py --replay FILE   rebuild and re-execute a recorded violation"""
import os, sys, json, time, shutil, subprocess, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, REPO, Builder, BuildError
from config import CONFIG

def log(*a):
    print(*a, flush=True)

def prepare(prop, out):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    b = Builder(out)
    link = b.simulator()
    c = CONFIG[prop]
    c['build'](b)
    exe = link()
    return b, exe

def sim(exe, args, timeout):
    p = subprocess.run([exe] + args, env={'LD_BIND_NOW': '1'}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1')

def replay_tape(exe, prop, out, tape, tier, name):
    f = out + '/' + name
    with open(f, 'w') as h:
        h.write('\n'.join(map(str, tape)) + '\n')
    rc, o, e = sim(exe, ['--prop', prop, '--build', out, '--tier', tier, '--replay', f], 300)
    if rc:
        raise RuntimeError('replay failed: rc=%d %s' % (rc, e[-500:]))
    return json.loads(o)

def tree_id():
    h = hashlib.sha256()
    for d in ('ref', 'avx2'):
        for root, dirs, files in sorted(os.walk(REPO + '/' + d)):
            for f in sorted(files):
                if f.endswith(('.c', '.h', '.S', '.inc', '.macros')) or f == 'Makefile':
                    h.update(open(os.path.join(root, f), 'rb').read())
    return h.hexdigest()[:16]

def known(prop):
    ks = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                ks.append(line)
    return ks

def main():
    t0 = time.time()
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        prop = r['property']
        out = '%s/.build/replay-%s-%d' % (VERIF, prop, os.getpid())
        b, exe = prepare(prop, out)
        try:
            o = replay_tape(exe, prop, out, r['tape'], r['tier'], 'tape')
            log(o['log'])
            log('kind=%s hash=%s (recorded %s %s)' % (o['kind'], o['hash'], r['kind'], r['hash']))
            if o['state'] == 2:
                log('VIOLATION property=%s replay=%s' % (prop, sys.argv[2]))
                return 1
            return 0 if o['state'] == 1 else 3
        finally:
            shutil.rmtree(out, ignore_errors=True)
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    c = CONFIG[prop]
    log('check %s: seed %d, tier %s, tree %s' % (prop, seed, tier, tree_id()))
    out = '%s/.build/%s-%d' % (VERIF, prop, os.getpid())
    try:
        try:
            b, exe = prepare(prop, out)
        except BuildError as e:
            log('ERROR: build failed\n' + str(e))
            return 2
        tb = time.time() - t0
        count, wall = c[tier]
        if 'SIM_COUNT' in os.environ: count = int(os.environ['SIM_COUNT'])
        if 'SIM_WALL' in os.environ: wall = float(os.environ['SIM_WALL'])
        rc, o, e = sim(exe, ['--prop', prop, '--build', out, '--tier', tier, '--seed', str(seed), '--count', str(count), '--wall', str(wall), '--workers', str(c.get('workers', 8)), '--min', str(c.get('min', 20 if tier == 'quick' else 120)), '--out', out], wall + 600)
        if rc:
            log('ERROR: simulator exit %d\n%s' % (rc, e[-3000:]))
            return 2
        try:
            r = json.loads(o)
        except ValueError:
            log('ERROR: simulator output not understood\n%s\n%s' % (o[-500:], e[-3000:]))
            return 2
        violations = 0
        status = 0
        if r['violation_run'] >= 0:
            status, violations = report(exe, prop, out, seed, tier, r)
        elif r['errors']:
            log('ERROR: ' + '\n'.join(r['errors'][:5]))
            log(e[-2000:])
            return 2
        for k in known(prop):
            log('KNOWN-FINDING: property=%s %s' % (prop, k.split(' ', 2)[2]))
        evidence(prop, tier, seed, c, r, b, tb, time.time() - t0, violations, exe, out)
        w = max(r['wall'], 0.01)
        log('%s: %d simulated runs (%d distinct) in %.1f s + %.1f s build, %d events, %.1f simulated s; %s' % (prop, r['runs'], r['distinct_hash'], r['wall'], tb, r['events'], r['simtime_ns'] / 1e9, 'VIOLATED' if status == 1 else 'held' if status == 0 else 'ERROR'))
        return status
    finally:
        if not os.environ.get('SIM_KEEP'):
            shutil.rmtree(out, ignore_errors=True)

def report(exe, prop, out, seed, tier, r):
    kind = r['kind']
    for name in ('min', 'orig'):
        tape = [int(x) for x in open(out + '/' + name).read().split()]
        a = replay_tape(exe, prop, out, tape, tier, 'gate1')
        b = replay_tape(exe, prop, out, tape, tier, 'gate2')
        if a['state'] == 2 and a['kind'] == kind and b['state'] == 2 and b['kind'] == kind and a['hash'] == b['hash']:
            os.makedirs(VERIF + '/replays', exist_ok=True)
            path = 'replays/%s-seed%d-run%d.json' % (prop, seed, r['violation_run'])
            json.dump(dict(property=prop, seed=seed, tier=tier, run=r['violation_run'], kind=kind, message=a['msg'], hash=a['hash'], minimised=name == 'min', tape=tape, tape_original_length=r['tape_orig'], trace=a['log'].split('\n')), open(VERIF + '/' + path, 'w'), indent=1)
            log('violation of %s in run %d (%s): %s' % (prop, r['violation_run'], kind, a['msg']))
            log('minimised from %d to %d choices; replays identically in fresh processes (event hash %s); tail of the trace:' % (r['tape_orig'], len(tape), a['hash']))
            for l in a['log'].split('\n')[-12:]:
                if l: log('   ' + l[:300])
            log('VIOLATION property=%s replay=%s' % (prop, path))
            return 1, 1
    log('ERROR: a violation (%s) did not reproduce: %s / %s' % (kind, a['msg'], b['msg']))
    return 2, 0

def evidence(prop, tier, seed, c, r, b, tb, wall, violations, exe, out):
    st = r['stats']
    faults = {k[6:]: v for k, v in st.items() if k.startswith('fault.')}
    w = max(r['wall'], 0.01)
    cov = dict(evaluations=r['runs'], distinct_nontrivial=r['distinct_sig'], rule=c['rule'], samples=r['samples'] or ['(none)'],
               simulated_runs=r['runs'], runs_and_seeds_per_hour=int(r['runs'] / w * 3600), simulated_time_s=round(r['simtime_ns'] / 1e9, 3), events=r['events'], scheduling_steps=r['steps'],
               distinct_event_logs=r['distinct_hash'], distinct_schedule_signatures=r['distinct_sig'], faults_injected=faults, counters={k: v for k, v in st.items() if not k.startswith('fault.')},
               real_components=c['real'], stubbed_components=c['stub'], stopped_by_wall_limit=r['stopped_early'] and violations == 0, notes=b.notes, probes_at_zero=[p for p in c.get('probes', []) if not st.get(p)])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=c['assume'], wall_s=round(wall, 2), violations=violations)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)

if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('ERROR: %s' % e)
        sys.exit(2)
