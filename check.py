#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py C01              seeded search (VERIF_SEED, VERIF_TIER=quick|thorough), evidence/C01.json
  check.py C01 --replay F   replays a violation file, exit 1 if it still fails the same way
Exit 0: held on everything explored; 1 with a VIOLATION line: broken; anything else: the check itself failed."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.dont_write_bytecode = True
from build import build, BuildError, BUILD            # noqa: E402
from programs import PROGRAMS                         # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--replay')
ap.add_argument('--time', type=float)
ap.add_argument('--build-only', action='store_true')
args = ap.parse_args()
PID = args.property
prog = PROGRAMS[PID]
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
tier = os.environ.get('VERIF_TIER', 'quick')
if tier not in ('quick', 'thorough'):
    tier = 'quick'
jobs = min(8, os.cpu_count() or 8)
t0 = time.time()


def fail(msg):
    print('CHECK-ERROR property=%s %s' % (PID, msg))
    sys.exit(2)


try:
    exe, left_out = build(PID, prog['units'](), jobs)
except BuildError as e:
    fail('the simulation program does not build: %s' % e)
t_build = time.time() - t0
print('%s: program built in %.1f s' % (PID, t_build))
if args.build_only:
    sys.exit(0)


def run(cmd, timeout=400):
    try:
        r = subprocess.run([exe] + cmd, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(kind=2, cls='timeout', hash='', detail='no answer', rc=-1)
    o = r.stdout.decode(errors='replace')
    m = re.search(r'result kind=(\d) class=(\S+) hash=(\S+) steps=(\d+)', o)
    d = re.search(r'^detail (.*)$', o, re.M)
    if not m:
        return dict(kind=2, cls='no-result', hash='', detail=(o + r.stderr.decode(errors='replace'))[-500:], rc=r.returncode)
    return dict(kind=int(m[1]), cls=m[2], hash=m[3], steps=int(m[4]), detail=d[1] if d else '', rc=r.returncode)


def symbolise(text):
    pcs = sorted(set(re.findall(r'pc (0x[0-9a-f]+)', text)))
    for pc in pcs:
        r = subprocess.run(['addr2line', '-f', '-C', '-e', exe, pc], capture_output=True)
        n = r.stdout.decode(errors='replace').split('\n')[0][:160]
        text = text.replace('pc ' + pc, 'in ' + (n or pc))
    return text


def confirmed(path):
    """The same violation, twice, in fresh processes."""
    a, b = run(['plan', '--file', path]), run(['plan', '--file', path])
    return a if a['kind'] == 1 and b['kind'] == 1 and a['cls'] == b['cls'] and a['hash'] == b['hash'] else None


if args.replay:
    want = re.search(r'^expect (\S+)', open(args.replay).read(), re.M)
    r = confirmed(args.replay)
    if r and (not want or want[1] == r['cls']):
        print('%s: %s' % (r['cls'], symbolise(r['detail'])))
        print('VIOLATION property=%s replay=%s' % (PID, args.replay))
        sys.exit(1)
    r = run(['plan', '--file', args.replay])
    print('replay: kind=%d class=%s %s' % (r['kind'], r['cls'], r['detail']))
    sys.exit(0 if r['kind'] == 0 else 2)

# Findings recorded instead of repaired: "known: property=<id> class=<class> match=<regular expression of the report> -- <what fails>".
known = []
kf = os.path.join(VERIF, 'known_findings.txt')
if os.path.exists(kf):
    for l in open(kf):
        m = re.match(r'known: property=(\S+) class=(\S+) match=(.*?) -- (.*)', l)
        if m and m[1] == PID:
            known.append((m[2], re.compile(m[3]), m[4]))
for _, _, what in known:
    print('KNOWN-FINDING: property=%s %s' % (PID, what))

secs = args.time or (prog.get('quick_s', 40) if tier == 'quick' else prog.get('thorough_s', 900))
work = os.path.join(BUILD, 'batch_%s_%d' % (PID, os.getpid()))
os.makedirs(work)
violations, unconfirmed = [], []
try:
    try:
        r = subprocess.run([exe, 'batch', '--seed', str(seed), '--time', str(secs), '--jobs', str(jobs), '--thorough', '1' if tier == 'thorough' else '0', '--dir', work],
                           capture_output=True, timeout=secs + 300)
    except subprocess.TimeoutExpired:
        fail('the batch did not end')
    if not os.path.exists(work + '/batch.json'):
        fail('the batch gave no result: rc=%s %s' % (r.returncode, r.stderr.decode(errors='replace')[-800:]))
    b = json.load(open(work + '/batch.json'))
    files = sorted(os.listdir(work))
    done = set()
    for f in [x for x in files if x.startswith('viol.')]:
        path = os.path.join(work, f)
        c = confirmed(path)
        if not c:
            unconfirmed.append(path)
            continue
        if any(k == c['cls'] and rx.search(c['detail']) for k, rx, _ in known):
            continue
        if c['cls'] in done or len(done) >= 3:
            continue
        done.add(c['cls'])
        out = os.path.join(work, 'min.plan')
        run(['min', '--file', path, '--out', out, '--time', '45' if tier == 'quick' else '180'])
        final, m = path, c
        if os.path.exists(out):
            m2 = confirmed(out)
            if m2 and m2['cls'] == c['cls']:
                final, m = out, m2
        text = open(final).read()
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        dest = os.path.join(VERIF, 'replays', '%s-%s.plan' % (PID, hashlib.sha256(text.encode()).hexdigest()[:12]))
        open(dest, 'w').write(text)
        violations.append((dest, m['cls'], symbolise(m['detail'])))
    samples = []
    for f in [x for x in files if x.startswith('samples.')]:
        samples += [s for s in open(os.path.join(work, f)).read().split('\n\n') if s.strip()]
    notes = []
    for f in files:
        if (f.startswith('error.') or f.startswith('nondet.')) and len(notes) < 3:
            notes.append(open(os.path.join(work, f)).read()[:600])
finally:
    shutil.rmtree(work, ignore_errors=True)

wall = time.time() - t0
hours = max(b['wall'], 1e-9) / 3600
tags = sorted(b['tags'].items(), key=lambda t: -t[1])
cov = dict(
    evaluations=b['runs'], distinct_nontrivial=b['distinct'],
    rule=prog['rule'] + ' A run counts as non-trivial if a fault or history effect other than memory garbage took effect in it, or a task was preempted inside it; distinct: by the hash of its operations, arguments and faults together with the order in which the tasks ran their steps.',
    samples=samples[:6],
    seeds_per_hour=int(b['runs'] / hours), runs_per_hour=int(b['runs'] / hours), batch_seconds=b['wall'], build_seconds=round(t_build, 1),
    simulated_steps=b['steps'], simulated_time='the library reads no clock; logical time is the count of scheduling points passed (simulated_steps)',
    scheduling_points=b['points'], preemptions=b['switches'], runs_with_several_tasks=b['multi_task_runs'],
    faults_injected=b['faults'], fault_kinds_never_fired=[k for k, v in b['faults'].items() if not v],
    runs_executed_twice=b['executed_twice'], nondeterministic_runs=b['nondeterministic'], reference_runs=b['reference_runs'],
    tables_left_out=left_out, operations_exercised=dict(tags[:400]), operation_kinds=len(tags),
    real_code='everything under /repo/cpp/include/gatl that the workload reaches, compiled from the working tree with memory-access instrumentation; libstdc++ and libc (not instrumented)',
    stubs=prog['stubs'])
ev = dict(property=PID, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=prog['assumptions'], wall_s=round(wall, 1), violations=len(violations))
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
with open(os.path.join(VERIF, 'evidence', PID + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
print('%s: %d runs (%d distinct non-trivial), %d steps, %d preemptions in %.1f s; faults %s' % (PID, b['runs'], b['distinct'], b['steps'], b['switches'], b['wall'], json.dumps(b['faults'])))
for dest, cls, detail in violations:
    print('%s: %s' % (cls, detail))
    print('VIOLATION property=%s replay=%s' % (PID, dest))
if violations:
    sys.exit(1)
for n in notes:
    print(n)
if unconfirmed:
    fail('%d runs failed but did not fail the same way when replayed' % len(unconfirmed))
if b['nondeterministic'] or b['errors']:
    fail('%d runs were not repeatable, %d ended in an error of the harness' % (b['nondeterministic'], b['errors']))
if not b['runs']:
    fail('no run was made')
print('%s: held on everything explored' % PID)
