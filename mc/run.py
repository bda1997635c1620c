"""python mc/run.py C05 [--replay FILE]      (tier from VERIF_TIER, default quick)"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
# never read a stale .pyc of the code under test
sys.pycache_prefix = os.path.join(os.path.dirname(HERE), '.no-pycache')

import importlib    # noqa: E402
import json         # noqa: E402
import time         # noqa: E402


def main():
    sys.stdout.reconfigure(errors='backslashreplace')
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    import engine
    import commonmark
    where = os.path.dirname(os.path.abspath(commonmark.__file__))
    assert where == os.path.join(os.path.abspath(REPO), 'commonmark'), where
    mod = importlib.import_module('checks.' + pid.lower())
    if '--replay' in sys.argv:
        return replay(engine, mod, sys.argv[sys.argv.index('--replay') + 1])
    t0 = time.time()
    cap = float(os.environ.get('MC_CAP', 0)) or (600 if tier == 'quick' else 4 * 3600)
    deadline = t0 + cap
    result = engine.Result()
    result.extra['rule'] = mod.RULE
    print('%s %s: %s' % (pid, tier, mod.__doc__.strip().split('\n')[0]))
    mod.run(tier, result, deadline)
    for d in engine.known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    wall = time.time() - t0
    for s in result.spaces:
        print('  %-34s %9d of %9d cases, %8d distinct outcomes  (%s)' % (
            s['name'][:34], s['evaluated'], s['size'], s['distinct_outcomes'], s['space'][:70]))
    if result.capped:
        print('  wall-clock cap of %d s reached; the rest was not explored' % cap)
    for k, v in result.extra.items():
        if k != 'rule':
            print('  %s: %s' % (k, str(v)[:200]))
    bad = result.violations[:1]
    engine.write_evidence(pid, tier, seed, mod.LEVEL, result, wall, mod.ASSUMPTIONS)
    if bad:
        path = engine.write_replay(pid, tier, seed, bad[0])
        print(('counterexample (%s): %r' % (bad[0][0], bad[0][2]))[:4000])
        print(bad[0][3][:4000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s held on everything explored, %.1f s' % (pid, wall))
    return 0


def replay(engine, mod, path):
    d = json.load(open(path, encoding='utf-8'))
    result = engine.Result()
    plan = mod.plan(d.get('tier', 'quick'))
    for ex in plan:
        if ex.name == d['exploration']:
            msg, _ = engine.judge_one(ex.judge, ex.space.item(d['index']))
            print(repr(ex.space.item(d['index'])))
            print(msg or 'holds')
            return 1 if msg else 0
    print('no such exploration')
    return 2


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
