#!/usr/bin/env python3
"""Run the check of its property (or all, with --all) on each planted change and write SEEDS.md.

A development tool: no check reads seeded/ or SEEDS.md.
usage: tools/seeds.py [--all] [ID ...]     results are kept in SEEDS.json between runs
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STORE = os.path.join(HERE, 'SEEDS.json')


def load():
    return json.load(open(STORE)) if os.path.exists(STORE) else {}


def run(seed, check):
    with tempfile.TemporaryDirectory() as tmp:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(HERE, 'seeded', seed, 'patch.diff')])
        t = time.time()
        p = subprocess.run([PY, os.path.join(HERE, 'mc', 'run.py'), check], env=dict(os.environ, MC_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=HERE)
        out = p.stdout.decode('utf-8', 'replace')
        case = [l for l in out.split('\n') if l.startswith('counterexample')]
        where = case[0].split('(', 1)[1].split(')')[0] if case else ''
        what = case[0].split('): ', 1)[-1] if case else ''
        return {'rc': p.returncode, 'seconds': round(time.time() - t), 'where': where, 'case': what if len(what) < 90 else what[:87] + '...'}


def main():
    args = sys.argv[1:]
    everything = '--all' in args
    ids = [a for a in args if a != '--all'] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    checks = ['C%02d' % i for i in range(1, 100) if os.path.exists(os.path.join(HERE, 'mc', 'checks', 'c%02d.py' % i))]
    for seed in ids:
        own = json.load(open(os.path.join(HERE, 'seeded', seed, 'meta.json')))['property']
        for c in checks if everything else [own]:
            r = run(seed, c)
            print(seed, c, r, flush=True)
            store = load()
            store.setdefault(seed, {})[c] = r
            with open(STORE, 'w') as f:
                json.dump(store, f, indent=1, sort_keys=True)
    write()


def write():
    store = load()
    rows = ['# Planted changes and the checks that catch them', '', 'Generated by `tools/seeds.py`: each patch of `seeded/` applied in a scratch copy, and the quick check of its property run on that copy',
            '(`caught by` names the exploration and the first case in its order that shows it; other checks only where they were run).', '',
            '| change | what it breaks | property | caught by | counterexample | other checks that catch it |', '|---|---|---|---|---|---|']
    n = k = 0
    for seed in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        meta = json.load(open(os.path.join(HERE, 'seeded', seed, 'meta.json')))
        own = meta['property']
        runs = store.get(seed, {})
        r = runs.get(own)
        n += 1
        k += bool(r and r['rc'] == 1)
        esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
        rows.append('| %s | %s | %s | %s | %s | %s |' % (
            seed, esc(meta['what_it_breaks']), own, 'not run' if r is None else ('**missed**' if r['rc'] == 0 else '%s, %d s' % (r['where'] or 'exit %d' % r['rc'], r['seconds'])),
            '`` %s ``' % esc(r['case']) if r and r['case'] else '', ', '.join(c for c in sorted(runs) if c != own and runs[c]['rc'] == 1)))
    rows += ['', '%d of %d caught by the check of their property.' % (k, n), '']
    with open(os.path.join(HERE, 'SEEDS.md'), 'w') as f:
        f.write('\n'.join(rows))


if __name__ == '__main__':
    main()
