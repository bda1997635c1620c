"""Writes MANIFEST.json from the check modules (run by hand when a check is added)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, 'mc'), '/repo']
PY = '/opt/venv/bin/python mc/run.py '
TECH = {
    'model_checking': 'explicit-state model checking of a reference model, every trace replayed on the implementation',
    'exploration': 'bounded exhaustive exploration of the implementation',
}
OWN = json.load(open(os.path.join(HERE, 'techniques.json')))
checks = []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    pid = json.loads(line)['id']
    mod = importlib.import_module('checks.' + pid.lower())
    t, note = OWN.get(pid, (None, None))
    checks.append({
        'property': pid, 'quick_cmd': PY + pid, 'thorough_cmd': 'VERIF_TIER=thorough ' + PY + pid,
        'technique': t or TECH[mod.LEVEL], 'level': mod.LEVEL,
        'level_note': (note + ' ' if note else '') + mod.RULE[0].upper() + mod.RULE[1:] + '. Assumes: ' + '; '.join(mod.ASSUMPTIONS) + '.'})
json.dump({
    'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
    'notes': 'No hooks: the checks use the public interface of the code in /repo, imported directly (pure Python, nothing to build). '
             'Findings and repairs: KNOWN_FINDINGS.txt. Design: DESIGN.md.'},
    open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
