"""What the code under test mentions: its numbers, words and strings, and texts its regular expressions match, as material for inputs.

Only inputs are made from them; what is right for these inputs is judged as for all others.
"""
import ast
import os
import re
import sys
import warnings

import engine

try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre

LEAVE_OUT = ('entitytrans.py',)
LIMIT = 600


def trees():
    top = os.path.join(engine.REPO, 'commonmark')
    for at, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py') and f not in LEAVE_OUT:
                with open(os.path.join(at, f), encoding='utf-8') as h:
                    try:
                        yield ast.parse(h.read())
                    except SyntaxError:
                        pass


def constants():
    """-> (set of ints, set of strs) in the code, docstrings left out"""
    ints, strs = set(), set()
    for tree in trees():
        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                skip.add(n.value)
        for n in ast.walk(tree):
            if n in skip:
                continue
            if isinstance(n, ast.Constant):
                if type(n.value) is int:
                    ints.add(n.value)
                elif type(n.value) is str:
                    strs.add(n.value)
            elif isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                a, b = n.left.value, n.right.value
                if type(a) is type(b) is int:
                    if isinstance(n.op, ast.Mult):
                        ints.add(a * b)
                    elif isinstance(n.op, ast.Pow) and a ** min(abs(b), 40) < 10 ** 6:
                        ints.add(a ** abs(b))
                    elif isinstance(n.op, ast.LShift) and 0 <= b < 20:
                        ints.add(a << b)
    return ints, strs


def numbers(top=20000):
    """the numbers in the code and those next to them"""
    ints, strs = constants()
    for s in strs:
        ints.update(int(x) for x in re.findall(r'(?<!\d)\d{1,5}(?!\d)', s))
    return sorted(set(n + k for n in ints if 0 < n <= top for k in (-1, 0, 1)) - {0})[-LIMIT:]


def words():
    ints, strs = constants()
    out = set(str(n) for n in ints if n >= 0)
    for s in strs | set(strings()):
        out.update(re.findall(r'(?<![A-Za-z0-9\\])[A-Za-z0-9]+', s))
        out.update(re.findall(r'[A-Za-z]{2,}', s))
    return sorted(w for w in out if len(w) < 40)[:LIMIT]


def some(items, at):
    """texts for parsed regular expression items: the first of each choice, then every other choice once"""
    first, others = '', []
    parts = []
    for op, av in items:
        parts.append(options(str(op), av, at))
    base = [p[0] for p in parts]
    yield ''.join(base)
    for i, p in enumerate(parts):
        for x in p[1:]:
            yield ''.join(base[:i] + [x] + base[i + 1:])


def options(op, av, at):
    if at > 6:
        return ['']
    if op == 'LITERAL':
        return [chr(av)]
    if op == 'NOT_LITERAL':
        return ['k' if av != ord('k') else 'l']
    if op == 'ANY':
        return ['k']
    if op == 'IN':
        neg = str(av[0][0]) == 'NEGATE'
        if neg:
            return ['k', ' ', '1']
        out = []
        for o, v in av:
            o = str(o)
            if o == 'LITERAL':
                out.append(chr(v))
            elif o == 'RANGE':
                out += [chr(c) for c in (v[0], v[1], v[0] - 1, v[1] + 1) if c > 0]
            elif o == 'CATEGORY':
                out.append({'CATEGORY_DIGIT': '7', 'CATEGORY_SPACE': ' ', 'CATEGORY_WORD': 'w', 'CATEGORY_NOT_SPACE': 'k', 'CATEGORY_NOT_DIGIT': 'k', 'CATEGORY_NOT_WORD': '.'}.get(str(v), ''))
        return out[:40] or ['']
    if op == 'BRANCH':
        out = []
        for alt in av[1]:
            out += list(some(alt, at + 1))[:8]
        return out[:200]
    if op == 'SUBPATTERN':
        return list(some(av[-1], at + 1))[:200]
    if op in ('ATOMIC_GROUP',):
        return list(some(av, at + 1))[:60]
    if op in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, what = av
        hi = int(hi)
        one = list(some(what, at + 1))[:60] or ['']
        out = [one[0] * max(lo, 1)]
        if hi < 200:
            out += [one[0] * lo, one[0] * hi, one[0] * (hi + 1)]
        elif lo == 0:
            out.append('')
        out += [x * max(lo, 1) for x in one[1:]]
        return out
    return ['']


def matched(s):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return list(some(sre.parse(s), 0))
        except (re.error, OverflowError, RecursionError):
            return []


def patterns():
    """the strings and regular expressions that the modules keep"""
    import commonmark.cmark     # noqa
    for name, m in sorted(sys.modules.items()):
        if name.split('.')[0] == 'commonmark' and name.split('.')[-1] not in ('entitytrans', 'tests'):
            for k, v in sorted(vars(m).items()):
                for x in v if isinstance(v, (list, tuple)) else [v]:
                    if isinstance(x, re.Pattern):
                        x = x.pattern
                    if type(x) is str and not k.startswith('__'):
                        yield x


def strings():
    """the short strings of the code, and texts that its regular expressions match"""
    out = set()
    for s in constants()[1] | set(patterns()):
        out.add(s)
        if re.search(r'[\\\[(|^$*+?{]', s):
            out.update(matched(s))
    return sorted(s for s in out if 0 < len(s) <= 40 and all(c == '\n' or ' ' <= c <= '~' for c in s))[:1500]
