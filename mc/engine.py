"""Exhaustive enumeration of bounded spaces, in parallel, on the code in /repo.

A *space* is a finite indexed set (`size`, `item(i)`), ordered so that simpler cases come
first.  A *judge* maps an item to (message or None, outcome): the message says how the
property fails, the outcome (hashable, or None if the case is trivial for the property)
is counted so that a run shows how many different behaviours it has seen.

Nothing here samples: every index of every space is judged, unless the wall-clock cap of
the tier is reached, and then the evidence says so.
"""
import concurrent.futures as cf
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MC_REPO', '/repo')
CPU_LIMIT = 10.0            # CPU seconds for one case
MEM_LIMIT = 6 << 30


class Hang(BaseException):
    pass


class Bad(Exception):
    """raised by judges: the property fails"""


# ------------------------------------------------------------------------- spaces

class Space(object):
    size = 0
    about = ''

    def item(self, i):
        raise NotImplementedError


class Product(Space):
    """all sequences of lo..hi tokens, joined by sep, inside every (before, after) wrap"""

    def __init__(self, tokens, hi, lo=1, sep='', wraps=(('', ''),), about=''):
        self.tokens = list(tokens)
        assert len(set(self.tokens)) == len(self.tokens), 'duplicate tokens'
        self.lo, self.hi, self.sep = lo, hi, sep
        self.wraps = list(wraps)
        k, w = len(self.tokens), len(self.wraps)
        self.levels = []
        at = 0
        for n in range(lo, hi + 1):
            self.levels.append((at, n))
            at += k ** n * w
        self.size = at
        self.about = about or '%d tokens, %d to %d long%s' % (
            k, lo, hi, ', %d contexts' % w if w > 1 else '')

    def item(self, i):
        for at, n in reversed(self.levels):
            if i >= at:
                i -= at
                break
        i, w = divmod(i, len(self.wraps))
        k = len(self.tokens)
        out = []
        for _ in range(n):
            i, r = divmod(i, k)
            out.append(self.tokens[r])
        out.reverse()
        a, b = self.wraps[w]
        return a + self.sep.join(out) + b


class Listed(Space):
    def __init__(self, items, about=''):
        self.items = list(items)
        self.size = len(self.items)
        self.about = about or '%d listed cases' % self.size

    def item(self, i):
        return self.items[i]


class Slots(Space):
    """all ways to fill the slots of a template, one choice list per slot"""

    def __init__(self, *choices, **kw):
        self.choices = [c if isinstance(c, range) else list(c) for c in choices]
        self.join = kw.get('join', ''.join)
        self.size = 1
        for c in self.choices:
            self.size *= len(c)
        self.about = kw.get('about') or 'slots ' + ' x '.join(
            str(len(c)) for c in self.choices)

    def item(self, i):
        out = []
        for c in reversed(self.choices):
            i, r = divmod(i, len(c))
            out.append(c[r])
        out.reverse()
        return self.join(out)


class Mapped(Space):
    def __init__(self, space, f, about=''):
        self.space, self.f = space, f
        self.size = space.size
        self.about = about or space.about

    def item(self, i):
        return self.f(self.space.item(i))


class Union(Space):
    def __init__(self, *spaces, **kw):
        self.spaces = spaces
        self.size = sum(s.size for s in spaces)
        self.about = kw.get('about') or ' + '.join(s.about for s in spaces)

    def item(self, i):
        for s in self.spaces:
            if i < s.size:
                return s.item(i)
            i -= s.size
        raise IndexError(i)


class Exploration(object):
    def __init__(self, name, space, judge, chunk=None, limit=CPU_LIMIT):
        self.name, self.space, self.judge = name, space, judge
        self.chunk, self.limit = chunk, limit


# ------------------------------------------------------------------------- workers

def _alarm(sig, frame):
    raise Hang()


_plan = None


def _init():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # die with the parent
    except Exception:
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGVTALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass


def judge_one(judge, item, limit=CPU_LIMIT):
    """-> (message or None, outcome)"""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        return judge(item)
    except Bad as e:
        return str(e), None
    except Hang:
        return 'no result after %g s of CPU time' % limit, None
    except RecursionError as e:
        return 'raised RecursionError: %s' % e, None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                            for f in reversed(tb[-3:]))
        return 'raised %s: %s (%s)' % (type(e).__name__, e, where), None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _chunk(args):
    k, lo, hi = args
    ex = _plan[k]
    outs = set()
    n = bad = trivial = 0
    first = None
    for i in range(lo, hi):
        item = ex.space.item(i)
        msg, out = judge_one(ex.judge, item, ex.limit)
        n += 1
        if msg is not None:
            bad += 1
            if first is None:
                first = (i, item, msg)
            if bad >= 5 or 'no result' in msg:
                break
        elif out is None:
            trivial += 1
        else:
            outs.add(hash(out))
    return k, n, trivial, outs, first


# ------------------------------------------------------------------------- runs

class Result(object):
    def __init__(self):
        self.spaces = []
        self.evaluations = 0
        self.outcomes = set()
        self.violations = []        # (exploration name, index, item, message)
        self.samples = []
        self.capped = False
        self.extra = {}
        self.trivial = 0


def explore(explorations, result, deadline, jobs=None, label=''):
    """judge every case of every exploration; stop at the first violating one"""
    global _plan
    _plan = explorations
    jobs = jobs or os.cpu_count() or 1
    ctx = multiprocessing.get_context('fork')
    tasks = []
    per = [[0, 0, set(), time.time()] for _ in explorations]
    for k, ex in enumerate(explorations):
        size = ex.space.size
        step = ex.chunk or max(1, min(2000, size // (jobs * 6) + 1))
        for lo in range(0, size, step):
            tasks.append((k, lo, min(lo + step, size)))
    found = None
    done = 0
    pool = cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init)
    try:
        pending = []
        it = iter(tasks)
        exhausted = False
        while True:
            while not exhausted and len(pending) < jobs * 4:
                if time.time() > deadline:
                    result.capped = True
                    exhausted = True
                    break
                t = next(it, None)
                if t is None:
                    exhausted = True
                    break
                pending.append((t, pool.submit(_chunk, t)))
            if not pending:
                break
            t, fut = pending.pop(0)
            try:
                k, n, trivial, outs, first = fut.result()
            except cf.process.BrokenProcessPool:
                found = (explorations[t[0]].name, t[1], None,
                         'the process running the code died (cases %d to %d of "%s" or '
                         'later)' % (t[1], t[2], explorations[t[0]].name))
                break
            per[k][0] += n
            per[k][1] += trivial
            per[k][2] |= outs
            done += n
            if first is not None:
                found = (explorations[k].name,) + first
                break
    finally:
        procs = list((pool._processes or {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.kill()
        for p in procs:
            p.join(5)
    for k, ex in enumerate(explorations):
        n, trivial, outs, _ = per[k]
        result.spaces.append(dict(
            name=label + ex.name, space=ex.space.about, size=ex.space.size, evaluated=n,
            nontrivial=n - trivial, distinct_outcomes=len(outs)))
        result.evaluations += n
        result.trivial += trivial
        result.outcomes |= outs
        if n:
            for i in sorted({0, ex.space.size // 2, ex.space.size - 1}):
                if len(result.samples) < 24:
                    result.samples.append({'exploration': ex.name, 'case': ex.space.item(i)})
    if found:
        result.violations.append(found)
    return found is None


# ------------------------------------------------------------------------- known findings

def known_findings(pid):
    """entries of the committed file that concern this property and are not repaired"""
    out = []
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt'), encoding='utf-8') as f:
        for line in f:
            if line.startswith('known: property=%s ' % pid):
                out.append(line.split(' ', 2)[2].strip())
    return out


# ------------------------------------------------------------------------- reports

def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return repr(x)


def write_replay(pid, tier, seed, found):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name, i, item, msg = found
    path = os.path.join(d, '%s.json' % pid)
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({'property': pid, 'exploration': name, 'index': i, 'tier': tier,
                   'case': jsonable(item), 'message': msg,
                   'replay': 'python mc/run.py %s --replay %s' % (pid, path)},
                  f, indent=1)
    return path


def write_evidence(pid, tier, seed, level, result, wall, assumptions):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    cov = {'evaluations': result.evaluations}
    if level == 'model_checking':
        cov = {'states': result.extra.pop('states', None),
               'transitions': result.extra.pop('transitions', None),
               'traces_validated_against_impl': result.extra.pop('traces', None)}
        if cov['states'] is None:
            cov['states'] = len(result.outcomes)
        if cov['transitions'] is None:
            cov['transitions'] = result.evaluations
        if cov['traces_validated_against_impl'] is None:
            cov['traces_validated_against_impl'] = result.evaluations - result.trivial
    else:
        cov['distinct_nontrivial'] = len(result.outcomes)
    cov['rule'] = result.extra.pop('rule', '')
    cov['samples'] = jsonable(result.samples)
    cov['exhaustive'] = not result.capped and not result.violations
    cov['explorations'] = result.spaces
    cov.update(jsonable(result.extra))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(wall, 2),
          'violations': len(result.violations)}
    path = os.path.join(d, '%s.json' % pid)
    tmp = path + '.tmp'
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)
