"""Threads: every schedule of two threads with one preemption at any line, and with two at any call, run on the real code."""
import os
import pickle
import sys
import threading

import commonmark
import engine
from lib import *

LEVEL = 'model_checking'
RULE = ('a schedule runs thread A up to its k-th executed line of the code under test, then thread B (to its end, or up to its '
        'm-th function call, then A to its end, then B); every k and m of every pair of tasks is executed, in a '
        'process of its own in which nothing was parsed before (cold) or everything was (warm); both results must be '
        'those of the tasks alone')
ASSUMPTIONS = ['switches inside one line, and more switches than the bound, behave like those explored',
               'two threads show what more would']

WHERE = os.path.join(os.path.abspath(engine.REPO), 'commonmark') + os.sep

TASKS = {
    'refs': ({}, {}, '[r]: /u "t"\n\n[r] *a*'),
    'smart': ({'smart': True}, {'safe': True}, '"b"--\'c\' <i> [r]'),
    'blocks': ({}, {'sourcepos': True}, '- a\n\n  > b\n1. c'),
    'code': ({}, 'rst', '> ```x\n> <d>\n\n# g'),
    'inline': ({}, {'softbreak': ' '}, '&lt; `e`\n\\*_f_ <gg:h>'),
    'image': ({}, {}, '![a ![b](c)](d "e&quot;")\n==='),
    'json': ({}, 'json', '<div>\n\n    i\n***\n## j'),
    'image rst': ({}, 'rst', '1. ![k](l)\n\n   > m'),
    'other refs': ({}, {}, '[R]: /v\n\n![r] [r][]'),
}

# many different destinations, labels, titles, references and tags, for B: whatever A remembers gets out of the way
MANY = {
    'many': ({}, {}, '\n\n'.join('[a%d](/d%d "t&#%d;") <http://h%d> [r%d] `%s`\n- <i%d> &#%d; %d\n\n[r%d]: /e%d' % ((i,) * 2 + (64 + i,) + (i,) * 2 + ('c' * i,) + (i, 300 + i, i, i, i)) for i in range(1, 141))),
}
TASKS.update(MANY)


def work(task):
    popts, how, doc = TASKS[task]
    ast = commonmark.Parser(dict(popts)).parse(doc)
    if how == 'rst':
        return commonmark.ReStructuredTextRenderer().render(ast)
    if how == 'json':
        return commonmark.dumpJSON(ast)
    return commonmark.HtmlRenderer(dict(how)).render(ast)


def attempt(task):
    try:
        return work(task)
    except BaseException as e:
        return 'raised %s: %s' % (type(e).__name__, e)


def tracer(stop_at, kinds, action):
    """a trace function that calls action at the stop_at-th event of these kinds in the code under test"""
    count = [0]

    def hit():
        count[0] += 1
        if count[0] == stop_at:
            sys.settrace(None)
            action()
            return True

    def local(frame, event, arg):
        if event in kinds and hit():
            return None
        return local

    def start(frame, event, arg):
        if not frame.f_code.co_filename.startswith(WHERE):
            return None
        if 'call' in kinds and hit():
            return None
        return local if 'line' in kinds else None

    return start, count


LINE = ('line',)
CALL = ('call',)


def one_switch(a, b, k, kinds=LINE):
    """A up to its k-th event, B to its end, A to its end"""
    res = {}

    def run_b():
        res['B'] = attempt(b)

    tb = threading.Thread(target=run_b)

    def action():
        tb.start()
        tb.join(2)          # if B waits for something A holds, let A go on

    def run_a():
        f, count = tracer(k, kinds, action)
        sys.settrace(f)
        res['A'] = attempt(a)
        sys.settrace(None)
        res['n'] = count[0]

    ta = threading.Thread(target=run_a)
    ta.start()
    ta.join()
    if k and tb.ident is None:
        tb.start()
    if tb.ident is not None:
        tb.join()
    return res.get('A'), res.get('B'), res['n']


def two_switches(a, b, k, m):
    """A up to its k-th call, B up to its m-th, A to its end, B to its end"""
    res = {}
    go_on = threading.Event()
    paused = threading.Event()

    def b_action():
        paused.set()
        go_on.wait(2)

    def run_b():
        f, _ = tracer(m, CALL, b_action)
        sys.settrace(f)
        res['B'] = attempt(b)
        sys.settrace(None)
        paused.set()

    tb = threading.Thread(target=run_b)

    def a_action():
        tb.start()
        paused.wait(2)

    def run_a():
        f, _ = tracer(k, CALL, a_action)
        sys.settrace(f)
        res['A'] = attempt(a)
        sys.settrace(None)

    ta = threading.Thread(target=run_a)
    ta.start()
    ta.join()
    if tb.ident is None:
        tb.start()
    go_on.set()
    tb.join()
    return res.get('A'), res.get('B')


def in_child(f):
    """run f in a forked process -> its result"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, f()))
            except BaseException as e:
                data = pickle.dumps((False, '%s: %s' % (type(e).__name__, e)))
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Bad('the process running the schedule died')
    ok, val = pickle.loads(data)
    if not ok:
        raise Bad('the schedule could not be run: ' + val)
    return val


def warm_up():
    for t in TASKS:
        if t not in MANY:
            attempt(t)


GOLD = {}


def scheduled(item):
    kind, a, b, k, m, warm = item

    def f():
        if warm:
            warm_up()
        if kind == 'one':
            return one_switch(a, b, k)[:2]
        return two_switches(a, b, k, m)

    got = in_child(f)
    want = (GOLD[a], GOLD[b])
    if got != want:
        where = 'line' if kind == 'one' else 'call'
        return '%r (A) stopped at its %s %d, %r (B)%s, %s start\n  alone     A %r\n            B %r\n  scheduled A %r\n            B %r' % (
            a, where, k, b, ' run to its end' if kind == 'one' else ' stopped at its call %d' % m, 'warm' if warm else 'cold', want[0], want[1], got[0], got[1]), None
    return None, (kind, a, b, k)


class Schedules(engine.Space):
    """for every pair the points 1..n (x 1..m)"""

    def __init__(self, kind, pairs, lengths, warm, step=1):
        self.kind, self.warm, self.step = kind, warm, step
        self.rows = []
        at = 0
        for a, b in pairs:
            n = -(-lengths[a] // step)
            m = -(-lengths[b] // step) if kind == 'two' else 1
            self.rows.append((at, a, b, m))
            at += n * m
        self.size = at
        self.about = '%d pairs of tasks, every %s of A%s, %s start' % (
            len(self.rows), 'line' if kind == 'one' else 'call' if step == 1 else '%drd call' % step, '' if kind == 'one' else ' x of B', 'warm' if warm else 'cold')

    def item(self, i):
        lo, hi = 0, len(self.rows)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.rows[mid][0] <= i:
                lo = mid
            else:
                hi = mid
        at, a, b, m = self.rows[lo]
        k, j = divmod(i - at, m)
        return (self.kind, a, b, k * self.step + 1, j * self.step + 1, self.warm)


def plan(tier):
    q = tier == 'quick'
    GOLD.clear()
    for t in TASKS:
        GOLD[t] = in_child(lambda: attempt(t))
    lines = {}
    calls = {}
    for t in TASKS:
        lines[t] = in_child(lambda: one_switch(t, t, 0)[2])
        calls[t] = in_child(lambda: one_switch(t, t, 0, CALL)[2])
    print('  lines executed by the tasks: %r\n  calls: %r' % (lines, calls))
    names = [t for t in TASKS if t not in MANY]
    pairs = [(a, b) for a in names for b in names]
    some = [(a, names[(i + s) % len(names)]) for i, a in enumerate(names) for s in (0, 1, 3)]
    two = [('refs', 'other refs'), ('image', 'inline'), ('code', 'image rst')]
    return [
        Exploration('one preemption, cold', Schedules('one', some if q else pairs, lines, False), scheduled, chunk=60),
        Exploration('one preemption, warm', Schedules('one', [(a, names[(i + 4) % len(names)]) for i, a in enumerate(names)] if q else pairs, lines, True), scheduled, chunk=60),
        Exploration('one preemption by many, cold', Schedules('one', [(a, 'many') for a in (['refs', 'image'] if q else names)], lines, False), scheduled, chunk=20),
        Exploration('two preemptions, cold', Schedules('two', two if q else pairs, calls, False, 6 if q else 2), scheduled, chunk=60),
    ]


def run(tier, result, deadline):
    p = plan(tier)
    engine.explore(p, result, deadline)
    result.extra['states'] = result.evaluations
    result.extra['transitions'] = sum(s['evaluated'] * (2 if 'one' in s['name'] else 3) for s in result.spaces)
    result.extra['traces'] = result.evaluations
