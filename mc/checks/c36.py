"""Writing: every abstract document, in every spelling Markdown allows for it, renders as that document."""
import itertools
import multiprocessing

from lib import *
from trees import *
import runner
import writer

LEVEL = 'exploration'
RULE = ('each abstract document (a tree of blocks and inlines within the bounds) is written as Markdown in every combination of spellings with at most the stated number of deviations from the plainest '
        '(markers, fences, indentation, padding, numbering, lazy lines, blank lines, underlines, closing sequences, emphasis characters, kinds of link, quotes of titles, escapes, break forms ...), '
        'and the HTML of each must be that of the tree; outcome = the HTML of the tree')
ASSUMPTIONS = ['trees outside the enumerated spaces and spellings with more deviations behave like those within']

WRITTEN = multiprocessing.Value('q', 0)     # shared with the workers, for the evidence


PARTS = 6


def write_all(bound):
    def judge(t):
        doc, part = t
        want = writer.block_html(doc)
        n = 0
        for sched, text in writer.spellings(doc, bound, part, PARTS):
            if text is None:
                continue
            n += 1
            got = html(text)
            if got != want:
                return '%r\n' % (doc,) + differ(text, want, got, 'tree', 'got'), None
        with WRITTEN.get_lock():
            WRITTEN.value += n
        return None, want if n else None
    return judge


def written(name, trees, bound):
    return Exploration(name, Slots(trees, range(PARTS), join=tuple, about='%d trees, up to %d deviations, in %d parts' % (len(trees), bound, PARTS)), write_all(bound), limit=120)


def fences(t):
    """a fence of m characters around a line of n: it is code if n < m, else it ends the block"""
    c, m, n, k, (pre, post) = t
    text = '%s%s\n%sa\n%s%s\n%sb\n%s%s\n\nx' % (pre, c * m, post, post, c * n, post, post, c * max(m, k))
    if n < m:
        want = '<pre><code>a\n%s\nb\n</code></pre>\n' % (c * n)
    elif max(m, k) != m or n != m:
        return None, None
    else:
        want = '<pre><code>a\n</code></pre>\n<p>b</p>\n<pre><code>\nx\n</code></pre>\n'
        if pre:
            return None, None
    if pre == '> ':
        want = '<blockquote>\n%s</blockquote>\n' % want
    elif pre:
        want = '<ul>\n<li>\n%s</li>\n</ul>\n' % want
    want += '<p>x</p>\n' if n < m else ''
    got = html(text)
    return (None, want) if got == want else (differ(text, want, got, 'want', 'got'), None)


def ticks(t):
    """a code span of m backticks around a string of n others"""
    m, n, (a, b) = t
    if m == n:
        return None, None
    text = '%s%s %s %s%s x' % (a, '`' * m, '`' * n, '`' * m, b)
    want = '<p>%s<code>%s</code>%s x</p>\n' % (a, '`' * n, b)
    got = html(text)
    return (None, want) if got == want else (differ(text, want, got, 'want', 'got'), None)


def plan(tier):
    q = tier == 'quick'
    e = 0 if q else 1
    return [
        written('one leaf block', (one), 3 + e),
        written('two leaf blocks', [[a, b] for a in LEAVES2 for b in LEAVES2], 2 + e),
        written('three leaf blocks', ([[a, b, c] for a in LEAVES for b in LEAVES for c in LEAVES]), 1 + e),
        written('one container', [[c] for c in cont], 2 + e),
        written('small containers', ([[c] for c in small]), 3 + e),
        written('a container between blocks', ([[a, c, b] for a in few[:2] for c in small for b in few] + [[a, b] for a in small for b in small]), 2 + e),
        written('containers in containers', ([[c] for c in deep]), 2 + e),
        written('three levels', ([[w(c)] for w in (lambda c: ('quote', [c]), lambda c: bullets(True, [c]), lambda c: ('list', 1, False, [[P('x')], [c]])) for c in deep]), 1 + e),
        written('four levels', ([[w(v(c))] for w in (lambda c: ('quote', [c, P('y')]), lambda c: ('list', 1, True, [[P('x'), c], [P('z')]])) for v in (lambda c: ('quote', [c]), lambda c: bullets(True, [c]), lambda c: bullets(False, [P('aa'), c])) for c in deep]), 1 + e),
        written('long lists', [[('list', s, t, [k] * n)] for s in (None, 0, 1, 8, 98, 999999990) for t in (True, False) for k in ([P('a')], [P('b'), bullets(True, [P('c')])], [('code', '', 'd\n')], [('quote', [P('e')])]) for n in (3, 5, 9)], 1 + e),
        written('many blocks', [[a, b, c, d] for a in few for b in few for c in small[:6] for d in few] + [[a, b, c, d, e] for a in few[:2] for b in small[:6] for c in few for d in small[5:] for e in few[:2]], 1 + e),
        Exploration('lengths of fences', Slots(['`', '~'], range(3, 71), range(1, 71), [0, 71], [('', ''), ('> ', '> '), ('- ', '  ')], join=tuple, about='a line of n in a fence of m, closed by m or more, alone and in containers'), fences),
        Exploration('lengths of strings of backticks', Slots(range(1, 91), range(1, 91), [('', ''), ('a ', ' c')], join=tuple, about='a string of n in a code span of m'), ticks),
        written('inlines', ([para(k) for k in INL + INL2]), 3 + e),
        written('inlines in a heading, quote and item', ([x for k in INL + INL2 for x in ([('h', 1, k)], [('quote', para(k))], [bullets(True, para(k), para(k))])]), 2 + e),
        written('two inlines', ([para(a + [T(' x ')] + b) for a in INL + INL2 for b in INL + INL2]), 1 + e),
        written('inlines nested', ([para([w(k)]) for w in (lambda k: ('em', k), lambda k: ('st', k), lambda k: ('a', '/aa', 'bb', k), lambda k: ('img', '/aa', '', k)) for k in INL + INL2]), 2 + e),
    ]


explore = runner.make(plan)


def run(tier, result, deadline):
    WRITTEN.value = 0
    explore(tier, result, deadline)
    result.extra['documents written and checked'] = WRITTEN.value
