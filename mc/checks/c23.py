"""Cost: every short fragment repeated in every context must be processed within a bound no super-cubic growth can meet."""
import itertools
import time

import commonmark
import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('every fragment of up to three tokens, and every pair of fragments, is repeated in every context to a length of hundreds or thousands of '
        'characters, and parsed and rendered under a CPU limit at least thirty times what quadratic growth needs today; families '
        'above 0.4 s are measured at a quarter of the length too, and growth beyond degree 2.7 is a violation; nestings are taken far beyond the '
        'recursion limit of the interpreter; outcome = the output')
ASSUMPTIONS = ['repetitions of longer fragments behave like those enumerated', 'CPU time of this machine is within a factor of thirty of the one it was tuned on',
               'the output of nested lists as reStructuredText grows quadratically, and its cost cubically, with the depth: taken to 900 levels only']


def work(doc, smart=False, rst=True, listing=False):
    """-> CPU seconds, HTML"""
    t = time.process_time()
    ast = parse(doc, smart=smart)
    h = render(ast)
    if rst:
        commonmark.ReStructuredTextRenderer().render(ast)
    commonmark.dumpJSON(ast)
    if listing:
        ast_listing(ast)
    return time.process_time() - t, h


def cheap(limit, **kw):
    def judge(doc):
        t, h = work(doc, **kw)
        if t > limit:
            t = min(t, work(doc, **kw)[0], work(doc, **kw)[0])
            if t > limit:
                return '%d characters (%r...): %.1f s, limit %g s' % (len(doc), doc[:80], t, limit), None
        return None, hash(h)
    return judge


def family(item):
    """growth of one family between a quarter of the length and the length"""
    before, frag, mid, frag2, after, length = item
    k = max(1, length // max(1, len(frag) + len(frag2)))

    def doc(n):
        return before + frag * n + mid + frag2 * n + after

    t, h = work(doc(k))
    if t > 0.4:
        s = max(min(work(doc(k // 4))[0] for _ in range(2)), 0.004)
        t = min(t, work(doc(k))[0])
        if t > 0.4 and t / s > 4 ** 2.7:
            s = max(work(doc(k // 4))[0], s)
            t = min(t, work(doc(k))[0])
            if t / s > 4 ** 2.7:
                return '%r + %r * %d + %r + %r * %d + %r takes %.2f s, with a quarter of the repetitions %.3f s' % (before, frag, k, mid, frag2, k, after, t, s), None
    if t > 8:
        return '%r + %r * %d + %r + %r * %d + %r takes %.1f s' % (before, frag, k, mid, frag2, k, after, t), None
    return None, hash(h)


def repeat(length):
    def join(t):
        f = ''.join(t[1:-1])
        return t[0] + f * max(2, length // len(f)) + t[-1]
    return join


TOKENS = ['a', ' ', '\n', '*', '_', '`', '[', ']', '(', ')', '<', '>', '!', '&', '\\', '"', "'", '-', '#', ':', '=', '/', ';', '    ', '1.', '~']
CONTEXTS = ['[a](u "', "[a](u '", '[a](u (', '[a](<', '[a](', '<a ', '<a b="', '<a b=', "<a b='", '<!--', '<?', '<!A ', '<![CDATA[', '</a', '<cc:', '<d@e', '&', '&#', '&#x', '`', '[', '![', '[r]: ', '[r]: /u "', '[r]: <', '[', '[a][',
            '```', '```\n', '# ', '- ', '> ', '    ', '*', '**', '_', '"', "'", '<div>', '<pre>', '\\', '1. ', '[a](u "t"', '<script>\n', 'a\n', '![a](', '~~~ ', 'a <!--', 'a <!-- b', 'a <?', 'a <!A ', 'a <![CDATA[', 'a <b c']
AFTER = ['', 'x', '\n', ')', '"', '>', ']', '*', '`', '\n\n[r]: /u', '](u)', '-->', '\n===', ';', '")']
PUMP = docs.FRAGMENTS + ['a b="c" ', "a='b' ", 'a=b ', 'a ', '--', '-', '\\"', '\\\\', '&quot;', '&#35;', '"a', '( ', '()', '\\)', '<a>', '<!-', ']]', '?', '``', '```', '`a``b', '**a', '***', '*a**b', '_a*b', '[a]: b\n', '[a]:\nb\n', '[a][b]', '![a][b]', '\n\n', '\n ', '>\n', '- \n', '*\t', '&a', '&#x', '<a@b.c>', '![[', '](', '\\\n', '# ', '#', '=\n', '---\n', '***\n',
                         '"\'', '...', 'a"b\'', '<x y', '</a', '<a/', ' #', '# #', '    \n', '> > ', '1) ', '- - ', '+', '10. ']
PUMP = list(dict.fromkeys(PUMP))
NESTS = [('> ', ''), ('- ', ''), ('1. ', ''), ('>', ''), ('- > ', ''), ('> 1) ', ''), ('* ', 'a'), ('[', ']'), ('[', '](u)'), ('![', '](u)'), ('*a ', 'b*'), ('**a ', 'b**'), ('_a ', 'b_'), ('**a _b ', ' c_ d**'), ('*', '*'), ('**', '**'), ('***a ', 'b***'), ('(', ')'),
         ('"', '"'), ("'a", "b'"), ('[a](', ')'), ('<', '>'), ('`', '`'), ('![a ', '](b "c")'), ('[*a ', 'b*](c)'), ('*[a ', '](b)*'), ('![*', '*](u)'), ('[![', '](u)](v)'), ('\\[', '\\]'), ('<b>', '</b>'), ('&', ';'), ('![', '][r]'), ('[', '][r]')]


def nest(t):
    n, (a, b), (x, y), after = t
    return x + a * n + 'z' + b * n + y + after


def plan(tier):
    q = tier == 'quick'
    deep = [900, 3000] if q else [900, 3000, 10000]
    short = ['', '[a](u "', '<a ', '[r]: ', '[', '`'] if q else CONTEXTS
    return [
        Exploration('fragments of one and two tokens', Union(
            Slots(CONTEXTS + [''], TOKENS, AFTER, join=repeat(300)), Slots(CONTEXTS[::1 if not q else 3] + [''], TOKENS, TOKENS, AFTER[:1 if q else 15] + (AFTER[3:6] if q else []), join=repeat(300))), cheap(2.0)),
        Exploration('fragments of three tokens', Slots(short, TOKENS[:20] if q else TOKENS, TOKENS[:20] if q else TOKENS, TOKENS[:20] if q else TOKENS, ['', ')'] if not q else [''], join=repeat(200)), cheap(2.0, rst=False)),
        Exploration('constructs in contexts', Slots(CONTEXTS + [''], PUMP, AFTER[:1] + AFTER[2:7] + AFTER[9:11] if q else AFTER, join=repeat(400)), cheap(2.0)),
        Exploration('constructs, smart', Slots(['', 'a', '"'], PUMP, AFTER[:3], join=repeat(1500)), cheap(5.0, smart=True)),
        Exploration('growth', Slots(CONTEXTS + [''] if not q else ['', 'a', '[', '> ', '- ', '<a ', '"'], PUMP, [''], [''], AFTER if not q else ['', '\n\n[r]: /u', ')'], [2400], join=tuple), family, chunk=4),
        Exploration('growth of pairs', Slots([''], PUMP[::2] if q else PUMP, ['', 'z'] if not q else ['z'], PUMP[::2] if q else PUMP, [''], [1600], join=tuple), family, chunk=20),
        Exploration('nesting', Slots(deep, NESTS, [('', ''), ('> - ', '')] if q else [('', ''), ('> - ', ''), ('*', '*'), ('[', '](u)'), ('![', '](u)')], ['', '\n\n[r]: /u'], join=nest), cheap(9.0, rst=False), chunk=1),
        Exploration('nesting, all outputs', Slots([900], NESTS, [('', ''), ('*', '*')], ['', '\n\na'], join=nest), cheap(9.0, listing=True), chunk=1),
        Exploration('staircases', Listed([''.join('%s%s\n' % (p * i, s) for i in range(k)) for k in (20, 60, 100) for p in ('> ', '  ', '- ', ' ', '>', '\t', '    ', '*', '`', '[', '#', '_', '<', '~', '1. ', '-', '![') for s in ('', 'a', '- a', '> b', '```', '# c', '*', ']', '`', '1. d', '***', '<div>', '[r]: /u')]), cheap(3.0)),
        Exploration('runs of growing length', Listed([s.join(c * i for i in r) for k in (20, 60, 120) for r in (range(1, k), range(k, 0, -1)) for c in '`*_[(]<&!~-."\'\\#>=:' for s in ('a', ' ', '', '\n', 'a ', ' a')]), cheap(6.0)),
        Exploration('many definitions', Slots([10, 100, 500 if q else 3000], ['[a%d]: /u%d\n', '[a%d]: <u> "t%d"\n', '[a%d]:\n/u%d\n\n', '[a]: /u%d %d\n', '> [a%d]: /u%d\n', '- [a%d]: /u%d\n'], ['[a%d] ', '![a%d][a%d] ', '[a%d][] ', '[x][a%d]'],
                                              join=lambda t: ''.join(t[1].replace('%d', str(i)) for i in range(t[0])) + '\n' + ''.join(t[2].replace('%d', str(i)) for i in range(t[0]))), cheap(6.0)),
    ]


run = runner.make(plan)
