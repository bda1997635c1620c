"""Read-only outputs: every sequence of outputs on one tree, tree compared after each, and normalize before rendering."""
import itertools

import commonmark
import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('for every document each ordered pair of outputs (HTML with four option sets, reStructuredText, JSON, AST listing) is produced from one '
        'tree, for a core of documents each sequence of three; all public attributes of all nodes are compared before and after, and each '
        'output with that of a fresh parse; then text nodes are merged and the HTML compared; outcome = the HTML and listing')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within']

ATTRS = ('t', 'literal', 'title', 'info', 'destination', 'list_data', 'level', 'sourcepos', 'string_content', 'is_open', 'last_line_blank',
         'is_fenced', 'fence_char', 'fence_length', 'fence_offset', 'on_enter', 'on_exit')
OUT = {
    'html': lambda a: render(a),
    'safe': lambda a: render(a, safe=True),
    'pos': lambda a: render(a, sourcepos=True, softbreak='<br />'),
    'all': lambda a: render(a, sourcepos=True, softbreak=' ', safe=True),
    'rst': lambda a: commonmark.ReStructuredTextRenderer().render(a),
    'json': lambda a: commonmark.dumpJSON(a),
    'ast': ast_listing,
}
NAMES = list(OUT)


def snapshot(root):
    order = []
    at = {}
    stack = [root]
    while stack:
        n = stack.pop()
        if id(n) in at:
            raise Bad('node reached twice: %r' % n)
        at[id(n)] = len(order)
        order.append(n)
        k = n.last_child
        while k is not None:
            stack.append(k)
            k = k.prv
    ref = lambda n: None if n is None else at.get(id(n), 'elsewhere')
    return [tuple(repr(getattr(n, x, None)) for x in ATTRS) + tuple(ref(getattr(n, x)) for x in ('parent', 'first_child', 'last_child', 'prv', 'nxt')) for n in order]


def changed(a, b):
    if len(a) != len(b):
        return '%d nodes became %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        for name, p, q in zip(ATTRS + ('parent', 'first_child', 'last_child', 'prv', 'nxt'), x, y):
            if p != q:
                return 'node %d (%s): %s was %s, is %s' % (i, x[0], name, p, q)


def sequences(doc, n):
    fresh = {k: OUT[k](parse(doc)) for k in NAMES}
    for seq in itertools.product(NAMES, repeat=n):
        ast = parse(doc)
        before = snapshot(ast)
        for i, k in enumerate(seq):
            got = OUT[k](ast)
            if got != fresh[k]:
                return '%r: output %d of %r\n  fresh %r\n  here  %r' % (doc, i, seq, fresh[k], got), None
        after = snapshot(ast)
        if after != before:
            return '%r: after %r, %s' % (doc, seq, changed(before, after)), None
    return merge(doc, fresh)


def merge(doc, fresh):
    for smart in (False, True):
        ast = parse(doc, smart=smart)
        want = {k: OUT[k](ast) for k in ('html', 'safe', 'pos', 'all')}
        ast.normalize()
        for k in want:
            got = OUT[k](ast)
            if got != want[k]:
                return '%r%s: %s after merging text nodes\n  before %r\n  after  %r' % (doc, ' smart' if smart else '', k, want[k], got), None
        prev = None
        for n, e in ast.walker():
            if prev is not None and n.t == 'text' and prev.t == 'text' and prev.nxt is n:
                return '%r: adjacent text nodes left after merging' % doc, None
            if e:
                prev = n
    return None, (fresh['html'], len(fresh['ast']))


def one_of_each(doc):
    """every output in turn, twice round, forwards and backwards"""
    fresh = {k: OUT[k](parse(doc)) for k in NAMES}
    ast = parse(doc)
    before = snapshot(ast)
    for k in NAMES + NAMES[::-1]:
        got = OUT[k](ast)
        if got != fresh[k]:
            return '%r: %s\n  fresh %r\n  here  %r' % (doc, k, fresh[k], got), None
        after = snapshot(ast)
        if after != before:
            return '%r: after %s, %s' % (doc, k, changed(before, after)), None
    return merge(doc, fresh)


def pairs(doc):
    return sequences(doc, 2)


def triples(doc):
    return sequences(doc, 3)


URLS = ['javascript:x', 'JavaScript:x', 'vbscript:', 'file:///x', 'data:text/html,x', 'data:image/png,x', 'data:image/svg+xml,x', '&#106;avascript:x', 'java&Tab;script:x', '%6a', '<javascript:a b>', 'http://a/?b=c&d="e"', '']
USES = ['[a](%s)', '![a](%s "t")', '[![b](%s)](%s)', '![[c](%s)](%s \'"\')', '- [a](%s)\n- <b>\n\n# ![x](%s)', '[r]\n\n[r]: %s "t"', '<%s>', '<i>[a](%s)<!-- %s -->']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('sequences of three outputs', Listed([docs.EVERYWHERE.replace('{c}', c) for c in ('a', '*', '<b>')] + docs.LEAVES + docs.LINES + [
            '[r]\n\n[r]: /u "t"', '# a *b*', '![a ![b](c)](d "e")', '- a\n\n- b', '- a\n- b', '1. > ```x\n   > y', '<b>\n\n<!-- a -->', '"a" -- b...', 'a\nb  \nc\\\nd', '0) a\n   - b\n\n     c']), triples),
        Exploration('pairs of outputs, lines', docs.lines(2), pairs),
        Exploration('lines of HTML', docs.tag_lines(2 + d), one_of_each),
        Exploration('pairs of outputs, inlines', docs.inlines(2), pairs),
        Exploration('all outputs, lines', docs.lines(3 + d), one_of_each),
        Exploration('inline texts in every place', docs.placed(docs.FEW_PARTS if q else docs.PARTS), one_of_each),
        Exploration('texts of several blocks', docs.several(2, docs.FEW_PARTS if q else docs.PARTS), one_of_each),
        Exploration('all outputs, inlines', docs.inlines(3 + d, docs.FEW_INLINES if q else docs.INLINES), one_of_each),
        Exploration('all outputs, nesting', docs.nested(2, pairs=not q), one_of_each),
        Exploration('all outputs, nested pairs', docs.nested(1), one_of_each),
        Exploration('sequences of blocks', docs.blocks(3 + d), one_of_each),
        Exploration('written documents', docs.written(1, 1 if q else 2), one_of_each),
        Exploration('unsafe destinations', Slots(USES, URLS, join=lambda t: t[0].replace('%s', t[1])), triples if not q else pairs),
        Exploration('odd text in every place', Slots(docs.PLACES, docs.ODD, join=lambda t: t[0].replace('%s', t[1])), one_of_each),
        Exploration('all outputs, characters', Product(docs.SPECIAL, 2 + d), one_of_each),
        Exploration('all outputs, repetition', docs.pumps([2, 3, 9, 30]), one_of_each),
        Exploration('lengths', docs.lengths((), counts=docs.SOME), one_of_each, chunk=40),
        Exploration('texts mentioned in the code', docs.mentioned_places(), one_of_each),
    ]


run = runner.make(plan)
