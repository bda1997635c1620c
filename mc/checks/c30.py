"""Blank lines: their length, number and white space say nothing outside code and HTML blocks."""
import re

import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('in each document the blank lines (and the lines holding only quote or item markers) get spaces and tabs, each of them alone and all together; blank lines are '
        'doubled and tripled; blank lines are added before and after the document: the HTML must be the same, but for the blank lines inside code and HTML blocks, and source positions '
        'must be the same, or move by the lines added; outcome = the HTML; trivial = documents without a blank line')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within', 'the column a block ends in is not compared, nor its last line when lines are added after it']

MARKERS = re.compile(r'[> ]*(?:[-+*]|[0-9]{1,9}[.)])?[ ]*\Z')
FILL = [' ', '  ', '   ', '    ', '     ', '\t', ' \t', '\t\t', '         ']
BLANK_RUN = re.compile('(?:\n[ \t]*)+\n')
CODE_START = re.compile('(<code[^>]*>)(?:[ \t]*\n)+')
ONLY_WS = re.compile('^[ \t]+$', re.M)
AT_END = re.compile('[ \t]+$', re.M)
AFTER_TAG = re.compile('(<code[^>]*>)[ \t]+\n')


def squeeze(h):
    return CODE_START.sub(r'\1', BLANK_RUN.sub('\n', h))


def trim(h):
    if '<!--' in h or '<div' in h or '<pre>\n' in h:
        h = squeeze(h)          # blank lines at the end of an HTML block
    return AFTER_TAG.sub('\\1\n', ONLY_WS.sub('', h))


def starts(doc):
    return [(n.t, n.sourcepos[0], n.sourcepos[1][0]) for n, e in parse(doc).walker() if e and n.sourcepos and n.t != 'document']


def alike(doc):
    ls = doc.split('\n')
    plain = html(doc)
    blank = [i for i, x in enumerate(ls) if x.strip(' \t') == '' and i < len(ls) - 1]
    bare = [i for i, x in enumerate(ls) if i not in blank and x and MARKERS.match(x) and not x.endswith((' ', '\t'))] + blank
    pos = starts(doc)
    cases = []
    # a marker after text may be text, and two spaces a hard break
    text = [i for i in bare if ls[i].strip('> \t') and i and ls[i - 1].strip(' \t')]
    for i in bare:
        for f in [' ', '\t'] if i in text else FILL if len(ls) < 4 else FILL[1:5:2] + FILL[5:6]:
            cases.append(ls[:i] + [ls[i] + f] + ls[i + 1:])
    for f in FILL:
        cases.append([x + (f if i not in text else ' ') if i in bare else x for i, x in enumerate(ls)])
    want = trim(plain)
    if bare:
        for c in cases:
            d = '\n'.join(c)
            got = trim(html(d))
            if got != want and (all(i in blank for i in bare) or AT_END.sub('', got) != AT_END.sub('', want)):
                return 'blank lines of %r: ' % doc + differ(d, want, got), None
            # an empty item's marker may be followed by up to four columns before content: starts stay
            if starts(d) != pos:
                return 'positions, blank lines of %r: ' % doc + differ(d, pos, starts(d)), None
    want = squeeze(trim(plain))
    for k in (2, 3):
        for i in blank + [None]:
            c = []
            for j, x in enumerate(ls):
                c += [x] * (k if j in blank and (i is None or i == j) else 1)
            d = '\n'.join(c)
            if d != doc:
                got = squeeze(trim(html(d)))
                if got != want:
                    return 'more blank lines in %r: ' % doc + differ(d, want, got), None
    for k in (1, 2):
        for f in ('', ' ', '    ', '\t'):
            d = (f + '\n') * k + doc
            got = html(d)
            if got != plain:
                return 'blank lines before: ' + differ(d, plain, got), None
            p = starts(d)
            if p != [(t, [a[0] + k, a[1]], b + k) for t, a, b in pos]:
                return 'positions after %d lines: ' % k + differ(d, pos, p), None
            d = doc + ('' if doc.endswith('\n') else '\n') + (f + '\n') * k
            got = squeeze(trim(html(d)))
            if got != want:
                return 'blank lines after: ' + differ(d, want, got), None
    return None, (plain if bare else None)


LINES = docs.LINES + ['> ', '1.', '- ', '<!-- x', '-->', '   k', '> > l', '> -', '- >', '~~~', '     m', '+', '<pre>', '      n', '10) o', '* * *', 'p  ', '<b>', '> ```', '- ```', '  ```']
MEDIUM = ['', 'a', '> b', '- c', '    d', '```', '  e', '> ', '-', '>', '1. f', '# g', '[r]: /u', '<div>', '   h', '- - i', '<!--']
TINY = ['', 'a', '>', '-', '  b', '    c', '```', '- d', '> e']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('lines', docs.lines(2 + d, LINES), alike),
        Exploration('a blank line between', Slots(LINES, ['', '>', '-', '> '][:3 if q else 4], docs.LINES if q else LINES, ['', '  a', '    a', '- a'] if q else ['', 'a', '  a', '    a', '- a', '> a', '```'], join='\n'.join), alike),
        Exploration('medium lines', docs.lines(3 + d, MEDIUM, lo=3), alike),
        Exploration('tiny lines', docs.lines(4 + d, TINY, lo=4), alike),
        Exploration('many blank lines', Slots(TINY, [2, 3, 5, 8, 20, 100], TINY, ['a', '  b', '    c', '```', '- d'], join=lambda t: t[0] + '\n' * t[1] + t[2] + '\n\n' + t[3]), alike),
        Exploration('nested blocks', docs.nested(1 + d), alike),
        Exploration('nested blocks without the end', docs.nested(2, docs.LEAVES[:12], pairs=False), alike),
        Exploration('leaving containers', docs.leaving(2 + d, ('a', '```\nb\n\nc', '    d', 'e\n\nf', '<!-- g\n\nh')), alike),
        Exploration('sequences of blocks', docs.blocks(3 + d), alike),
        Exploration('written documents', docs.written(1, 1 if q else 2), alike),
        Exploration('inlines', docs.inlines(2, docs.INLINES), alike),
        Exploration('lengths', docs.lengths((), counts=docs.SOME), alike, chunk=40),
    ]


run = runner.make(plan)
