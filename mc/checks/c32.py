"""Same inlines everywhere: the inline content of a text does not depend on the block that holds it."""
import re

import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('each text that makes one paragraph is put into headings of both kinds, quotes, items (tight and loose), nested containers, between other blocks, with and without lazy lines and '
        'indented continuation lines; in each the HTML of the block must hold the same inline HTML; outcome = that inline HTML; trivial = texts that are not one paragraph')
ASSUMPTIONS = ['texts outside the enumerated spaces behave like those within']

REFS = '[r]: /u "t"\n'
DEF = re.compile('^ {0,3}\\[')


def pad(text, rest):
    return text.replace('\n', '\n' + rest)


def places(s):
    """(document, what stands before the inlines, what after them)"""
    yield pad(s, '   '), '<p>', '</p>\n'
    yield '   ' + s, '<p>', '</p>\n'
    yield 'a\n\n' + s + '\n\nb', '<p>a</p>\n<p>', '</p>\n<p>b</p>\n'
    yield '# a\n' + s + '\n***', '<h1>a</h1>\n<p>', '</p>\n<hr />\n'
    yield '> ' + pad(s, '> '), '<blockquote>\n<p>', '</p>\n</blockquote>\n'
    yield '>' + pad(s, '>'), '<blockquote>\n<p>', '</p>\n</blockquote>\n'
    yield '- ' + pad(s, '  '), '<ul>\n<li>', '</li>\n</ul>\n'
    yield '10) ' + pad(s, '    ') + '\n\n    a', '<ol start="10">\n<li>\n<p>', '</p>\n<p>a</p>\n</li>\n</ol>\n'
    yield '- a\n- ' + pad(s, '  ') + '\n- b', '<ul>\n<li>a</li>\n<li>', '</li>\n<li>b</li>\n</ul>\n'
    yield '> - ' + pad(s, '>   '), '<blockquote>\n<ul>\n<li>', '</li>\n</ul>\n</blockquote>\n'
    yield '-\n  ' + pad(s, '  '), '<ul>\n<li>', '</li>\n</ul>\n'
    yield '- > ' + pad(s, '  > ') + '\n\na', '<ul>\n<li>\n<blockquote>\n<p>', '</p>\n</blockquote>\n</li>\n</ul>\n<p>a</p>\n'
    yield s + '\n===', '<h1>', '</h1>\n'
    yield s + '   \n-', '<h2>', '</h2>\n'
    yield '> ' + pad(s, '> ') + '\n> ---', '<blockquote>\n<h2>', '</h2>\n</blockquote>\n'
    if '\n' not in s:
        if not re.search('(?:^|[ \t])#+[ \t]*$', s):
            yield '# ' + s, '<h1>', '</h1>\n'
            yield '######\t' + s + ' ', '<h6>', '</h6>\n'
            yield '- ## ' + s, '<ul>\n<li>\n<h2>', '</h2>\n</li>\n</ul>\n'
        yield '### ' + s + ' ###', '<h3>', '</h3>\n'
        yield '> # ' + s + ' # ', '<blockquote>\n<h1>', '</h1>\n</blockquote>\n'
    elif all(x[:1].isalpha() for x in s.split('\n')[1:]):
        yield '> ' + s, '<blockquote>\n<p>', '</p>\n</blockquote>\n'
        yield '1. > ' + s, '<ol>\n<li>\n<blockquote>\n<p>', '</p>\n</blockquote>\n</li>\n</ol>\n'
        yield '- ' + pad(s, '       '), '<ul>\n<li>', '</li>\n</ul>\n'
        yield '>    ' + pad(s, '      '), '<blockquote>\n<p>', '</p>\n</blockquote>\n'


def inner(doc, before, after, smart):
    h = html(doc, smart=smart)
    if not h.startswith(before) or not h.endswith(after) or len(h) < len(before) + len(after):
        return None
    return h[len(before):len(h) - len(after)]


def independent(s):
    """a text, whose first character is no white space"""
    if s.strip() != s or DEF.match(s) or not set(s.split('\n')[0]) - set('-*_+ '):
        return None, None
    out = None
    for smart in (False, True):
        want = inner(s + '\n\n' + REFS, '<p>', '</p>\n', smart)
        if want is None or '<p>' in want:
            return None, None
        for doc, before, after in places(s):
            d = doc + '\n\n' + REFS
            got = inner(d, before, after, smart)
            if got != want:
                return differ(d, before + want + after, html(d, smart=smart)) + '\n  smart=%s' % smart, None
        out = want
    return None, out


TOKENS = docs.INLINES
FEW = docs.FEW_INLINES + ['\\\n', '_', '--', "'"]
LINED = ['b', '*', '`', '[', '](u)', '<b', '>', ' ', '  \n', '\n', '\\\n', '"', '![', '[r', ']', '&amp;', '<!--', '-->', '\nc']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('inlines', Product(TOKENS, 2 + d, wraps=[('', ''), ('a', ''), ('a ', 'a')]), independent),
        Exploration('few inlines', Product(FEW, 3 + d, lo=3, wraps=[('', ''), ('a', 'a')]), independent),
        Exploration('several lines', Product(LINED, 3 + d, lo=2, wraps=[('a', 'a')]), independent),
        Exploration('characters', Product([c for c in docs.CHARS if c not in '\r\0'], 2 + d, wraps=[('a', ''), ('*a', 'a*'), ('[', '](u)')]), independent),
        Exploration('odd text', Slots([p for p in docs.PLACES if '\n\n' not in p], [o for o in docs.ODD if o != '\0'], ['', 'a '], join=lambda t: t[2] + t[0].replace('%s', t[1])), independent),
        Exploration('white space at the ends of lines', Slots(['a', '*a*', '`a', 'a\\', '<b>', '[a'], ['', ' ', '  ', '   ', '\t', ' \t', '\t ', '\\', '\\ ', '\\  '], ['\n', '\n ', '\n    ', '\n\t'], ['a', 'b*', 'b`', 'b](u)'], ['', '  \nc', '\\\nc']), independent),
        Exploration('repeated', Slots(['*', '_', '`', '[', '](u)', '"', '--', '.', '![', '\\', '<', 'a  \n', '&', '*a', 'a_', '*a_ '], [2, 3, 4, 5, 9, 17, 40, 100], ['', 'a'], join=lambda t: 'a' + t[0] * t[1] + t[2]), independent),
        Exploration('inlines mentioned in the code', docs.mentioned_inlines(('', 'a', '*b ', '['), ('', 'b', ' c*', '](u)')), independent),
    ]


run = runner.make(plan)
