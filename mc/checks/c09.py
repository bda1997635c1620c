"""Escapes and character references: the whole finite tables, in every context, code against the model."""
from html.entities import html5
import docs
from lib import *
import runner

LEVEL = 'model_checking'
RULE = ('every named reference of HTML5 and its near misses, every numeric reference (decimal and '
        'hexadecimal, all code points and beyond), a backslash before every character, in every '
        'context where they decode or must not; HTML equal to that of the reference model; '
        'outcome = the HTML')
ASSUMPTIONS = ['contexts outside the listed ones behave like those listed']

CTX = ['%s', 'a%sb', '*%s*', '# %s', '[a](b%sc)', '[a](<b%sc>)', '[a](b "c%sd")', '![a%s](b)', '[a]\n\n[a]: b%sc "d%s"', '[a]\n\n[a]: <%s>', '```%sx\n%s\n```', '~~~ a%s b',
       '`%s`', '    %s', '<a b="%s">', '<aa:%s>', '<div>%s', '> - %s', '[%s]\n\n[%s]: u', '[a]\n\n[a%s]: u', '\\%s', '[a](%s)', '[a](b (%s))']
SHORT = ['%s', '[a](b%sc)', '[a](b "c%sd")', '```%sx\n%s\n```', '`%s`']
MARK = ['*a%s', '%s a', '%sa*', '[a%s(b)', '%sa](b)', '`a%s', '# a%s', '%s# a', '1%s a', 'a  %sb', '<a%s', 'a%s\nb', 'a\n%s', '[a](b%s', '[a](b "c%s d)', '%s%s%s', '![a](%s)', '-%sa', 'a\n%s%s%s', '_%s_', '*%s*']
STRUCT = [35, 42, 95, 96, 91, 93, 40, 41, 60, 62, 45, 43, 61, 9, 10, 13, 32, 33, 38, 34, 92, 126, 49, 46, 160, 58]


def names():
    full = sorted(n[:-1] for n in html5 if n.endswith(';'))
    return full


def near(n):
    out = ['&%s' % n, '&%s;' % n.swapcase(), '&%s;' % n.lower(), '&%s;' % n.upper(), '&%sx;' % n, '&%s;' % n[:-1], '&x%s;' % n, '& %s;' % n, '&%s ;' % n, '\\&%s;' % n, '&amp;%s;' % n, '&%s1;' % n]
    return out


def literal(s):
    """a text with every punctuation character escaped, or every character written as reference, stands for itself"""
    t = s.strip(' ')
    if not t:
        return None, None
    esc = ''.join('\\' + c if c in PUNCT else c for c in t)
    ref = ''.join('&#%d;' % ord(c) for c in t)
    want = t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
    for doc, out in (('%s', '<p>%s</p>\n'), ('> - %s', '<blockquote>\n<ul>\n<li>%s</li>\n</ul>\n</blockquote>\n'), ('# %s', '<h1>%s</h1>\n'), ('*x%sx*', '<p><em>x%sx</em></p>\n'), ('[%s](<u>)', '<p><a href="u">%s</a></p>\n'),
                     ('![%s](u)', '<p><img src="u" alt="%s" /></p>\n'), ('[x](u "%s")', '<p><a href="u" title="%s">x</a></p>\n'), ('y\n%s\nz', '<p>y\n%s\nz</p>\n')):
        for form in (esc, ref):
            got = html(doc.replace('%s', form))
            if got != out.replace('%s', want):
                return differ(doc.replace('%s', form), out.replace('%s', want), got), None
    return None, want


PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'


def plan(tier):
    q = tier == 'quick'
    ns = names()
    points = sorted(set(range(0, 0x3100)) | {x + k for x in range(0, 0x120000, 0x1000) for k in (-1, 0, 1) if x + k >= 0}
                    | set(range(0xd7f0, 0xe010)) | set(range(0xfdc0, 0xfe00)) | set(range(0xfff0, 0x10010)) | set(range(0x10fff0, 0x110010)))
    return [
        Exploration('named references', Slots(CTX, ns, join=lambda t: t[0].replace('%s', '&%s;' % t[1])), conform),
        Exploration('near misses of names', Listed([c.replace('%s', x) for n in ns for x in near(n) for c in (SHORT[:1] if q else SHORT)]
                                                   + [c.replace('%s', x) for n in ns[::37] for x in near(n) for c in SHORT]), conform),
        Exploration('every numeric reference', Slots(['&#%d;', '&#x%x;'], range(0, 0x112000), join=lambda t: t[0] % t[1]), conform),
        Exploration('forms of numeric references', Slots(['&#%d;', '&#x%x;', '&#X%X;', '&#0%d;', 'a&#%d;b'], points, join=lambda t: t[0] % t[1]), conform),
        Exploration('numeric references in contexts', Slots(CTX, ['&#%d;', '&#x%x;'], list(range(0, 0x100)) + [0xd800, 0xdfff, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1f600],
                                                            join=lambda t: t[0].replace('%s', t[1] % t[2])), conform),
        Exploration('shapes of numeric references', Slots(SHORT, ['&#', '&#x', '&#X', '&', '&#x0', '&#0', '&# ', '#', '\\&#', '&&#'],
                                                          ['', '1', '12', '0', '00', '41', '065', '0000065', '00000065', '9999999', '99999999', '1234567', '12345678', 'a', 'fF', 'abcdef', 'abcdefa', '10ffff', '110000', 'ffffff', '1000000', 'g', '4g', '\u0661', '-1', '+65', '1_0', '6 5', '1.0', 'x41'],
                                                          [';', '', ' ;', ';;', ':'], join=lambda t: t[0].replace('%s', ''.join(t[1:]))), conform),
        Exploration('no part in structure', Slots(MARK, ['&#%d;', '&#x%x;', '\\%c'], STRUCT, join=lambda t: t[0].replace('%s', (t[1] % t[2]))), conform),
        Exploration('named structure', Slots(MARK, ['&ast;', '&lowbar;', '&grave;', '&lsqb;', '&rsqb;', '&lpar;', '&rpar;', '&lt;', '&gt;', '&num;', '&Tab;', '&NewLine;', '&excl;', '&amp;', '&quot;', '&bsol;', '&nbsp;', '&colon;', '&sol;', '&apos;'],
                                             join=lambda t: t[0].replace('%s', t[1])), conform),
        Exploration('a backslash before every character', Slots(
            CTX, [chr(i) for i in range(1, 0x250)] + ['\u2014', '\u3000', '\U0001f600', '\ufffd', '\ud800'], ['\\%s', '\\\\%s'], join=lambda t: t[0].replace('%s', t[2].replace('%s', t[1]))), conform),
        Exploration('info strings', Product(['&nbsp;', '&#32;', '&#9;', 'a', ' ', '\\', '&amp;', '\t', '&#10;', '*', '&#x2003;', '&Tab;', '&#96;'], 3 + (tier != 'quick'), lo=0, wraps=[('~~~', '\n~~~'), ('> ```', '\n> b'), ('~~~ ', ''), ('- ~~~ c ', ' \n  d')]), conform_info),
        Exploration('escaped text is literal', Product(list('*_`[]<>&#-+.!\\"\'()=~:1a '), 3 if q else 4), literal),
        Exploration('escapes and markup', Product(['\\', '*', '`', '[', ']', '(', 'a', '<', '>', '&amp;', '\n', '#'], 4 if q else 5), conform),
        Exploration('mixed', Product(['&', '#', 'x', '4', 'amp', ';', 'lt', '\\', 'a', 'X'], 5 if q else 6), conform),
        Exploration('repeated', pumped(['\\', '&amp;', '&', ';', '&#', '&#65;', '\\\\', '\\*', '&lt', 'amp;', '&amp', '&#x0;', '\\&', '&#38;amp;', '&copy;&', '&#'], list(range(2, 24)) + [31, 32, 33, 64, 100, 128, 256],
                                       [('', ''), ('a', '*b*'), ('`', '`'), ('[a](', ')'), ('[a](b "', '")'), ('``` ', '\n')]), conform),
        Exploration('inline texts in every place', docs.placed(), conform),
        Exploration('inlines of several blocks', docs.several(2), conform),
        Exploration('inlines of three blocks', docs.several(3, docs.FEW_PARTS if q else docs.PARTS, docs.BREAKS[:1] if q else docs.BREAKS[:2]), conform),
        Exploration('lengths', docs.lengths(of=['&', '\\']), conform, chunk=40),
        Exploration('texts mentioned in the code', docs.mentioned_places(), conform),
    ]


run = runner.make(plan)
