"""Line endings and NUL: every mixture of line endings, and NUL in every place, through every output."""
import itertools

import commonmark
import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('the same lines are written with LF and with each mixture of LF, CR and CRLF, with and without a final one, and each '
        'document with NUL is compared with the one that has U+FFFD in its place; HTML (plain, and smart with all options), '
        'reStructuredText, JSON and AST listing must be identical and free of CR and NUL; outcome = the HTML')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within']


def outputs(doc):
    ast = parse(doc)
    yield 'HTML', render(ast)
    yield 'rst', commonmark.ReStructuredTextRenderer().render(ast)
    yield 'JSON', commonmark.dumpJSON(ast)
    yield 'AST', ast_listing(ast)
    ast = parse(doc, smart=True)
    yield 'smart HTML', render(ast, safe=True, sourcepos=True, softbreak='<br />')


def compare(a, b, names):
    for (what, x), (_, y) in zip(outputs(a), outputs(b)):
        if x != y:
            return '%s of %r and %r\n  %-9s %r\n  %-9s %r' % (what, a, b, names[0], x, names[1], y)


ENDS = ('\n', '\r', '\r\n')


def endings(lines):
    """lines without line endings in them"""
    n = len(lines) - 1
    plain = '\n'.join(lines)
    if not lines[-1]:
        plain += '\n'               # or the line before would be the last
    want = list(outputs(plain))
    for what, x in want:
        if '\r' in x or '\0' in x:
            return '%s of %r contains CR or NUL: %r' % (what, plain, x), None
    for mix in itertools.product(ENDS, repeat=n):
        for last in ('', '\n', '\r', '\r\n'):
            ends = mix + (last,)
            if any(e == '\r' and f == '\n' and not l for e, f, l in zip(ends, ends[1:], lines[1:])):
                continue            # that is CRLF
            if last == '' and n and not lines[-1]:
                continue            # then the line before would be the last
            doc = ''.join(a + b for a, b in zip(lines, ends))
            for (what, x), (_, y) in zip(want, outputs(doc)):
                if x != y:
                    return '%s of %r and %r\n  %r\n  %r' % (what, plain, doc, x, y), None
    return None, (want[0][1] or None)


def endings_of(doc):
    return endings(doc.split('\n'))


def uniform(doc):
    """one kind of ending throughout"""
    body = doc[:-1] if doc.endswith('\n') else doc
    for e in ('\r', '\r\n'):
        for last in ('', e):
            if last == '' and body.endswith('\n'):
                continue
            other = body.replace('\n', e) + last
            m = compare(body if last == '' or not body.endswith('\n') else body + '\n', other, ('LF', repr(e)))
            if m:
                return m, None
    return None, (html(body) or None)


def nul(doc):
    other = doc.replace('\0', '\ufffd')
    m = compare(doc, other, ('NUL', 'U+FFFD'))
    if m:
        return m, None
    for what, x in outputs(doc):
        if '\0' in x or '\\u0000' in x:
            return '%s of %r contains NUL: %r' % (what, doc, x), None
    return None, (html(doc) if '\0' in doc else None)


def nul_each(doc):
    """NUL before every character and at the end"""
    for i in range(len(doc) + 1):
        m, o = nul(doc[:i] + '\0' + doc[i:])
        if m:
            return m, None
    for i in range(len(doc)):
        m, _ = nul(doc[:i] + '\0' + doc[i + 1:])
        if m:
            return m, None
    return None, o


# around the sizes of blocks and buffers
FAR = sorted(set([2 ** k + i for k in range(6, 18) for i in (-2, -1, 0, 1)] + [10 ** k + i for k in range(2, 6) for i in (-2, -1, 0, 1)] + [3 * 2 ** 14 - 1, 5 * 2 ** 14 - 1]))


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    lines = docs.LINES + ['a  ', 'a\\', '[x](y', '"z")', '`b', 'c`', '<d', 'e>', '*f', 'g*', '<!--', '-->', '[r]:', '/u', '"t"', ' ', '\t', '```', '~~~', '[', ']', '&amp', ';', '> ', '- ', '\x0b', '\x85', '\u2028', '\x0c', '\x1c']
    lines = list(dict.fromkeys(lines))
    lists = lambda toks, n: Mapped(Product(toks, n, sep='\n'), lambda s: s.split('\n'))
    every = [docs.EVERYWHERE.replace('{c}', c) for c in ('a', '', ' ', '*', '`', '&amp;', '\\', '<b>')]
    return [
        Exploration('mixtures, two lines', lists(lines, 2), endings),
        Exploration('mixtures, three lines', lists(docs.FEW_LINES + ['a  ', 'b\\', ' '], 3 + d), endings),
        Exploration('mixtures, four lines', lists(['', 'a', '> b', '- c', '    e', '```'] + ([] if q else ['<!--', '[r]:', '`']), 4), endings),
        Exploration('uniform, lines', docs.lines(3 + d), uniform),
        Exploration('lines of HTML', docs.tag_lines(2 + d), uniform),
        Exploration('uniform, inlines', docs.inlines(3 + d), uniform),
        Exploration('uniform, nested blocks', docs.nested(2), uniform),
        Exploration('sequences of blocks', docs.blocks(3 + d), uniform),
        Exploration('written documents', docs.written(1, 1 if q else 2), uniform),
        Exploration('uniform, everything', Listed(every), uniform),
        Exploration('NUL among characters', Product(['\0', '*', '_', '`', '[', ']', '(', ')', '<', '>', '!', '&', '#', '-', '1.', '\n', ' ', 'a', '\\', ':', '"', '=', '/'], 3 + d, wraps=[('', ''), ('\n\n[\0]: <', '')]), nul),
        Exploration('NUL at each point of lines', docs.lines(2 + d), nul_each),
        Exploration('NUL at each point of inlines', docs.inlines(2 + d), nul_each),
        Exploration('NUL at each point of nesting', docs.nested(1 + d, pairs=False), nul_each),
        Exploration('NUL everywhere', Listed([docs.EVERYWHERE.replace('{c}', c) for c in ('\0', '\0\0', 'a\0', '\0b', ' \0 ')] + ['\0' * n for n in range(1, 20)] + [a + '\0' + b for a in ('&#0;', '&#x0;', '\\', '&#', '%', '&#000;') for b in ('', 'x', '\n', ';')]), nul),
        Exploration('NUL as a reference', Slots(docs.PLACES if hasattr(docs, 'PLACES') else ['%s', '[a](%s)', '`%s`', '[a](u "%s")', '```%s\n```', '    %s', '<a b="%s">', '[%s]: /u\n\n[%s]'], ['&#0;', '&#x0;', '&#00;', '&#X000000;', '\\\0', '%00', '&#\0;', '&NUL;'], join=lambda t: t[0].replace('%s', t[1])), nul),
        Exploration('far into a text', Slots(['\na', '\n\n- b\n', '\n'], FAR, [lambda n: 'a' * n, lambda n: 'a b ' * (n // 4) + 'c' * (n % 4), lambda n: '\n' * n] if not q else [lambda n: 'a' * n], join=lambda t: t[2](t[1]) + t[0]), uniform, chunk=4),
        Exploration('NUL far into a text', Slots(FAR, ['', '\n'], join=lambda t: 'a' * t[0] + t[1] + '\0\0' + t[1]), nul, chunk=4),
        Exploration('lengths', docs.lengths((), counts=docs.SOME), uniform, chunk=40),
    ]


run = runner.make(plan)
