"""Entry points: the convenience function, explicit classes and explicit default options give the same result."""
import contextlib
import io

import commonmark
import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('for each document and each format, commonmark.commonmark must return exactly what Parser and the renderer or dump return when called by hand, with no options, '
        'empty options, and the default options written out, whether arguments are positional or named; the AST format is printed and returns None, nothing else prints; every other format '
        'name is refused with ValueError and without output; outcome = the HTML')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within']


def quiet(f):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        r = f()
    return r, out.getvalue(), err.getvalue()


P, H, R = commonmark.Parser, commonmark.HtmlRenderer, commonmark.ReStructuredTextRenderer


def same(doc):
    c = commonmark.commonmark
    h = H().render(P().parse(doc))
    groups = [
        ('html', (h, '', ''), [
            lambda: c(doc), lambda: c(doc, 'html'), lambda: c(doc, format='html'), lambda: c(text=doc, format='html'), lambda: c(text=doc),
            lambda: H({}).render(P({}).parse(doc)), lambda: H(options={}).render(P(options={}).parse(doc)),
            lambda: H({'safe': False, 'sourcepos': False, 'softbreak': '\n'}).render(P({'smart': False}).parse(doc)),
            lambda: H({'safe': None, 'sourcepos': 0}).render(P({'smart': 0}).parse(doc)),
            lambda: H({'smart': True, 'nosuch': 1}).render(P({'safe': True, 'sourcepos': True, 'softbreak': 'x'}).parse(doc)),
            lambda: commonmark.main.commonmark(doc)]),
        ('rst', (R().render(P().parse(doc)), '', ''), [lambda: c(doc, 'rst'), lambda: c(doc, format='rst'), lambda: R(indent_char=' ').render(P().parse(doc)), lambda: R(' ').render(P({}).parse(doc))]),
        ('json', (commonmark.dumpJSON(P().parse(doc)), '', ''), [lambda: c(doc, 'json'), lambda: c(doc, format='json')]),
        ('ast', quiet(lambda: commonmark.dumpAST(P().parse(doc))), [lambda: c(doc, 'ast'), lambda: c(text=doc, format='ast')]),
    ]
    for name, want, ways in groups:
        if name != 'ast' and type(want[0]) is not str or name == 'ast' and (want[0] is not None or want[2]):
            return '%r as %s: %r' % (doc, name, want), None
        for i, f in enumerate(ways):
            got = quiet(f)
            if got != want:
                return differ(doc, want, got) + '\n  as %s, way %d' % (name, i), None
    return None, h


BAD = ['', 'HTML', 'Html', 'htm', 'html ', ' html', 'xml', 'rest', 'RST', 'JSON', 'AST', 'text', 'md', 'commonmark', 'latex', 'man', 'html5', 'xhtml', 'js', 'a', 'htmljson', 'h', None, 0, 1, True, False, b'html', ('html',), 'html\n', 'render', 'rst_', '_', 'jsonast', 'ht', 'st']


def refused(t):
    doc, fmt, named = t
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            r = commonmark.commonmark(doc, format=fmt) if named else commonmark.commonmark(doc, fmt)
        except ValueError:
            r = ValueError
    if r is not ValueError or out.getvalue() or err.getvalue():
        return '%r with format %r: %r, printed %r' % (doc, fmt, r, out.getvalue()), None
    after = quiet(lambda: commonmark.commonmark(doc))
    want = (H().render(P().parse(doc)), '', '')
    if after != want:
        return 'after the refusal of %r: ' % (fmt,) + differ(doc, want, after), None
    return None, (doc, repr(fmt))


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('lines', docs.lines(2 + d, docs.LINES), same),
        Exploration('lines of HTML', docs.tag_lines(2 + d), same),
        Exploration('few lines', docs.lines(3 + d, docs.FEW_LINES), same),
        Exploration('inlines', docs.inlines(2 + d), same),
        Exploration('characters', Product(docs.CHARS, 2 + d), same),
        Exploration('nested blocks', docs.nested(1 + d), same),
        Exploration('sequences of blocks', docs.blocks(3 + d), same),
        Exploration('written documents', docs.written(1, 1 if q else 2), same),
        Exploration('odd text', Slots(docs.PLACES, docs.ODD, join=lambda t: t[0].replace('%s', t[1])), same),
        Exploration('the empty document', Listed(['', '\n', '\r', ' ', '\r\n\r\n', '\0', '\t\n']), same),
        Exploration('other formats', Slots(['', 'a', '*b*\n\n> c', '```', '[d]: e', '&#0;'], BAD, [True, False], join=tuple), refused),
        Exploration('lengths', docs.lengths(()), same, chunk=40),
    ]


run = runner.make(plan)
