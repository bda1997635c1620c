"""Calls into the code under test (public interface only), and shared judges."""
import contextlib
import io
import sys

import commonmark
import refmodel
from commonmark import Parser, HtmlRenderer, ReStructuredTextRenderer, dumpJSON
from engine import Bad, Exploration, Product, Listed, Slots, Mapped, Union  # noqa: F401


def parse(text, **opts):
    return Parser(dict(opts)).parse(text)


def html(text, smart=False, **opts):
    ast = Parser({'smart': True} if smart else {}).parse(text)
    return HtmlRenderer(dict(opts)).render(ast)


def render(ast, **opts):
    return HtmlRenderer(dict(opts)).render(ast)


def rst(text):
    return ReStructuredTextRenderer().render(Parser().parse(text))


def ast_listing(ast):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        commonmark.dumpAST(ast)
    return buf.getvalue()


def differ(doc, want, got, what='expected', other='got'):
    return '%s\n  %-9s %r\n  %-9s %r' % (repr(doc), what, want, other, got)


def conform(doc):
    """the HTML of the implementation is the HTML of the reference model"""
    got = html(doc)
    want = refmodel.to_html(doc)
    if got != want:
        return differ(doc, want, got, 'model', 'code'), None
    return None, want


def conform_info(doc):
    """and so are the info strings in the tree"""
    message, outcome = conform(doc)
    if message is None:
        got = [n.info or '' for n, e in parse(doc).walker() if n.t == 'code_block']
        want = []

        def collect(b):
            if b.t == 'code_block':
                want.append(b.a.get('info', ''))
            for k in b.kids:
                collect(k)
        collect(refmodel.parse(doc))
        if got != want:
            return differ(doc, want, got, 'model', 'info'), None
    return message, outcome


def conform_smart(doc):
    got = html(doc, smart=True)
    want = refmodel.to_html(doc, True)
    if got != want:
        return differ(doc, want, got, 'model', 'code'), None
    return None, want


def pumped(fragments, counts, wraps=(('', ''),), join=''):
    """every fragment repeated n times, in every context, for every n"""
    return Slots([n for n in counts], list(fragments), list(wraps),
                 join=lambda t: t[2][0] + join.join([t[1]] * t[0]) + t[2][1],
                 about='%d fragments x %d repeat counts x %d contexts' % (
                     len(fragments), len(counts), len(wraps)))
