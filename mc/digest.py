"""All outputs for one document as one digest (used by check C34 in its parent and in its children)."""
import contextlib
import hashlib
import io

import commonmark


def outputs(doc):
    ast = commonmark.Parser().parse(doc)
    smart = commonmark.Parser({'smart': True}).parse(doc)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        commonmark.dumpAST(ast)
    return [commonmark.HtmlRenderer().render(ast),
            commonmark.HtmlRenderer({'safe': True, 'sourcepos': True, 'softbreak': '<br />'}).render(smart),
            commonmark.ReStructuredTextRenderer().render(ast), commonmark.dumpJSON(smart), buf.getvalue()]


def of(doc):
    return hashlib.sha1(ascii(outputs(doc)).encode('ascii')).hexdigest()[:16]
