"""Every string is accepted: exhaustive small strings and structured documents through every output."""
import commonmark
import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('every string of the stated spaces is parsed with and without smart and rendered as HTML with no '
        'option, with all options and with mixed ones, as reStructuredText, JSON and AST listing; each '
        'must return a string within 10 s of CPU time; outcome = the outputs')
ASSUMPTIONS = ['strings outside the enumerated spaces behave like those within']


def accepted(doc):
    ast = parse(doc)
    outs = [render(ast), render(ast, safe=True, sourcepos=True, softbreak='<br />'), render(ast, softbreak=' ', sourcepos=True),
            commonmark.ReStructuredTextRenderer().render(ast), commonmark.dumpJSON(ast), ast_listing(ast)]
    ast = parse(doc, smart=True)
    outs += [render(ast, safe=True), commonmark.ReStructuredTextRenderer().render(ast), ast_listing(ast), commonmark.dumpJSON(ast)]
    for i, o in enumerate(outs):
        if not isinstance(o, str):
            return '%r: output %d is %r' % (doc, i, o), None
    return None, (outs[0], outs[3])


def simple(doc):
    """the convenience function, in its four formats"""
    for f in ('html', 'json', 'rst'):
        if not isinstance(commonmark.commonmark(doc, f), str):
            return '%r: no %s' % (doc, f), None
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()) as out:
        commonmark.commonmark(doc, 'ast')
    return None, out.getvalue()


def points(q):
    if not q:
        return range(0, 0x110000)
    return sorted(set(range(0, 0x3100)) | {x + k for x in range(0, 0x110000, 0x200) for k in (-1, 0, 1) if x + k >= 0}
                  | set(range(0xd7f0, 0xd810)) | set(range(0xdbf0, 0xdc10)) | set(range(0xdff0, 0xe010)) | set(range(0xfb00, 0xfb20)) | set(range(0xfdc0, 0xfe20)) | set(range(0xfff0, 0x10010)))


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    deep = [50, 200, 500] if q else [50, 200, 1000, 2000]
    return [
        Exploration('characters', Product(docs.CHARS, 2 + d, lo=0), accepted),
        Exploration('special characters', Product(docs.SPECIAL, 3 + d), accepted),
        Exploration('lines', docs.lines(3 + d), accepted),
        Exploration('lines of HTML', docs.tag_lines(3 + d), accepted),
        Exploration('inline constructs', docs.inlines(3 + d), accepted),
        Exploration('few special characters', Product(['*', '`', '[', ']', '<', '&', '\n', ' ', '#', '-', '\\', ':', '>'], 4 + d), accepted),
        Exploration('nested blocks', docs.nested(2 + d), accepted),
        Exploration('leaving containers', docs.leaving(2 + d), accepted),
        Exploration('written documents', docs.written(1, 1 if q else 2), accepted),
        Exploration('every character in every place', Slots(points(q), join=lambda t: docs.EVERYWHERE.replace('{c}', chr(t[0]))), accepted),
        Exploration('every character between markers', Slots(
            points(q), ['*a%s', '%s*a*', '&%s', '[%s]', '%s', '#%s', '<%s>', '`%s', '\\%s\n', '%s\n===', '-%s', '1%s', '~~~%s', '&#%s;', '[a](%s', '"%s"', '\n%s\n', '%s:', '[r]:%s', '](%s'],
            join=lambda t: t[1].replace('%s', chr(t[0]))), lambda s: simple(s)),
        Exploration('lines in contexts', Product(docs.FEW_LINES, 2 + d, sep='\n', wraps=[
            ('> ', '\n> a'), ('- ', '\n\n  a'), ('[', ']: /u'), ('```\n', '\n```'), ('# ', '#'), ('<!--', '-->'), ('*', '*'), ('![', '](u)'), ('1. > ', ''), ('[r]: ', ''), ('[r]: /u "', '"')]), accepted),
        Exploration('odd text in every place', Slots(docs.PLACES, docs.ODD, join=lambda t: t[0].replace('%s', t[1])), accepted),
        Exploration('odd pairs in every place', Slots(docs.PLACES, docs.ODD if not q else docs.ODD[:15], docs.ODD, join=lambda t: t[0].replace('%s', t[1] + t[2])), accepted if not q else simple),
        Exploration('headings', Slots(['# ', '## ', '###### ', '', '> # ', '- # '], ['', '*a*', '`a`', '[a](u)', '![a](u)', '<b>', '<cc:d>', '&amp;', '\\', '[r]', '**a** b', '![](u)', '[](u)', '\\#', '*', '#'],
                                      ['', ' #', '\n===', '\n---', '\n\n[r]: /u', ' *b*']), accepted),
        Exploration('pumped', docs.pumps(deep, wraps=[('', ''), ('a', 'a')]), accepted, chunk=1),
        Exploration('lengths', docs.lengths(docs.LONGER), accepted, chunk=40),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), accepted),
        Exploration('texts mentioned in the code', docs.mentioned_places(), accepted),
    ]


run = runner.make(plan)
