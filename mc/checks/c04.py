"""Tabs as four-column tab stops: every placement of tabs among markers and content, code against the column model."""
import engine
import statespace
from lib import *

LEVEL = 'model_checking'
RULE = ('the reference model keeps a line as one cell per column; every string over tabs, spaces, '
        'markers and text up to the stated length, alone and after lines that open containers, is '
        'run on the code and the HTML compared; the relation "tabs written as spaces" is checked '
        'on the code itself; outcome = the HTML')
ASSUMPTIONS = ['lines outside the alphabets behave like those within']

LINES = ['', 'a', '\ta', '\t\ta', ' \ta', '  \ta', '   \ta', '-\ta', '- \ta', '-\t\ta', '>\ta', '> \ta', '>\t\ta', '1.\ta', '10.\ta',
         '\t- a', ' -\ta', '  -\t a', '>-\ta', '>\t-\ta', '\t', '-\t', '>\t', '\t\t', '> -\t\ta', '#\ta', '```\tx', '\t```', '>\t```',
         '-\t>\ta', 'a\tb', '    a', '-     a', '>     a', '\t    a', '    \ta', '*\t*\t*']
SUFFIXES = [(), ('\ta',), ('', '\ta'), ('', '\t\ta'), ('  \ta',), ('>\ta',), ('', ' \ta'), ('\t- b',), ('>\t\tb',), ('  b', ''), ('', '    b')]


def structural(doc):
    """the document with the tabs of every line's run of white space and markers expanded

    Only for documents whose content is single letters, so that what follows the first
    letter of a line is no structure."""
    out = []
    for line in doc.split('\n'):
        col = 0
        s = ''
        for c in line:
            if c == '\t':
                w = 4 - col % 4
                s += ' ' * w
                col += w
            else:
                s += c
                col += 1
        out.append(s)
    return '\n'.join(out)


def shape(doc):
    """block structure of a document: the tree of block types"""
    out = []
    for node, entering in parse(doc).walker():
        if node.t in ('text', 'softbreak', 'linebreak', 'code', 'html_inline', 'emph', 'strong', 'link', 'image'):
            continue
        out.append((node.t, entering, node.level if node.t == 'heading' else None))
    return out


def same_shape(doc):
    a, b = shape(doc), shape(structural(doc))
    if a != b:
        return '%r\n  with tabs   %r\n  with spaces %r' % (doc, a, b), None
    return None, tuple(a) if '\t' in doc else None


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    conf = statespace.Conformance(LINES, 3 if q else 4, 3, SUFFIXES)
    chars = ['\t', ' ', '>', '-', 'a', '\n']
    return [
        Exploration('reachable states x lines', conf, conform),
        Exploration('characters', Product(chars, 7 + d), conform),
        Exploration('second line', Product(['\t', ' ', '>', '-', 'a', '1.'], 5 + d, wraps=[
            ('- a\n', ''), ('- a\n\n', 'b'), ('> a\n', 'b'), ('> - a\n', 'b'), ('10. a\n\n', 'b'), (' - a\n\n', 'b'), ('- > a\n', 'b'),
            ('   1. - a\n\n', 'b')]), conform),
        Exploration('white space runs', Slots(
            ['', '- a\n\n', '> a\n>\n', '> ', '- ', '1. ', '>- ', '- - a\n\n', '    a\n\n', '-\ta\n\n', '> > ', '- 1. a\n\n', '```\n', '  ```\n', '> ```\n> '],
            [''.join(x) for n in range(0, 6) for x in __import__('itertools').product(' \t', repeat=n)],
            ['a', 'a\tb', '- a', '> a', '# a', '```', '---', '\na', '1.\ta', '<div>', 'a\t', '>\ta', '\u2192'],
            ['', '\n\tb']), conform),
        Exploration('after markers', Slots(
            ['', ' ', '  ', '   ', '\t', '> ', '>', '- '], ['-', '+', '1.', '1)', '10.', '123.', '1234.', '>', '>>', '#', '##'],
            [''.join(x) for n in range(0, 5) for x in __import__('itertools').product(' \t', repeat=n)],
            ['a', '- a', '> a', '\ta', ''], ['', '\n\n\tb', '\n\n  b', '\n\t\tb', '\n>\tb']), conform),
        Exploration('tabs in content', Product(
            ['\t', 'a', '`', '*', '\n', '  ', '\\', '[', '](', '"'], 4 + d, wraps=[('', ''), ('# ', ''), ('    ', ''), ('```\n', ''), ('<div>', ''), ('> a', ''), ('- a', 'b')]),
            conform),
        Exploration('tabs after structure', Slots(
            ['---', '***', '# a #', 'a\n===', 'a\n---', '```\na\n```', '[r]: /u', '[r]: /u "t"', '-', '1.', '>', '```x', '<x>', '<div>', '- - -', '#', 'a', '\t', ' '],
            ['\t', ' \t', '\t\t', '\t ', '\ta', '\t#', '\t-', '\t>', '\t"t"'], ['', '\n[r]', '\n\n[r]', '\n\tb', '\n\n\tb']), conform),
        Exploration('tabs as spaces', Product(['\t', ' ', '>', '-', 'a', '\n'], 6 + d, lo=2), same_shape),
        Exploration('tabs as spaces, lines', Product([x for x in LINES if 'a\t' not in x], 3, sep='\n', lo=1), same_shape),
        Exploration('pumped', pumped(
            ['\t', '>\t', '-\t', ' \t', '\t ', '> \t', '-\t\t', '1.\t'], list(range(1, 21)) + [40, 64],
            [('', 'a'), ('- a\n\n', 'b'), ('> ', 'a'), ('', 'a\n\n\tb'), ('a\n', 'b')]), conform),
    ]


def run(tier, result, deadline):
    p = plan(tier)
    c = p[0].space
    engine.explore(p, result, deadline)
    result.extra['states'] = c.states
    result.extra['transitions'] = c.transitions
    result.extra['traces'] = result.evaluations
    result.extra['frontier_at_depth_limit'] = c.open
    result.extra['distinct_outputs'] = len(result.outcomes)
