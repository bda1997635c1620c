"""Later lines never change finished blocks: every document cut after each of its lines."""
import itertools

import docs
from lib import *
import parts
import runner

LEVEL = 'exploration'
RULE = ('every document (behind definitions of all its labels) is parsed whole and cut after each of its lines; each block of the cut document that is followed by another one, or that a blank line, its marker or its '
        'length has ended, must be the block of the whole document, with all its data, positions and HTML; outcome = the blocks')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within']


def final(n, last):
    """is this block, the last one, over?"""
    return n.t in ('heading', 'thematic_break') or n.t in ('paragraph', 'block_quote') and last.strip(' \t') == ''


def cuts(doc, smart=False):
    front = parts.front(doc)
    lines = parts.lines_of(doc)
    whole = [parts.picture(n, 0) for n in parts.top(parse(front + doc, smart=smart))]
    for i in range(1, len(lines)):
        text = front + '\n'.join(lines[:i]) + '\n'
        blocks = list(parts.top(parse(text, smart=smart)))
        done = blocks[:-1]
        if blocks and final(blocks[-1], lines[i - 1]):
            done = blocks
        for k, n in enumerate(done):
            got = parts.picture(n, 0)
            if k >= len(whole) or got != whole[k]:
                return '%r\n  after line %d  %r\n  in the end   %r' % (front + doc, i, parts.short(got), parts.short(whole[k]) if k < len(whole) else None), None
    return None, tuple(w[2] for w in whole)


def smart_cuts(doc):
    return cuts(doc, True)


MORE = ['a"b', "'c", 'd" e\'', '"f', 'g -- "h', '*i', 'j* `k', 'l`', '[m', 'n](o)', '<p', 'q>', 'r\\', 's  ', '> "t', '- \'u', '', '# "v', '[w]: x', '[w] "y"', '"""', '***', '    z"']
SPANS = ['```', 'a', '', '    b', '- c', '  d', '>', '> e', '<!--', '-->', '<div>', '[f]:', '/g', '"h', 'i"', '===', '---', '1. j', '   k', '<pre>', '~~~', '[f]']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('lines', docs.lines(3 + d), cuts),
        Exploration('lines of HTML', docs.tag_lines(3 + d), cuts),
        Exploration('few lines', docs.lines(4 + d, docs.FEW_LINES), cuts),
        Exploration('constructs of several lines', Product(SPANS, 4 + d, sep='\n'), cuts),
        Exploration('smart', Product(MORE, 3 + d, sep='\n'), smart_cuts),
        Exploration('inlines', docs.inlines(3 + d), cuts),
        Exploration('nested blocks', docs.nested(2), cuts),
        Exploration('leaving containers', docs.leaving(2 + d), cuts),
        Exploration('sequences of blocks', docs.blocks(3 + d), cuts),
        Exploration('written documents', docs.written(1, 1 if q else 2), cuts),
        Exploration('pumped', docs.pumps([2, 3, 7, 20], wraps=[('', ''), ('', '\n\na')]), cuts),
        Exploration('lengths', docs.lengths((), counts=docs.SOME), cuts, chunk=40),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), cuts),
    ]


run = runner.make(plan)
