"""The source lines of a block are the block: each top-level block parsed from the lines its position names."""
import json

import commonmark
import docs
from lib import *
import parts
import runner

LEVEL = 'exploration'
RULE = ('for every document (behind definitions of all its labels, and if it has none also alone) the lines named by the source position of each top-level block are parsed alone, and with another block before and after them; they must give that block and no other, '
        'with all its data, HTML and relative positions; outcome = the blocks')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within']
OPEN = ()


def slices(doc):
    message, blocks = slices_behind(parts.front(doc), doc)
    if message is None and '[' not in doc:
        message, blocks = slices_behind('', doc)        # the first line of all, too
    return message, blocks


def slices_behind(front, doc):
    off = front.count('\n')
    lines = [''] * off + parts.lines_of(doc)
    whole = list(parts.top(parse(front + doc)))
    used = 0
    for n in whole:
        (first, _), (last, _) = n.sourcepos
        if not off < first <= last <= max(len(lines), first):
            return '%r: position %r of %s' % (front + doc, n.sourcepos, n.t), None
        if first <= used:
            return '%r: %s starts in line %d of the block before it' % (front + doc, n.t, first), None
        used = last
        want = parts.picture(n, first, OPEN)
        text = ''.join(l + '\n' for l in lines[first - 1:last])
        for before in ('', '# x\n', '<!-- -->\n'):
            got = [parts.picture(k, off + 1 + before.count('\n'), OPEN) for k in parts.top(parse(front + before + text))]
            if before:
                got = got[1:]
            if len(got) != 1 or got[0] != want:
                return '%r\n  block %d-%d   %r\n  its lines %r alone %r' % (front + doc, first - off, last - off, parts.short(want), text, [parts.short(g) for g in got]), None
        message = inner(n, front, off, lines, doc)
        if message:
            return message, None
    return None, tuple(n.t for n in whole)


def data(n, shift):
    return json.loads(commonmark.dumpJSON(n)), parts.positions(n, shift, ())


def inner(n, front, off, lines, doc):
    """the lines of an item alone, and those of a block in a quote"""
    path = (n.t,)
    while n.t in ('block_quote', 'list'):
        for k in parts.top(n):
            (first, _), (last, _) = k.sourcepos
            text = ''.join(l + '\n' for l in lines[first - 1:last])
            got = list(parts.top(parse(front + text)))
            for t in path:
                if len(got) != 1 or got[0].t != t:
                    return '%r\n  the lines %r of the %s in %s are not one %s' % (front + doc, text, k.t, '/'.join(path), '/'.join(path))
                got = list(parts.top(got[0]))
            want = [data(x, first) for x in (parts.top(k) if k.t == 'item' else [k])]
            if k.t == 'item':
                if len(got) != 1:
                    return '%r\n  the lines %r of an item in %s are not one item' % (front + doc, text, '/'.join(path))
                got = list(parts.top(got[0]))
            if [data(x, off + 1) for x in got] != want:
                return '%r\n  %s in %s  %r\n  its lines %r alone %r' % (front + doc, k.t, '/'.join(path), want, text, [data(x, off + 1) for x in got])
        n = n.first_child
        if n is None or path[-1] == 'list':
            break
        path += (n.t,)
    return None


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('lines', docs.lines(3 + d), slices),
        Exploration('few lines', docs.lines(4 + d, docs.FEW_LINES), slices),
        Exploration('lines of HTML', docs.tag_lines(3 + d), slices),
        Exploration('inlines', docs.inlines(3 + d), slices),
        Exploration('nested blocks', docs.nested(2), slices),
        Exploration('leaving containers', docs.leaving(2 + d), slices),
        Exploration('sequences of blocks', docs.blocks(3 + d), slices),
        Exploration('sequences of blocks in containers', docs.blocks(3, path=[('> ', '> '), ('- ', '  ')]), slices),
        Exploration('written documents', docs.written(1, 1 if q else 2), slices),
        Exploration('special characters', Product(docs.SPECIAL, 3 + d), slices),
        Exploration('pumped', docs.pumps([2, 3, 7, 20], wraps=[('', ''), ('a', 'a'), ('', '\n\na')]), slices),
        Exploration('lengths', docs.lengths(()), slices, chunk=40),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), slices),
        Exploration('inlines mentioned in the code', docs.mentioned_inlines(), slices),
    ]


run = runner.make(plan)
