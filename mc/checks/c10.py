"""Well-formed, escaped HTML: every output of the enumerated documents is recognised by a strict grammar."""
import re

import docs
import htmlcheck
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('the HTML of every document is read by a strict recogniser of the documented elements and '
        'their nesting; raw HTML pieces are first replaced in the tree by a neutral mark, and the real '
        'output must be that output with the pieces put back verbatim (escaped inside image '
        'descriptions); the escapes in the output must be, in order, those of the special characters in the texts and attributes of the tree; outcome = the HTML; trivial = the empty output')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within']

MARK = '\ue000%d\ue001'


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def escapes(ast):
    """the characters that need escaping in the HTML of the tree, in order"""
    alt = 0
    out = []
    for n, entering in ast.walker():
        if n.t == 'image':
            alt -= not entering
            if not alt:
                out.append(n.destination if entering else n.title)
            alt += entering
        elif not entering:
            continue
        elif n.t == 'link' and not alt:
            out += [n.destination, n.title]
        elif n.t == 'code_block':
            out += [(n.info or '').split()[:1], n.literal]
        elif n.literal:
            out.append(n.literal)
    return [c for x in out for y in ([x] if not isinstance(x, list) else x) for c in (y or '') if c in '&<>"']


NAMED = {'&amp;': '&', '&lt;': '<', '&gt;': '>', '&quot;': '"'}


def wellformed_with(doc, smart, **opts):
    out = render(parse(doc, smart=smart), **opts)
    ast = parse(doc, smart=smart)
    raw = []
    alt = 0
    for node, entering in ast.walker():
        if node.t == 'image':
            alt += 1 if entering else -1
        elif node.t in ('html_inline', 'html_block'):
            raw.append((MARK % len(raw), node.literal, alt > 0))
            node.literal = MARK % (len(raw) - 1)
    body = render(ast, **opts)
    want = body
    try:
        if raw and not opts.get('safe'):
            # an HTML block stands where no text may; take it out for the grammar
            plain = body
            for m, lit, _ in raw:
                plain = plain.replace(m, '')
            htmlcheck.check(plain, bool(opts.get('sourcepos')), False)
            for m, lit, in_alt in raw:
                if body.count(m) != 1:
                    return '%r\n  raw piece %r occurs %d times in %r' % (doc, lit, body.count(m), body), None
                want = want.replace(m, esc(lit) if in_alt else lit)
        else:
            for m, lit, in_alt in raw:
                want = want.replace(m, esc(lit))
            htmlcheck.check(out, bool(opts.get('sourcepos')), bool(opts.get('safe')))
    except htmlcheck.Malformed as e:
        return '%r with %r\n  %s\n  %r' % (doc, opts, e, out), None
    if not opts.get('safe'):
        have = [NAMED[x] for x in re.findall('&(?:amp|lt|gt|quot);', body)]
        if have != escapes(ast):
            return '%r\n  characters to be escaped %r\n  escapes in the output    %r\n  %r' % (doc, ''.join(escapes(ast)), ''.join(have), out), None
    if out != want:
        return '%r with %r\n  output %r\n  is not the marked output with raw pieces put back %r' % (doc, opts, out, want), None
    return None, out


def wellformed(doc):
    m, o = wellformed_with(doc, False)
    if m:
        return m, None
    m, _ = wellformed_with(doc, True, sourcepos=True)
    if m:
        return m, None
    m, _ = wellformed_with(doc, True, safe=True, sourcepos=True, softbreak='<br />')
    if m:
        return m, None
    return None, o or None


EV = ['<', '>', '&', '"', '&lt;', '&quot;', '&amp;', "'", '&#60;', '&#34;', '\\<', '\\"', '\\&', '&gt', '&&', '">', '<a', '&amp', '<!--', '"<&>']



def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('special text in every place', Slots(docs.PLACES, [''.join(x) for n in (1, 2) for x in __import__('itertools').product(EV, repeat=n)],
                                                         join=lambda t: t[0].replace('%s', t[1])), wellformed),
        Exploration('inline constructs', docs.inlines(3 + d), wellformed),
        Exploration('few inline constructs', docs.inlines(4 + d, docs.FEW_INLINES), wellformed),
        Exploration('image descriptions', Product(
            ['*', '**', '`', '[', '](v)', '![', '](w "x")', '<b>', '</b>', '<cc:d>', '\n', '  \n', '\\\n', '"', '<', '&', 'a'], 3 + d, wraps=[('![', '](u)'), ('![a![', ']()](u "t")'), ('[![', '](u)](y)')]), wellformed),
        Exploration('lines', docs.lines(3 + d), wellformed),
        Exploration('lines of HTML', docs.tag_lines(3 + d), wellformed),
        Exploration('lines, longer', docs.lines(4 + d, docs.FEW_LINES), wellformed),
        Exploration('nested blocks', docs.nested(2 + d), wellformed),
        Exploration('sequences of blocks', docs.blocks(3 + d), wellformed),
        Exploration('sequences of blocks in containers', docs.blocks(3, path=[('> ', '> '), ('- ', '  ')]), wellformed),
        Exploration('written documents', docs.written(1, 1 if q else 2), wellformed),
        Exploration('special characters', Product(docs.SPECIAL, 3 + d), wellformed),
        Exploration('every character in every place', Slots(
            [i for i in range(1, 0x250)] + [0x2028, 0x3000, 0xd800, 0xdfff, 0xfeff, 0xfffe, 0x1f600] if q else [i for i in range(1, 0x110000) if not 0xe000 <= i <= 0xe001],
            [p for p in docs.PLACES if 'div' not in p and '<b' not in p] if q else docs.PLACES[:40:3], join=lambda t: t[1].replace('%s', chr(t[0]))), wellformed),
        Exploration('pumped', docs.pumps([2, 3, 5, 9, 17, 40] if q else [2, 3, 5, 9, 17, 40, 100, 257]), wellformed),
        Exploration('inline texts in every place', docs.placed(docs.FEW_PARTS if q else docs.PARTS), wellformed),
        Exploration('inlines of several blocks', docs.several(2), wellformed),
        Exploration('inlines of three blocks', docs.several(3, docs.FEW_PARTS if q else docs.PARTS, docs.BREAKS[:1] if q else docs.BREAKS[:2]), wellformed),
        Exploration('lengths', docs.lengths(), wellformed, chunk=40),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), wellformed),
        Exploration('texts mentioned in the code', docs.mentioned_places(), wellformed),
    ]


run = runner.make(plan)
