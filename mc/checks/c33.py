"""The tree itself: node types, nesting and data equal those of the reference model, also where HTML does not show them."""
import docs
import refmodel
from lib import *
import runner

LEVEL = 'model_checking'
RULE = ('the parse tree - types and nesting of all nodes (inside image descriptions too), heading levels, list type, start, delimiter, bullet and tightness, info strings, literals, '
        'destinations and titles, with adjacent texts joined - is compared with the tree of the reference model; outcome = the tree')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within']

DELIM = {'.': 'period', ')': 'paren'}


def joined(nodes):
    out = []
    for x in nodes:
        if x[0] == 'text':
            if not x[1]:
                continue
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + x[1])
                continue
        out.append(x)
    return out


def model_inlines(nodes):
    out = []
    for x in nodes:
        t = x[0]
        if t in ('emph', 'strong'):
            out.append((t, model_inlines(x[1])))
        elif t in ('link', 'image'):
            out.append((t, x[1], x[2] or '', model_inlines(x[3])))
        elif t in ('text', 'code', 'html'):
            out.append((t, x[1]))
        else:
            out.append((t,))
    return joined(out)


def model_block(b):
    t = b.t
    if t in ('paragraph', 'heading'):
        return (t, b.a.get('level') if t == 'heading' else None, model_inlines(b.inl))
    if t == 'code_block':
        return (t, b.a.get('info', ''), b.a['literal'])
    if t == 'html_block':
        return (t, b.a['literal'])
    kids = [model_block(k) for k in b.kids if k.t != 'definitions']
    if t == 'list':
        return (t, b.a['mark'], b.a['start'] if b.a['mark'][0] == 'ordered' else None, refmodel.tight(b), kids)
    return (t, kids)


NAMES = {'softbreak': 'soft', 'linebreak': 'hard', 'html_inline': 'html'}


def children(n):
    k = n.first_child
    while k is not None:
        yield k
        k = k.nxt


def code_inline(n):
    t = NAMES.get(n.t, n.t)
    if t in ('emph', 'strong'):
        return (t, joined([code_inline(k) for k in children(n)]))
    if t in ('link', 'image'):
        # without a title it is the empty string, for links of every kind
        return (t, n.destination, n.title, joined([code_inline(k) for k in children(n)]))
    if t in ('text', 'code', 'html'):
        return (t, n.literal)
    return (t,)


def code_block(n):
    t = n.t
    if t in ('paragraph', 'heading'):
        return (t, n.level, joined([code_inline(k) for k in children(n)]))
    if t == 'code_block':
        return (t, n.info or '', n.literal)
    if t == 'html_block':
        return (t, n.literal)
    kids = [code_block(k) for k in children(n)]
    if t == 'list':
        d = n.list_data
        return (t, (d['type'], d['bullet_char'] if d['type'] == 'bullet' else d['delimiter']), d['start'], d['tight'], kids)
    return (t, kids)


def trees(doc, smart=False):
    want = model_block(refmodel.parse(doc, smart))
    got = code_block(parse(doc, smart=True) if smart else parse(doc))
    if got != want:
        return differ(doc, want, got, 'model', 'tree'), None
    return None, repr(want)


@refmodel.deep
def deeply(doc):
    return both(doc)


def both(doc):
    message, outcome = trees(doc)
    if message is None:
        message, _ = trees(doc, True)
    return message, outcome


IN_IMAGE = ['a', '*', '**', '_', '`', '[', '](u)', '](v "w")', '![', '<b>', '<cc:d>', '\n', '  \n', '\\\n', '&amp;', ']', '\\', '[r]', '"', '<e@f>', '<!-- g -->']
LISTS = ['', '- a', '* b', '+ c', '1. d', '1) e', '2. f', '007. g', '0) h', '123456789. i', '  - j', '   2) k', '  l', '-', '1.', '> m', '    n', '***', '- - o', '[p]: q']
DATA = ['```a b\nc\n```', '~~~ d&amp;e\\* f\n~~~', '``` \ng', '    h', '<div>\ni', '<!-- j', '<b>k</b>', '[l](m "n")', '![o *p* [q](r)](s \'t\')', '# u `v`', 'w\n---', '[x]: y', '<zz:a>', 'b  \nc\\\nd', '7) e', '+ f', '```\n\n```', '~~~~ x y\t z \n\n', '&copy; \\& "g"', '    \n    h\n\n', '<i@j.k>']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('lines', docs.lines(3 + d), trees),
        Exploration('lines of HTML', docs.tag_lines(3 + d), trees),
        Exploration('few lines', docs.lines(4 + d, docs.FEW_LINES, lo=4), trees),
        Exploration('list lines', docs.lines(3 + d, LISTS), trees),
        Exploration('inlines', docs.inlines(3 + d), trees),
        Exploration('few inlines, plain and smart', docs.inlines(4 if q else 5, docs.FEW_INLINES, lo=4), both if not q else trees),
        Exploration('in image descriptions', Product(IN_IMAGE, 3 + d, wraps=[('![', '](x "y")\n\n[r]: /s "t"\n')]), trees),
        Exploration('images in images and links', Product(['![', '](u)', '[', '](v "w")', ' ', 'a', '*', ']', '[]', '[r]'], 5 + d, lo=4, wraps=[('![', '](x)\n\n[r]: /s "t"\n'), ('[', '](x)\n\n[r]: /s "t"\n')]), trees),
        Exploration('data', Slots(DATA, DATA, ['\n', '\n\n', '\n\n> ', '\n  '], join=lambda t: t[0] + t[2] + t[1]), both),
        Exploration('nested blocks', docs.nested(2 + d), trees),
        Exploration('leaving containers', docs.leaving(2 + d), trees),
        Exploration('sequences of blocks', docs.blocks(3 + d), trees),
        Exploration('sequences of blocks in containers', docs.blocks(3, path=[('> ', '> '), ('- ', '  ')]), trees),
        Exploration('written documents', docs.written(1, 1 if q else 2), both),
        Exploration('odd text', Slots(docs.PLACES, [o for o in docs.ODD if o != '\ud800'], join=lambda t: t[0].replace('%s', t[1])), both),
        Exploration('pumped', docs.pumps([2, 3, 4, 5, 7, 9, 10, 11, 16, 17, 33, 65, 100] if q else list(range(2, 66)) + [100, 128, 129, 256]), trees),
        Exploration('inline texts in every place', docs.placed(), deeply),
        Exploration('inlines of several blocks', docs.several(2), deeply),
        Exploration('inlines of three blocks', docs.several(3, docs.FEW_PARTS if q else docs.PARTS, docs.BREAKS[:1] if q else docs.BREAKS[:2]), deeply),
        Exploration('lengths', docs.lengths(), deeply, chunk=40),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), trees),
        Exploration('inlines mentioned in the code', docs.mentioned_inlines(), both),
        Exploration('texts mentioned in the code', docs.mentioned_places(), both),
    ]


run = runner.make(plan)
