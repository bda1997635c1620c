"""Source positions: every block of every document against the positions in the reference model and in the text."""
import docs
import refmodel
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('each block is paired with the block of the reference model, which notes where it begins, the last line that '
        'gave it content and the last line on which it was open; start must be equal, end must lie between the '
        'two and within the line; independently, ranges are ordered and nested, siblings share no line and '
        'the words of every block occur in the lines it claims; outcome = all positions')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within',
               'a paragraph or heading that began with link reference definitions begins where they begin (as in commonmark.js)',
               'how many of the blank lines after its content a container or code block claims is left open']

CONTAINER = ('document', 'block_quote', 'list', 'item')
BLOCKS = CONTAINER + ('paragraph', 'heading', 'code_block', 'html_block', 'thematic_break')


def kids(node):
    out = []
    k = node.first_child
    while k is not None:
        if k.t in BLOCKS:
            out.append(k)
        k = k.nxt
    return out


def words(node):
    """runs of letters and digits in a block that come straight from its source"""
    if node.t in ('code_block', 'html_block'):
        lits = [node.literal]
        if node.t == 'code_block' and node.info:
            lits.append(node.info)
    else:
        lits = [n.literal for n, e in node.walker() if e and n.t in ('text', 'code', 'html_inline')]
    for lit in lits:
        for w in ''.join(c if c.isalnum() and c < '\x7f' else ' ' for c in lit).split():
            yield w


def check(doc, node, model, lines, parent):
    where = '%s at %r' % (node.t, node.sourcepos)
    if node.t != model.t:
        raise Bad('%s where the model has %s' % (where, model.t))
    sp = node.sourcepos
    try:
        (sl, sc), (el, ec) = sp
    except (TypeError, ValueError):
        raise Bad('%s has no position: %r' % (node.t, sp))
    if not all(type(x) is int for x in (sl, sc, el, ec)):
        raise Bad('%s: not numbers' % where)
    n = max(len(lines), 1)
    line = lambda i: lines[i - 1] if i <= len(lines) else ''
    if not 1 <= sl <= el <= n:
        raise Bad('%s: lines not in order within 1..%d' % (where, n))
    if not 0 <= ec <= len(line(el)):
        raise Bad('%s: end column beyond line %r' % (where, line(el)))
    if parent is not None:
        if not (parent.sourcepos[0][0] <= sl and el <= parent.sourcepos[1][0]):
            raise Bad('%s: outside its parent, %s at %r' % (where, parent.t, parent.sourcepos))
        if (sl, sc) < tuple(parent.sourcepos[0]) or (el, ec) > tuple(parent.sourcepos[1]):
            raise Bad('%s: columns outside its parent, %s at %r' % (where, parent.t, parent.sourcepos))
        if (el, ec) < (sl, sc):
            raise Bad('%s: ends before it starts' % where)
        if [sl, sc] != [model.first, model.col]:
            raise Bad('%s: begins at %d:%d' % (where, model.first, model.col))
        if not model.last <= el <= model.end:
            raise Bad('%s: ends between line %d and line %d' % (where, model.last, model.end))
        if el == model.last and ec < len(line(el).rstrip(' \t')) and node.t != 'item' and node.t != 'list':
            raise Bad('%s: ends before the end of %r' % (where, line(el)))
        if el == sl and node.t not in CONTAINER and sc > len(line(sl)):
            raise Bad('%s: begins beyond %r' % (where, line(sl)))
    elif [sl, sc] != [1, 1] or el != n:
        raise Bad('%s: the document is lines 1 to %d' % (where, n))
    if not 0 <= ec <= len(line(el)):
        raise Bad('%s: ends beyond %r' % (where, line(el)))
    ks = kids(node)
    ms = [m for m in model.kids if m.t != 'definitions']
    if len(ks) != len(ms):
        raise Bad('%s has %d blocks, model %d' % (where, len(ks), len(ms)))
    for a, b in zip(ks, ks[1:]):
        if not a.sourcepos[1][0] < b.sourcepos[0][0]:
            raise Bad('%s and %s share a line: %r %r' % (a.t, b.t, a.sourcepos, b.sourcepos))
    for k, m in zip(ks, ms):
        check(doc, k, m, lines, node)
    if not ks and node.t not in CONTAINER:
        text = '\n'.join(lines[sl - 1:el])
        if '&' not in doc and '\\' not in doc and '\0' not in doc:
            for w in words(node):
                if w not in text:
                    raise Bad('%s: %r is not in its lines %r' % (where, w, text))


def positions(doc):
    """blocks only: the inline content has no positions"""
    root = parse(doc)
    d = refmodel.Doc()
    lines = refmodel.split_lines(doc)
    for ln in lines:
        d.line(ln)
    model = d.close()
    try:
        check(doc, root, model, lines, None)
    except Bad as e:
        return '%r: %s\n%s' % (doc, e, '\n'.join('  %s %r' % (n.t, n.sourcepos) for n, e in root.walker() if e and n.t in BLOCKS)), None
    # the attribute tells what the tree says
    want = [n.sourcepos for n, e in root.walker() if e and n.t in BLOCKS and n.t not in ('document', 'html_block') and not (
        n.t == 'paragraph' and n.parent.t == 'item' and n.parent.parent.list_data['tight'])]
    want = ['%d:%d-%d:%d' % (p[0][0], p[0][1], p[1][0], p[1][1]) for p in want]
    h = render(root, sourcepos=True, safe=True)
    got = []
    i = h.find(' data-sourcepos="')
    while i >= 0:
        j = h.index('"', i + 17)
        got.append(h[i + 17:j])
        i = h.find(' data-sourcepos="', j)
    if want != got:
        return '%r: attributes %r, tree %r' % (doc, got, want), None
    return None, (tuple(want) or None)


def mixed(t):
    return '\n'.join(''.join(x) for x in t)


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    pre = ['', '> ', '- ', '  ', '    ', '1. ', '>', '\t', '   ', ' > - ']
    body = ['a', '# b', '```', '', '<!-- c -->', '---', 'dddd dddd  ', '<d>', '===', '# e #', '[r]: /u', '\tf', '``` ']
    full = docs.LINES + ['<!-- c', '-->', '<!-- d -->', '``` ', '  ```', 'aaaaaaaaaaaaaaaaaaaaaaaa', '> ```', '> # g', '- # h', '  ===', '~~~', '# ', '  <b>', '<?x', '?>   y', '   [s]:', ' z', '\t- k', '>\t\tl', '  - ', ' \t ']
    return [
        Exploration('lines', docs.lines(3, full), positions),
        Exploration('lines of HTML', docs.tag_lines(3), positions),
        Exploration('lines, longer', docs.lines(4 + d), positions),
        Exploration('few lines, longest', docs.lines(5 + d, ['', 'a', '> b', '- c', '    e', '```', '  g']), positions),
        Exploration('prefixes and bodies', Slots(*([[a + b for a in pre for b in body]] * 2), join='\n'.join), positions),
        Exploration('prefixes and bodies, three lines', Slots(*([[a + b for a in pre[:7] for b in body[:9]]] * 3), join='\n'.join), positions),
        Exploration('definitions', Product(['[r]: /u', '', 'a', '===', '---', '- ', '[s]: /v "t"', '  [t]:', '- [u]: w', '> [v]: x', '1. ', ' "t"', '"t'], 3 + d, sep='\n', wraps=[('', ''), ('> ', ''), ('- ', '\n  a'), ('- ', '\n\n- b')]), positions),
        Exploration('tabs', Product(['\t', '> ', '- ', 'a', ' ', '\n', '>', '-', '1.', '```', '<!--', '#'], 5 + d), positions),
        Exploration('nested blocks', docs.nested(2 + d), positions),
        Exploration('leaving containers', docs.leaving(2 + d), positions),
        Exploration('sequences of blocks', docs.blocks(3 + d), positions),
        Exploration('sequences of blocks in containers', docs.blocks(3, path=[('> ', '> '), ('- ', '  ')]), positions),
        Exploration('written documents', docs.written(1, 1 if q else 2), positions),
        Exploration('line endings', Product(['a', '\n', '\r', '\r\n', '```', '> ', '-', ' ', '<!-- -->', '# '], 5 + d), positions),
        Exploration('special characters', Product(docs.SPECIAL, 3 + d), positions),
        Exploration('pumped', docs.pumps([2, 3, 5, 9, 17, 40], fragments=docs.FRAGMENTS + ['> a\n\n', '- a\n  b\n', '    a\n', '> ```\n', '<!-- -->\n', '- # a\n\n']), positions),
        Exploration('lengths', docs.lengths(), positions, chunk=40),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), positions),
    ]


run = runner.make(plan)
