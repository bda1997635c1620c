"""Composition: every document inside quotes and items, and pairs of documents side by side."""
import itertools

import docs
import refmodel
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('each document is parsed alone and (a) with every line prefixed by a quote marker, (b) indented under a list marker, (c) in stacks of both, '
        '(d) before and after another document with a closed block between; the HTML must be that of the parts, wrapped or joined (an item\'s '
        'list is rendered loose for the comparison); outcome = the HTML; trivial = documents outside the stated conditions')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within',
               'documents with tabs are excluded (prefixing moves their tab stops; C04 covers them), as are items whose document begins with a blank or '
               'slightly indented line, and joining after a document that leaves a fence or an HTML block open']


def quote(doc, marker):
    out = []
    for ln in doc.split('\n'):
        if marker == '>' and ln[:1] == ' ':
            out.append('> ' + ln)
        else:
            out.append(marker + ln)
    return '\n'.join(out)


def item(doc, marker, bare=True):
    """None if the document cannot be the content of an item as it is"""
    ls = doc.split('\n')
    first = ls[0]
    if first.strip(' ') == '' or (first[0] == ' ' and (not first.startswith('    ') or marker.endswith('  '))):
        return None
    if marker[0] == '*' and set(first) <= set('* ') and first.count('*') >= 2:
        return None         # the marker and the first line make a thematic break
    pad = ' ' * len(marker)
    return '\n'.join([marker + first] + [(pad + x) if x or not bare else '' for x in ls[1:]])


def wrapped_html(doc, path):
    """HTML of the document inside the containers of path, lists rendered loose"""
    ast = parse(doc)
    node = ast
    for kind, marker in path:
        kids = []
        k = node.first_child
        while k is not None:
            kids.append(k)
            k = k.nxt
        if len(kids) != 1:
            raise Bad('%d blocks instead of one %s' % (len(kids), kind))
        node = kids[0]
        if kind == 'quote':
            if node.t != 'block_quote':
                raise Bad('a %s instead of a quote' % node.t)
        else:
            if node.t != 'list' or node.first_child is not node.last_child:
                raise Bad('a %s instead of a list of one item' % node.t)
            node.list_data['tight'] = False
            node = node.first_child
    return render(ast)


def put_in(body, path):
    for kind, marker in reversed(path):
        if kind == 'quote':
            body = '<blockquote>\n%s</blockquote>\n' % body
        elif marker[0].isdigit():
            n = int(marker.rstrip('.) '))
            body = '<ol%s>\n<li>%s</li>\n</ol>\n' % ('' if n == 1 else ' start="%d"' % n, body and '\n' + body)
        else:
            body = '<ul>\n<li>%s</li>\n</ul>\n' % (body and '\n' + body)
    return body


def inside(doc, path, bare):
    for kind, marker in reversed(path):
        doc = quote(doc, marker) if kind == 'quote' else item(doc, marker, bare)
        if doc is None:
            return None
    return doc


def nested_in(t):
    doc, path = t
    if '\t' in doc:
        return None, None
    want = put_in(html(doc), path)
    if doc.endswith('\n'):
        doc = doc[:-1]          # the end of the last line, not a line
    done = False
    for bare in (True, False):
        d = inside(doc, path, bare)
        if d is None:
            continue
        d += '\n'
        done = True
        try:
            got = wrapped_html(d, path)
        except Bad as e:
            return '%r inside %r is %r: %s' % (doc, path, d, e), None
        if got != want:
            return '%r inside %r is\n%s' % (doc, path, differ(d, want, got, 'wrapped', 'got')), None
    return None, ((want, len(path)) if done else None)


SEPS = [('\n\n***\n\n', '<hr />\n'), ('\n\n<!-- x -->\n\n', '<!-- x -->\n'), ('\n\n# h\n\n', '<h1>h</h1>\n'), ('\n\n~~~\nf\n\n~~~\n', '<pre><code>f\n\n</code></pre>\n'), ('\n\n<?x\n\n?>\n', '<?x\n\n?>\n')]
DEFS = '\n\n[r]: /u'


def closes(doc):
    d = refmodel.Doc()
    for ln in refmodel.split_lines(doc):
        d.line(ln)
    if len(d.stack) > 1:
        b = d.stack[1]
        if b.t == 'code_block' and b.a['fence']:
            return False
        if b.t == 'html_block' and b.a['kind'] <= 5:
            return False
    return True


def joined(t):
    a, b, sep = t
    if not closes(a) or not closes(b):
        return None, None
    want = html(a + DEFS) + sep[1] + html(b + DEFS)
    got = html(a + sep[0] + b + DEFS)
    if got != want:
        return differ(a + sep[0] + b + DEFS, want, got, 'parts', 'whole'), None
    return None, want


def paths(depth):
    one = [('quote', '> '), ('quote', '>'), ('item', '+ '), ('item', '1. '), ('item', '10) '), ('item', '*   ')]
    return [p for k in range(1, depth + 1) for p in itertools.product(one, repeat=k)]


SPANS = ['<!A', 'b>', 'b >c', '<?x', 'y?>', '<!--', '-->', '<![CDATA[', ']]>', '<pre>', '</pre>', '<div>', '<x', 'y>', '<x y="', '">', '~~~', '~~~ x', '~~~~', '````', '', 'a', '*b', 'c*', '`d', 'e`', '[f', 'g]', '](u', '"t")', '[r]:', '/u', '"v', 'w"', '===', '=', '---', '-', '1.', '>', '+', '#', '# #', '\\', 'h\\', 'i  ', '    j', '     k', '      ', ' l', '   m', '&#32;', '<!--a-->', '<a b="', '- n', '10. o', '2. p', '|', '    - q', '   1) r', 's\n***', '>t']
OFFSET = ['  ***', ' # a', '   ~~~', '  > b', ' <div>', '   - c', ' ===', '  -', '  <!--', '   2. d', '  [r]: /v', '  ---', '   e', ' ```f', '   _ _ _']
SPANS_FEW = ['<!A', 'b >c', '<?x', '?>', '<!--', '-->', '<pre>', '</pre>', '<x y="', '">', '~~~', '', '*b', 'c*', '[r]:', '"v', '===', '-', '    j', '1. o', '> p', '  l']


def listed(space):
    return [space.item(i) for i in range(space.size)]


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    p1, p2, p3 = paths(1), paths(2), paths(3)
    deep = [tuple(itertools.islice(itertools.cycle(c), n)) for n in ((12, 40) if q else (12, 40, 150)) for c in (
        [('quote', '> ')], [('item', '+ ')], [('item', '1. ')], [('quote', '> '), ('item', '- ')], [('quote', '>'), ('item', '1. '), ('item', '* ')])]
    two = listed(docs.lines(2))
    free = [t for t in docs.SEQUENCE if ']:' not in t]
    small = ['a', '# b', '- c', '> d', '```\ne\n```', '    f', '1. g\n\n   h', 'i\n===', '<div>\nj\n</div>', '[r] *k*', '- l\n\n- m', '***', 'n  \no', '> p\nq', '<!-- s\n\nt -->', '[v]: /w', '- x\n  - y\n\nz', '', '[r]: /u\n\n[r]', '```\na\n\n\nb', '*a\nb*']
    bodies = listed(docs.nested(1, pairs=False))
    return [
        Exploration('lines in one container', Slots(listed(docs.lines(3 + d)), p1, join=tuple), nested_in),
        Exploration('constructs of several lines', Slots(listed(Product(SPANS, 2, sep='\n')) + listed(Product(SPANS_FEW, 3 + d, lo=3, sep='\n')), p1 if q else p1 + p2, join=tuple), nested_in),
        Exploration('indented constructs', Slots(listed(Slots(['a', '', '- x', '> y', '~~~'], ['', 'a', '- x'], OFFSET, ['', 'g', '  ~~~'], join='\n'.join)) + listed(Slots(['a', '# h'], OFFSET, OFFSET, join='\n'.join)), p1 if q else p1 + p2, join=tuple), nested_in),
        Exploration('lines in two containers', Slots(two, p2, join=tuple), nested_in),
        Exploration('few lines in two containers', Slots(listed(docs.lines(3, docs.FEW_LINES)), [(a, b) for a in p1[0] + p1[2] + p1[3] for b in p1[0] + p1[2] + p1[4]], join=tuple), nested_in),
        Exploration('blocks in three containers', Slots(small if q else bodies, p3, join=tuple), nested_in),
        Exploration('nested blocks in containers', Slots(listed(docs.nested(1)), p1 if q else p2, join=tuple), nested_in),
        Exploration('written documents in containers', Slots(listed(docs.written(0, 1) if q else docs.written(1, 2)), p1, join=tuple), nested_in),
        Exploration('inlines in containers', Slots(listed(docs.inlines(2 + d)), [(('quote', '> '),), (('item', '+ '),), (('item', '1. '), ('quote', '>'))], join=tuple), nested_in),
        Exploration('sequences of blocks', Slots(listed(docs.blocks(2 + d, free)), p1, join=tuple), nested_in),
        Exploration('sequences of blocks in a row', Slots(listed(docs.blocks(2, free)), listed(docs.blocks(1, free)), SEPS[:2], join=tuple), joined),
        Exploration('blocks in deep stacks', Slots(small, deep, join=tuple), nested_in),
        Exploration('pairs of documents', Slots(two, two if not q else listed(docs.lines(2, docs.FEW_LINES)), SEPS if not q else SEPS[:2], join=tuple), joined),
        Exploration('pairs, all separators', Slots(small + listed(docs.lines(2, docs.FEW_LINES))[::2], small, SEPS, join=tuple), joined),
        Exploration('pairs of nested blocks', Slots(bodies[::2] if q else bodies, bodies[::2] if q else bodies, SEPS[:1] if q else SEPS, join=tuple), joined),
        Exploration('inline documents side by side', Slots(listed(docs.inlines(1)) + listed(docs.inlines(2, docs.FEW_INLINES)), listed(docs.inlines(1)) + ['a', '*b*', '"c', 'd*'], SEPS[:2], join=tuple), joined),
        Exploration('repeated documents', Mapped(Slots(small, [2, 5, 20], join=tuple), lambda t: t), repeated),
    ]


def repeated(t):
    doc, n = t
    if not closes(doc):
        return None, None
    want = '<hr />\n'.join([html(doc + DEFS)] * n)
    got = html('\n\n***\n\n'.join([doc] * n) + DEFS)
    if got != want:
        return differ('%r * %d' % (doc, n), want, got, 'parts', 'whole'), None
    return None, want


run = runner.make(plan)
