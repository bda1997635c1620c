"""Trees by hand: copies, edited trees, custom nodes and subclassed renderers against the parsed document."""
import re

import commonmark
from commonmark.node import Node
from commonmark.render.renderer import Renderer
import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('the tree of each document is rebuilt with Node objects by four orders of editing calls and must give the same HTML, reStructuredText, JSON and AST listing; '
        'its blocks, and the inlines of its first block, are rendered one by one, in order and in reverse, and the HTML must be the concatenation; transformations '
        'made while walking (changing literals, destinations and levels, unwrapping, removing, wrapping in custom nodes, inserting) must change the HTML exactly where '
        'they act; renderers made by subclassing must see the events of the walk; outcome = the HTML')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within',
               'nodes made by hand carry the data the renderer needs for their kind, and stand below a document']

DATA = ('literal', 'title', 'info', 'destination', 'list_data', 'level', 'on_enter', 'on_exit')
STATE = ('string_content', 'is_open', 'last_line_blank')


def kids(n):
    k = n.first_child
    while k is not None:
        yield k
        k = k.nxt


def blank_copy(n):
    m = Node(n.t, n.sourcepos)
    for a in DATA + STATE:
        v = getattr(n, a)
        setattr(m, a, dict(v) if isinstance(v, dict) else v)
    return m


def copy(n, how):
    m = blank_copy(n)
    ks = [copy(k, how) for k in kids(n)]
    if how == 'append':
        for k in ks:
            m.append_child(k)
    elif how == 'prepend':
        for k in reversed(ks):
            m.prepend_child(k)
    elif how == 'after':
        if ks:
            m.append_child(ks[0])
            for k in reversed(ks[1:]):
                ks[0].insert_after(k)
    else:
        if ks:
            m.append_child(ks[-1])
            for k in ks[:-1]:
                ks[-1].insert_before(k)
    return m


def outputs(ast):
    return [render(ast), render(ast, safe=True, sourcepos=True, softbreak=' '), commonmark.ReStructuredTextRenderer().render(ast), commonmark.dumpJSON(ast), ast_listing(ast)]


def copied(doc):
    ast = parse(doc)
    want = outputs(ast)
    for how in ('append', 'prepend', 'after', 'before'):
        got = outputs(copy(ast, how))
        if got != want:
            i = [a == b for a, b in zip(want, got)].index(False)
            return 'built by %s, output %d of ' % (how, i) + differ(doc, want[i], got[i]), None
    return None, want[0]


def pieces(doc):
    """the HTML of a document is that of its blocks; that of a paragraph that of its inlines"""
    whole = render(parse(doc))
    n = len(list(kids(parse(doc))))
    parts = []
    for i in range(n):
        ast = parse(doc)
        for j, k in enumerate(list(kids(ast))):
            if j != i:
                k.unlink()
        parts.append(render(ast))
    if ''.join(parts) != whole:
        return 'the blocks one by one: ' + differ(doc, whole, ''.join(parts)), None
    ast = parse(doc)
    for k in list(kids(ast)):
        ast.prepend_child(k)
    if render(ast) != ''.join(reversed(parts)):
        return 'the blocks in reverse: ' + differ(doc, ''.join(reversed(parts)), render(ast)), None
    first = parse(doc).first_child
    if first is not None and first.t in ('paragraph', 'heading'):
        tag = 'p' if first.t == 'paragraph' else 'h%d' % first.level
        n = len(list(kids(first)))

        def inner(h):
            assert h.startswith('<%s>' % tag) and h.endswith('</%s>\n' % tag), h
            return h[len(tag) + 2:-len(tag) - 4]
        got = []
        for i in range(n):
            ast = parse(doc)
            for k in list(kids(ast))[1:]:
                k.unlink()
            for j, k in enumerate(list(kids(ast.first_child))):
                if j != i:
                    k.unlink()
            got.append(inner(render(ast)))
        if ''.join(got) != inner(parts[0]):
            return 'the inlines one by one: ' + differ(doc, inner(parts[0]), ''.join(got)), None
        ast = parse(doc)
        p = ast.first_child
        for k in list(kids(p)):
            p.prepend_child(k)
        for k in list(kids(ast))[1:]:
            k.unlink()
        if inner(render(ast)) != ''.join(reversed(got)):
            return 'the inlines in reverse: ' + differ(doc, ''.join(reversed(got)), inner(render(ast))), None
    return None, (whole if n > 1 else None)


IMG = re.compile(r'<img [^>]*/>')
SPECIAL = 'x<&">\'y'
ESCAPED = 'x&lt;&amp;&quot;&gt;\'y'
# documents for transformations must not hold these
A, B = '\ue010', '\ue011'


def in_image(n):
    while n is not None:
        if n.t == 'image':
            return True
        n = n.parent
    return False


def transformed(doc):
    h = render(parse(doc))
    # 1. every text is changed while walking
    ast = parse(doc)
    for n, e in ast.walker():
        if n.t == 'text':
            n.literal = A + n.literal + B
    marked = render(ast)
    if marked.replace(A, '').replace(B, '') != h:
        return 'marking texts: ' + differ(doc, h, marked), None
    for n, e in ast.walker():
        if n.t == 'text':
            n.literal = SPECIAL
    got = render(ast)
    want = re.sub(A + '[^' + B + ']*' + B, lambda m: ESCAPED, marked)
    if got != want:
        return 'replacing texts: ' + differ(doc, want, got), None
    # 2. unwrapping emphasis
    ast = parse(doc)
    for n, e in list(ast.walker()):
        if not e and n.t in ('emph', 'strong'):
            for k in list(kids(n)):
                n.insert_before(k)
            n.unlink()
    raw = any(n.t in ('html_inline', 'html_block') for n, e in ast.walker())
    if not raw:
        want = re.sub('</?(?:em|strong)>', '', h)
        if render(ast) != want:
            return 'unwrapping emphasis: ' + differ(doc, want, render(ast)), None
    # 3. removing images as they are entered; one may not go on below what was removed
    ast = parse(doc)
    w = ast.walker()
    e = w.nxt()
    while e is not None:
        n = e['node']
        if e['entering'] and n.t == 'image':
            w.resume_at(n, False)
            w.nxt()
            n.unlink()
        e = w.nxt()
    if not raw:
        want = IMG.sub('', h)
        if render(ast) != want:
            return 'removing images: ' + differ(doc, want, render(ast)), None
    # 4. wrapping links in custom nodes, marking blocks with custom blocks
    ast = parse(doc)
    for n, e in list(ast.walker()):
        if not e and n.t == 'link' and not in_image(n):
            c = Node('custom_inline', None)
            c.on_enter, c.on_exit = '<x-l>', '</x-l>'
            n.insert_before(c)
            c.append_child(n)
    got = render(ast)
    if not raw:
        want = re.sub('<a ', '<x-l><a ', h).replace('</a>', '</a></x-l>')
        if got != want:
            return 'wrapping links: ' + differ(doc, want, got), None
    if raw and got.replace('<x-l>', '').replace('</x-l>', '') != h:
        return 'wrapping links: ' + differ(doc, h, got), None
    ast = parse(doc)
    parts = [A + '\n']
    for k in list(kids(ast)):
        c = Node('custom_block', None)
        c.on_enter, c.on_exit = A, B
        k.insert_after(c)
        c.append_child(k)
    got = render(ast)
    if got.replace(A + '\n', '').replace(B + '\n', '') != h or got.count(A) != len(list(kids(parse(doc)))):
        return 'custom blocks: ' + differ(doc, h, got), None
    # 5. levels, destinations, titles, numbers, languages
    ast = parse(doc)
    for n, e in ast.walker():
        if not e:
            continue
        if n.t == 'heading':
            n.level = 7 - n.level
        elif n.t in ('link', 'image'):
            n.destination = SPECIAL
            n.title = SPECIAL
    got = render(ast)
    if not raw:
        want = re.sub(r'<(/?)h([1-6])>', lambda m: '<%sh%d>' % (m.group(1), 7 - int(m.group(2))), h)
        want = re.sub(r'<a href="[^"]*"(?: title="[^"]*")?>', lambda m: '<a href="%s" title="%s">' % (ESCAPED, ESCAPED), want)
        want = re.sub(r'<img src="[^"]*" alt="([^"]*)"(?: title="[^"]*")? />', lambda m: '<img src="%s" alt="%s" title="%s" />' % (ESCAPED, m.group(1), ESCAPED), want)
        if got != want:
            return 'levels and destinations: ' + differ(doc, want, got), None
    # 6. a paragraph made by hand before and after everything
    ast = parse(doc)
    for put in (ast.prepend_child, ast.append_child):
        p, t, c = Node('paragraph', None), Node('text', None), Node('code', None)
        t.literal, c.literal = SPECIAL, SPECIAL
        p.append_child(c)
        c.insert_before(t)
        put(p)
    new = '<p>%s<code>%s</code></p>\n' % (ESCAPED, ESCAPED)
    if render(ast) != new + h + new:
        return 'paragraphs around: ' + differ(doc, new + h + new, render(ast)), None
    return None, h


INLINE_PARENTS = ('paragraph', 'heading', 'emph', 'strong', 'link', 'image')


def raw_node(kind, text):
    n = Node(kind, None)
    n.literal = text
    return n


def custom_node(kind, enter, leave):
    n = Node(kind, None)
    n.on_enter, n.on_exit = enter, leave
    return n


def gaps(ast):
    """places where a node can be put: (kind of node, walk index of a parent, index below it)"""
    for i, (n, e) in enumerate(ast.walker()):
        if e and n.t in INLINE_PARENTS + ('document', 'block_quote', 'item'):
            kind = 'inline' if n.t in INLINE_PARENTS else 'block'
            for j in range(len(list(kids(n))) + 1):
                yield kind, i, j


def put_at(ast, i, j, nodes):
    parent = list(ast.walker())[i][0]
    ks = list(kids(parent))
    for n in nodes:
        if j < len(ks):
            ks[j].insert_before(n)
        else:
            parent.append_child(n)


def custom(doc):
    """a custom node writes what raw HTML in its place would: one on entering, one on leaving"""
    n = 0
    for kind, i, j in gaps(parse(doc)):
        for enter, leave in ((A, B), (A, None), (None, B), ('', B)):
            for full in (False, True):
                a, b = parse(doc), parse(doc)
                c = custom_node('custom_' + kind, enter, leave)
                marks = [raw_node('html_' + kind, x) if x else None for x in (enter, leave)]
                inner = []
                if full:
                    t = raw_node('text', SPECIAL)
                    u = raw_node('text', SPECIAL)
                    if kind == 'block':
                        h, g = Node('heading', None), Node('heading', None)
                        h.level = g.level = 3
                        h.append_child(t)
                        g.append_child(u)
                        t, u = h, g
                    c.append_child(t)
                    inner = [u]
                put_at(a, i, j, [c])
                put_at(b, i, j, [x for x in marks[:1] + inner + marks[1:] if x])
                got, want = render(a), render(b)
                n += 1
                if kind == 'block':
                    # a custom block begins and ends a line even when it writes nothing
                    if None in (enter, leave) or not (enter and leave):
                        got, want = re.sub('\n+', '\n', got), re.sub('\n+', '\n', want)
                        if '<li>\n<' in got:
                            got, want = got.replace('<li>\n', '<li>'), want.replace('<li>\n', '<li>')
                if got != want:
                    return 'custom node %r at %r: ' % ((enter, leave, full), (kind, i, j)) + differ(doc, want, got), None
    return None, (n or None)


KINDS = ['document', 'paragraph', 'heading', 'emph', 'strong', 'link', 'image', 'text', 'softbreak', 'linebreak', 'code', 'html_inline', 'html_block', 'code_block', 'thematic_break', 'block_quote', 'list', 'item',
         'custom_inline', 'custom_block']


def recorder(base, kinds):
    def method(self, node, entering):
        self.seen.append((node, entering))
    return type('Recorder', (base,), dict((k, method) for k in kinds))


def dispatched(doc):
    ast = parse(doc)
    events = list(ast.walker())
    for base, make in ((Renderer, lambda c: c()), (commonmark.HtmlRenderer, lambda c: c()), (commonmark.ReStructuredTextRenderer, lambda c: c())):
        r = make(recorder(base, KINDS))
        r.seen = []
        out = r.render(ast)
        if r.seen != events or out != '':
            return '%r: a subclass of %s saw %r, not %r, and wrote %r' % (doc, base.__name__, r.seen, events, out), None
    for k in sorted(set(n.t for n, e in events)):
        r = recorder(Renderer, [k])()
        r.seen = []
        out = r.render(ast)
        if r.seen != [x for x in events if x[0].t == k] or out != '':
            return '%r: a renderer for %s only saw %r' % (doc, k, r.seen), None

    class Shout(commonmark.HtmlRenderer):
        def text(self, node, entering=None):
            self.out(A + node.literal + B)

    got = Shout().render(ast)
    for n, e in ast.walker():
        if n.t == 'text':
            n.literal = A + n.literal + B
    want = render(ast)
    if got != want:
        return 'a subclass with its own text(): ' + differ(doc, want, got), None

    class Plain(Renderer):
        def text(self, node, entering):
            self.out(node.literal)

        def softbreak(self, node, entering):
            self.cr()

        linebreak = softbreak

        def paragraph(self, node, entering):
            if not entering:
                self.lit('\n\n')
    got = Plain().render(ast)
    texts = ''.join(n.literal for n, e in ast.walker() if n.t == 'text')
    if got.replace('\n', '') != texts.replace('\n', ''):
        return 'a plain text renderer: ' + differ(doc, texts, got), None
    return None, got


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    small = [x for x in docs.LINES]
    inl = docs.INLINES
    out = []
    for name, judge, cut in (('copied', copied, 0), ('piecewise', pieces, 0), ('transformed', transformed, 0), ('subclassed', dispatched, 1)):
        out += [
            Exploration('lines, ' + name, docs.lines((2 if q else 3) if cut or q else 3, small), judge),
            Exploration('few lines, ' + name, docs.lines(3 + d, docs.FEW_LINES), judge),
            Exploration('inlines, ' + name, docs.inlines(2 + d, inl), judge),
            Exploration('few inlines, ' + name, docs.inlines(3, docs.FEW_INLINES), judge),
            Exploration('nested blocks, ' + name, docs.nested(1 + d), judge),
            Exploration('written documents, ' + name, docs.written(*((0, 1) if q else (1, 2))), judge),
            Exploration('odd text, ' + name, Slots(docs.PLACES, docs.ODD, join=lambda t: t[0].replace('%s', t[1])), judge),
        ]
    out += [
        Exploration('custom nodes, lines', docs.lines(2, small), custom),
        Exploration('custom nodes, inlines', docs.inlines(2, inl), custom),
        Exploration('custom nodes, nested blocks', docs.nested(1 + d), custom),
    ]
    return out


run = runner.make(plan)
