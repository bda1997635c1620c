"""Tree soundness: links, nesting, closed blocks and walker events of every parsed document."""
import gc

import docs
from htmlcheck import looks_alike
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('the tree of every document is read through first_child / nxt alone and compared with every other link, '
        'with the nesting CommonMark allows, and with the events of a walker started at every one of its nodes; '
        'outcome = the shape of the tree; trivial = the empty tree')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within']

BLOCK = {'block_quote', 'list', 'paragraph', 'heading', 'code_block', 'html_block', 'thematic_break'}
INLINE = {'text', 'softbreak', 'linebreak', 'code', 'html_inline', 'emph', 'strong', 'link', 'image'}
HOLDS = {'document': BLOCK, 'block_quote': BLOCK, 'item': BLOCK, 'list': {'item'}, 'paragraph': INLINE, 'heading': INLINE,
         'emph': INLINE, 'strong': INLINE, 'link': INLINE, 'image': INLINE}
LEAF = {'code_block', 'html_block', 'thematic_break', 'text', 'softbreak', 'linebreak', 'code', 'html_inline'}
LITERAL = {'text', 'code', 'html_inline', 'code_block', 'html_block'}


def autolink(node):
    """CommonMark leaves autolinks in the text of a link"""
    kid = node.first_child
    return kid is not None and kid.t == 'text' and kid.nxt is None and not node.title and looks_alike(node.destination, kid.literal)


def read(root):
    """-> nodes in document order, events in document order; links checked on the way"""
    seen = {id(root)}
    events = []
    stack = [(root, root.first_child, root.t == 'link')]
    if root.parent is not None or root.prv is not None or root.nxt is not None:
        raise Bad('the root has a parent or siblings')
    if root.t != 'document':
        raise Bad('the root is a %s' % root.t)
    events.append((root, True))
    while stack:
        node, child, in_link = stack[-1]
        if child is None:
            stack.pop()
            events.append((node, False))
            continue
        stack[-1] = (node, child.nxt, in_link)
        if id(child) in seen:
            raise Bad('%r is reached twice' % child)
        seen.add(id(child))
        if child.parent is not node:
            raise Bad('parent of %r is %r, not %r' % (child, child.parent, node))
        if child.prv is None:
            if node.first_child is not child:
                raise Bad('%r has no previous sibling but is not the first child' % child)
        elif child.prv.nxt is not child:
            raise Bad('sibling links of %r disagree' % child)
        if child is node.first_child and child.prv is not None:
            raise Bad('first child %r has a previous sibling' % child)
        if child.nxt is None:
            if node.last_child is not child:
                raise Bad('%r has no next sibling but is not the last child' % child)
        elif child.nxt.prv is not child:
            raise Bad('sibling links after %r disagree' % child)
        if child.t not in HOLDS.get(node.t, ()):
            raise Bad('%s inside %s' % (child.t, node.t))
        if child.t == 'link' and in_link and not autolink(child):
            raise Bad('a link inside a link')
        if child.t in LITERAL and not isinstance(child.literal, type('')):
            raise Bad('%s with literal %r' % (child.t, child.literal))
        if child.t in ('link', 'image') and not (isinstance(child.destination, type('')) and isinstance(child.title or '', type(''))):
            raise Bad('%s with destination %r, title %r' % (child.t, child.destination, child.title))
        if child.t == 'heading' and child.level not in (1, 2, 3, 4, 5, 6):
            raise Bad('heading of level %r' % child.level)
        if child.t in ('list', 'item') and child.list_data.get('type') not in ('bullet', 'ordered'):
            raise Bad('%s of type %r' % (child.t, child.list_data.get('type')))
        if child.t == 'list' and child.first_child is None:
            raise Bad('a list without items')
        if (child.t in BLOCK or child.t == 'item') and child.is_open:
            raise Bad('%s left open' % child.t)
        if child.t in LEAF:
            if child.first_child is not None or child.last_child is not None:
                raise Bad('%s with children' % child.t)
            events.append((child, True))
        else:
            if child.first_child is None and child.last_child is not None:
                raise Bad('%s with a last child only' % child.t)
            events.append((child, True))
            stack.append((child, child.first_child, in_link or child.t == 'link'))
    if root.is_open:
        raise Bad('document left open')
    return events


def same(want, got):
    return len(want) == len(got) and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(want, got))


def show(ev):
    return ' '.join(('+' if e else '-') + n.t for n, e in ev)


def sound_with(doc, smart):
    root = parse(doc, smart=smart)
    try:
        events = read(root)
    except Bad as e:
        return '%r: %s' % (doc, e), None
    first = {}
    last = {}
    for i, (n, e) in enumerate(events):
        first.setdefault(id(n), i)
        last[id(n)] = i
    for node, entering in events:
        if not entering:
            continue
        want = events[first[id(node)]:last[id(node)] + 1]
        got = []
        limit = len(want) + 3
        for n, e in node.walker():
            got.append((n, e))
            if len(got) > limit:
                break
        if not same(want, got):
            return '%r: walk of %r\n  expected %s\n  got      %s' % (doc, node, show(want), show(got)), None
    got = []
    w = root.walker()
    while True:
        ev = w.nxt()
        if ev is None:
            break
        got.append((ev['node'], ev['entering']))
        if len(got) > len(events) + 3:
            break
    if not same(events, got):
        return '%r: walk by nxt()\n  expected %s\n  got      %s' % (doc, show(events), show(got)), None
    return None, (show(events) if len(events) > 2 else None)


def sound(doc):
    m, o = sound_with(doc, False)
    if m:
        return m, None
    m, _ = sound_with(doc, True)
    return m, o


def kept(doc):
    """a node that is kept holds on to the whole tree around it"""
    size = len(list(parse(doc).walker()))
    out = []
    for i in range(size):
        node = list(parse(doc).walker())[i][0]
        gc.collect(0)
        top = node
        while top.parent is not None:
            up = top.parent
            if top.prv is None and up.first_child is not top or top.nxt is None and up.last_child is not top:
                return '%r: %r is not among the children of its parent %r' % (doc, top, up), None
            top = up
        if top.t != 'document' or len(list(top.walker())) != size:
            return '%r: above %r, the only node kept, is %r with %d of %d events' % (doc, node, top, len(list(top.walker())), size), None
        out.append(node.t)
    return None, tuple(out) if size > 2 else None


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    link = ['a', '*', '[', ']', '(u)', '![', '](u)', '[r]', '<cc:d>', '`', '<b>', '\n', '_', '**', '\\', '(<', '"']
    return [
        Exploration('lines', docs.lines(3 + d), sound),
        Exploration('lines of HTML', docs.tag_lines(3 + d), sound),
        Exploration('lines, longer', docs.lines(4 + d, docs.FEW_LINES), sound),
        Exploration('inline constructs', docs.inlines(3 + d), sound),
        Exploration('few inline constructs', docs.inlines(4 + d, docs.FEW_INLINES), sound),
        Exploration('links', Product(link, 4 + d, wraps=[('', docs.REFS)]), sound),
        Exploration('emphasis', Product(['*', '_', 'a', ' ', '**', '[', '](u)', '.'], 5 + d), sound),
        Exploration('special characters', Product(docs.SPECIAL, 3 + d), sound),
        Exploration('nested blocks', docs.nested(2 + d), sound),
        Exploration('leaving containers', docs.leaving(2 + d), sound),
        Exploration('sequences of blocks', docs.blocks(3 + d), sound),
        Exploration('sequences of blocks in containers', docs.blocks(3, path=[('> ', '> '), ('- ', '  ')]), sound),
        Exploration('written documents', docs.written(1, 1 if q else 2), sound),
        Exploration('definitions', Product(['[r]: /u', '', 'a', '===', '---', '- ', '> ', '[s]: /v "t"', '  [t]:', '- [u]: w', '> [v]: x', '1. ', '[w]'], 3 + d, sep='\n', wraps=[('', ''), ('> ', ''), ('- ', '\n  a'), ('- ', '\n\n- b')]), sound),
        Exploration('pumped', docs.pumps([2, 3, 5, 9, 17, 40] if q else [2, 3, 5, 9, 17, 40, 100]), sound, chunk=20),
        Exploration('inline texts in every place', docs.placed(docs.FEW_PARTS if q else docs.PARTS), sound),
        Exploration('inlines of several blocks', docs.several(2), sound),
        Exploration('inlines of three blocks', docs.several(3, docs.FEW_PARTS if q else docs.PARTS, docs.BREAKS[:1] if q else docs.BREAKS[:2]), sound),
        Exploration('one node kept, lines', docs.lines(2, docs.FEW_LINES if q else docs.LINES), kept),
        Exploration('one node kept, inlines', docs.inlines(2, docs.FEW_INLINES if q else docs.INLINES), kept),
        Exploration('one node kept, nested blocks', docs.nested(1), kept),
        Exploration('lengths', docs.lengths(()), sound, chunk=40),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), sound),
        Exploration('texts mentioned in the code', docs.mentioned_places(), sound),
    ]


run = runner.make(plan)
