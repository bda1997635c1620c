"""Tree editing: breadth-first search over all ordered forests of a few nodes, every operation on the real Node class."""
import itertools
import time

from commonmark.node import Node
import engine
from lib import *

LEVEL = 'model_checking'
RULE = ('state = ordered forest over labelled nodes; every operation that keeps it a forest is applied to real '
        'Node objects that were brought into the state by its access history; afterwards all five links of all '
        'nodes, the walk from every node, and every resumption of the walk must be those of the reference forest')
ASSUMPTIONS = ['trees with more nodes behave like those with the enumerated number',
               'inserting beside a node without parent, below itself, or below a leaf is outside the property']

CONTAINERS = ['document', 'block_quote', 'list', 'item', 'paragraph', 'heading', 'emph', 'strong', 'link', 'image', 'custom_inline', 'custom_block']
LEAVES = ['text', 'softbreak', 'linebreak', 'code', 'html_inline', 'html_block', 'code_block', 'thematic_break']

# ---------------------------------------------------------------- reference forest
# a state is a tuple: for each node, the tuple of its children


def parent_of(state, n):
    for p, ks in enumerate(state):
        if n in ks:
            return p
    return None


def above(state, n):
    while n is not None:
        yield n
        n = parent_of(state, n)


def detach(state, n):
    return tuple(tuple(k for k in ks if k != n) for ks in state)


def apply(state, op):
    """-> new state, or None if the operation is not one for this state"""
    name, a, b = op
    if name == 'unlink':
        return detach(state, a)
    if b in above(state, a):        # a would come to lie below itself
        return None
    if name in ('append', 'prepend'):
        s = list(detach(state, b))
        s[a] = s[a] + (b,) if name == 'append' else (b,) + s[a]
        return tuple(s)
    if parent_of(state, a) is None:
        return None
    s = list(detach(state, b))
    p = parent_of(s, a)
    i = s[p].index(a) + (name == 'after')
    s[p] = s[p][:i] + (b,) + s[p][i:]
    return tuple(s)


def operations(kinds):
    n = range(len(kinds))
    out = [('unlink', a, None) for a in n]
    for a in n:
        for b in n:
            if a != b:
                if kinds[a] in CONTAINERS:
                    out += [('append', a, b), ('prepend', a, b)]
                out += [('before', a, b), ('after', a, b)]
    return out


def events(state, kinds, n):
    if kinds[n] not in CONTAINERS:
        return [(n, True)]
    out = [(n, True)]
    for k in state[n]:
        out += events(state, kinds, k)
    return out + [(n, False)]


def search(kinds):
    start = tuple(() for _ in kinds)
    ops = operations(kinds)
    hist = {start: ()}
    frontier = [start]
    transitions = 0
    while frontier:
        nxt = []
        for s in frontier:
            for op in ops:
                t = apply(s, op)
                if t is None:
                    continue
                transitions += 1
                if t not in hist:
                    hist[t] = hist[s] + (op,)
                    nxt.append(t)
        frontier = nxt
    return hist, transitions


# ---------------------------------------------------------------- real nodes

def real(op, nodes):
    name, a, b = op
    if name == 'unlink':
        nodes[a].unlink()
    elif name == 'append':
        nodes[a].append_child(nodes[b])
    elif name == 'prepend':
        nodes[a].prepend_child(nodes[b])
    elif name == 'before':
        nodes[a].insert_before(nodes[b])
    else:
        nodes[a].insert_after(nodes[b])


def links(state, nodes, what):
    for p, ks in enumerate(state):
        x = nodes[p]
        want = (nodes[ks[0]] if ks else None, nodes[ks[-1]] if ks else None)
        if x.first_child is not want[0] or x.last_child is not want[1]:
            raise Bad('%s: first/last child of n%d wrong' % (what, p))
        for i, k in enumerate(ks):
            c = nodes[k]
            if c.parent is not x:
                raise Bad('%s: parent of n%d is not n%d' % (what, k, p))
            if c.prv is not (nodes[ks[i - 1]] if i else None) or c.nxt is not (nodes[ks[i + 1]] if i + 1 < len(ks) else None):
                raise Bad('%s: siblings of n%d wrong' % (what, k))
    inner = set(itertools.chain.from_iterable(state))
    for n, x in enumerate(nodes):
        if n not in inner and (x.parent is not None or x.prv is not None or x.nxt is not None):
            raise Bad('%s: unlinked n%d still has a parent or siblings' % (what, n))


def walked(walker, limit):
    out = []
    for n, e in walker:
        out.append((n, e))
        if len(out) > limit:
            break
    return out


def same(want, got, nodes):
    return len(want) == len(got) and all(nodes[a] is b and e is f for (a, e), (b, f) in zip(want, got))


def walks(state, kinds, nodes, what, resumptions):
    limit = 2 * len(nodes) + 2
    for r in range(len(nodes)):
        want = events(state, kinds, r)
        if not same(want, walked(nodes[r].walker(), limit), nodes):
            raise Bad('%s: walk from n%d is not %r' % (what, r, want))
        if not resumptions or len(want) < 2:
            continue
        for steps in (0, 1, len(want)):
            for j, (n, e) in enumerate(want):
                w = nodes[r].walker()
                for _ in range(steps):
                    w.nxt()
                w.resume_at(nodes[n], e)
                if not same(want[j:], walked(w, limit), nodes):
                    raise Bad('%s: walk from n%d resumed at n%d %s is not %r' % (what, r, n, 'entering' if e else 'leaving', want[j:]))


def make(kinds):
    return [Node(k, None) for k in kinds]


# ---------------------------------------------------------------- explorations

class Transitions(engine.Space):
    def __init__(self, kinds):
        self.kinds = kinds
        self.hist, self.transitions = search(kinds)
        self.states = list(self.hist)
        self.size = len(self.states)
        self.about = 'all %d forests of %d nodes (%s), %d operations in them' % (len(self.states), len(kinds), ' '.join(kinds), self.transitions)

    def item(self, i):
        return (self.kinds, self.states[i], self.hist[self.states[i]])


def every_operation(item):
    kinds, state, hist = item
    nodes = make(kinds)
    for op in hist:
        real(op, nodes)
    links(state, nodes, 'after %r' % (hist,))
    walks(state, kinds, nodes, 'after %r' % (hist,), True)
    for op in operations(kinds):
        t = apply(state, op)
        if t is None:
            continue
        nodes = make(kinds)
        for o in hist:
            real(o, nodes)
        real(op, nodes)
        what = 'after %r' % (hist + (op,),)
        links(t, nodes, what)
        walks(t, kinds, nodes, what, False)
    return None, state


def every_sequence(item):
    """histories as they are, states not merged"""
    kinds, ops = item
    nodes = make(kinds)
    state = tuple(() for _ in kinds)
    for i, op in enumerate(ops):
        t = apply(state, op)
        if t is None:
            return None, None
        real(op, nodes)
        state = t
    what = 'after %r' % (ops,)
    links(state, nodes, what)
    walks(state, kinds, nodes, what, False)
    return None, state


def kinds_of_nodes(item):
    """every pair of kinds: containers are entered and left, leaves visited once"""
    outer, inner, after = item
    kinds = (outer, inner, after)
    nodes = make(kinds)
    state = [(), (), ()]
    if outer in CONTAINERS:
        nodes[0].append_child(nodes[1])
        nodes[0].append_child(nodes[2])
        state[0] = (1, 2)
    walks(tuple(state), kinds, nodes, repr(kinds), True)
    for x, k in zip(nodes, kinds):
        if bool(x.is_container()) != (k in CONTAINERS):
            raise Bad('is_container of %s is %r' % (k, x.is_container()))
    return None, kinds


def editing_of_kinds(item):
    """two children of every pair of kinds, in every kind of container, brought into both orders by every short history"""
    kinds = item
    ops = operations(kinds)
    first = [o for o in ops if o[0] in ('append', 'prepend') and o[1] == 0 and o[2] == 1]
    for a in first:
        for b in ops:
            if set(b[1:]) - {0, 1, 2} or b[0] == 'unlink' or 0 == b[2]:
                continue
            for c in ops:
                state = tuple(() for _ in kinds)
                for o in (a, b, c):
                    state = apply(state, o)
                    if state is None:
                        break
                if state is None or any(state[i] and k not in CONTAINERS for i, k in enumerate(kinds)):
                    continue
                nodes = make(kinds)
                for o in (a, b, c):
                    real(o, nodes)
                links(state, nodes, '%r after %r' % (kinds, (a, b, c)))
                walks(state, kinds, nodes, '%r after %r' % (kinds, (a, b, c)), False)
    return None, kinds


# trees for normalize: nested tuples (kind, literal or children)

def shapes(n, depth):
    """all forests with n nodes: a leaf is a letter, a container is a tuple"""
    if n == 0:
        yield ()
        return
    for leaf in ('t', 'u', 'v', 'c', 's'):
        for rest in shapes(n - 1, depth):
            yield (leaf,) + rest
    if depth:
        for k in range(n):
            for inner in shapes(k, depth - 1):
                for rest in shapes(n - 1 - k, depth):
                    yield (inner,) + rest


TEXT = {'t': 'a', 'u': 'b*', 'v': ''}


def grow(parent, forest):
    for x in forest:
        if isinstance(x, tuple):
            n = Node('emph', None)
            grow(n, x)
        else:
            n = Node({'c': 'code', 's': 'softbreak'}.get(x, 'text'), None)
            n.literal = TEXT.get(x, 'x' if x == 'c' else None)
        parent.append_child(n)


def merged(forest):
    out = []
    for x in forest:
        if isinstance(x, tuple):
            out.append(merged(x))
        elif x in TEXT:
            if out and isinstance(out[-1], list):
                out[-1][0] += TEXT[x]
            else:
                out.append([TEXT[x]])
        else:
            out.append(x)
    return tuple(out)


def shape_of(node):
    out = []
    prev = None
    k = node.first_child
    while k is not None:
        if k.parent is not node or k.prv is not prev:
            raise Bad('links of %r' % k)
        if k.t == 'emph':
            out.append(shape_of(k))
        elif k.t == 'text':
            out.append([k.literal])
        else:
            out.append(k.t[0])
        prev = k
        k = k.nxt
    if node.last_child is not prev:
        raise Bad('last child of %r' % node)
    return tuple(out)


def normalized(forest):
    root = Node('paragraph', None)
    grow(root, forest)
    top = Node('document', None)
    top.append_child(root)
    top.normalize()
    want = merged(forest)
    for again in range(2):
        got = shape_of(root)
        if got != want:
            raise Bad('normalize of %r: expected %r, got %r' % (forest, want, got))
        if [n.t for n, e in top.walker() if e].count('text') != str(want).count('['):
            raise Bad('normalize of %r: walk disagrees' % (forest,))
        root.normalize()
    # from inside: only what is below changes
    for i in range(len(forest)):
        if isinstance(forest[i], tuple):
            root = Node('paragraph', None)
            grow(root, forest)
            k = root.first_child
            for _ in range(i):
                k = k.nxt
            k.normalize()
            got = shape_of(root)
            want2 = tuple(merged(x) if j == i else ([TEXT[x]] if not isinstance(x, tuple) and x in TEXT else x if not isinstance(x, tuple) else same_shape(x)) for j, x in enumerate(forest))
            if got != want2:
                raise Bad('normalize below node %d of %r: expected %r, got %r' % (i, forest, want2, got))
    return None, want_key(want)


def same_shape(forest):
    return tuple(same_shape(x) if isinstance(x, tuple) else [TEXT[x]] if x in TEXT else x for x in forest)


def want_key(w):
    return repr(w)


def pruned(item):
    """unlinking what is visited, while it is visited, does not disturb the walk"""
    forest, drop = item
    root = Node('paragraph', None)
    grow(root, forest)
    order = [(id(n), e) for n, e in root.walker()]
    leaves = [n for n, e in root.walker() if n.t != 'emph' and n is not root]
    gone = {id(n) for i, n in enumerate(leaves) if drop >> i & 1}
    keep = {id(n): n for n in leaves}
    seen = []
    for n, e in root.walker():
        seen.append((id(n), e))
        if id(n) in gone:
            n.unlink()
        if len(seen) > len(order):
            break
    if seen != order:
        raise Bad('walk of %r while unlinking leaves %s of it: %d events, not %d' % (forest, bin(drop), len(seen), len(order)))
    left = [id(n) for n, e in root.walker() if n.t != 'emph' and n is not root]
    if left != [id(n) for n in leaves if id(n) not in gone]:
        raise Bad('unlinking leaves %s of %r while walking left the wrong ones' % (bin(drop), forest))
    return None, (len(left), len(order))


def plan(tier):
    q = tier == 'quick'
    four = ('document', 'paragraph', 'emph', 'text')
    five = ('document', 'block_quote', 'paragraph', 'emph', 'text')
    six = ('document', 'list', 'item', 'paragraph', 'strong', 'text')
    three = ('document', 'paragraph', 'emph')
    small = [f for n in range(1, 6 if q else 7) for f in shapes(n, 2)]
    return [
        Exploration('states and operations, 4 nodes', Transitions(four), every_operation),
        Exploration('states and operations, 5 nodes', Transitions(five if q else ('document', 'list', 'item', 'link', 'image')), every_operation),
    ] + ([] if q else [Exploration('states and operations, 6 nodes', Transitions(six), every_operation)]) + [
        Exploration('histories, 3 nodes', Mapped(Slots(*[operations(three)] * (4 if q else 5), join=tuple), lambda t: (three, t)), every_sequence),
        Exploration('histories, 4 nodes', Mapped(Slots(*[operations(four)] * 3, join=tuple), lambda t: (four, t)), every_sequence),
        Exploration('kinds of nodes', Mapped(Slots(CONTAINERS + LEAVES, CONTAINERS + LEAVES, CONTAINERS + LEAVES, join=tuple), lambda t: t), kinds_of_nodes),
        Exploration('editing of kinds', Slots(CONTAINERS, CONTAINERS + LEAVES, CONTAINERS + LEAVES, join=tuple), editing_of_kinds),
        Exploration('normalize', Listed(small), normalized),
        Exploration('unlink while walking', Listed([(f, d) for f in small if len(f) + str(f).count('(') < 6 for d in range(2 ** min(4, len(f)))]), pruned),
    ]


def run(tier, result, deadline):
    p = plan(tier)
    engine.explore(p, result, deadline)
    states = [e for e in p if isinstance(e.space, Transitions)]
    result.extra['states'] = sum(e.space.size for e in states)
    result.extra['transitions'] = sum(e.space.transitions for e in states)
    result.extra['traces'] = result.extra['transitions'] if not result.capped and not result.violations else 0
