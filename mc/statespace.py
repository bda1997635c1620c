"""Explicit-state search of the block-structure model, and a conformance suite from it.

State of the model after some lines: the spine of open blocks with whatever of them can
still influence the future (`canon`).  Breadth-first search over a line alphabet finds
every reachable state up to a depth, with a shortest document (access sequence) for each.
Every transition (state, line) is then executed on the real code, followed by every line
of a characterising set, so that a wrong successor state shows even if it has the same
output so far (the W-method of protocol conformance testing).
"""
import refmodel
from engine import Space


def canon(doc):
    n = doc.n
    out = []
    for b in doc.stack:
        g = min(n - b.last, 1) if b.t != 'document' else 0
        if b.t == 'list':
            loose = any(refmodel.gap(x, y) for x, y in zip(b.kids, b.kids[1:])) or any(
                refmodel.gap(x, y) for it in b.kids for x, y in zip(it.kids, it.kids[1:]))
            out.append(('list', b.a['mark'], loose, g))
        elif b.t == 'item':
            out.append(('item', b.a['width'], bool(b.kids), g))
        elif b.t == 'paragraph':
            ls = b.lines
            keep = tuple(ls) if ls and ls[0].startswith('[') else (len(ls) > 1,)
            out.append(('p', keep))
        elif b.t == 'code_block':
            out.append(('code', b.a['fence'], len(b.lines) > 1, g))
        elif b.t == 'html_block':
            out.append(('html', b.a['kind'], g))
        elif b.t == 'block_quote':
            out.append(('>', bool(b.kids), g))
        else:
            out.append((b.t, bool(b.kids), g))
        # what precedes in the innermost container (a closed last child)
    last = doc.stack[-1].kids[-1] if doc.stack[-1].kids else None
    out.append(last and (last.t, min(n - last.last, 1)))
    out.append(tuple(sorted(doc.refs)))
    return tuple(out)


def search(tokens, depth, nest):
    """-> (list of access sequences, states, transitions)"""
    seen = {}
    d = refmodel.Doc()
    seen[canon(d)] = ()
    frontier = [()]
    order = [()]
    transitions = 0
    for _ in range(depth):
        nxt = []
        for seq in frontier:
            for t in tokens:
                transitions += 1
                d = refmodel.Doc()
                for x in seq + (t,):
                    for ln in x.split('\n'):
                        d.line(ln)
                if sum(b.t in ('block_quote', 'item') for b in d.stack) > nest:
                    continue
                k = canon(d)
                if k not in seen:
                    seen[k] = seq + (t,)
                    nxt.append(seq + (t,))
        order.extend(nxt)
        frontier = nxt
        if not nxt:
            break
    return order, len(seen), transitions, len(frontier)


class Conformance(Space):
    """access sequence x line x suffix"""

    def __init__(self, tokens, depth, nest, suffixes, extra_depth=True):
        self.tokens, self.suffixes = list(tokens), list(suffixes)
        self.order, self.states, self.transitions, self.open = search(self.tokens, depth, nest)
        self.size = len(self.order) * len(self.tokens) * len(self.suffixes)
        self.about = ('%d model states (depth <= %d, nesting <= %d, %d at the depth limit) x %d '
                      'lines x %d suffixes' % (self.states, depth, nest, self.open,
                                               len(self.tokens), len(self.suffixes)))

    def item(self, i):
        i, s = divmod(i, len(self.suffixes))
        i, t = divmod(i, len(self.tokens))
        return '\n'.join(self.order[i] + (self.tokens[t],) + self.suffixes[s])
