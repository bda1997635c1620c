"""Abstract documents for writer.py: blocks and inlines alone, in pairs and nested."""
import functools

import writer

T = lambda s: ('t', s)
P = lambda s: ('p', [T(s)])
I0 = [T('a')]
INL = [[T('a')], [('em', [T('b')])], [('st', [T('c d')])], [('code', 'e')], [('a', '/f', '', [T('g')])], [('img', '/h', 'i', [T('j')])], [('auto', 'kk:l')], [T('a'), ('raw', '<m>'), T('b')],
       [T('n'), ('br',), T('o')], [T('p'), ('soft',), T('q')]]
INL2 = [[('em', [('st', [T('r')])])], [('st', [('em', [T('s')])])], [('em', [T('t '), ('st', [T('u')]), T(' v')])], [('a', '/w', 'x "y"', [('em', [T('z')])])], [('img', '/(a)', '', [T('b '), ('a', '/c', 'd', [T('e')])])],
        [('a', '/f', "g'", [('img', '/h', '(i)', [T('j')])])], [('code', '`k')], [('code', ' l ')], [('code', 'm `` n')], [T('*o* [p] <q> &r; #'), ('br',), T('- s')], [T('t'), ('soft',), T('+ u'), ('soft',), T('1. v')],
        [('em', [('code', 'w x')])], [('st', [('raw', '<y z="*">')])], [T('a'), ('em', [T('b')]), T('c')], [T('d'), ('st', [T('e')]), T('f')], [('em', [T('g'), ('br',), T('h')])], [('a', '/i j', '', [T('k')])],
        [('a', '', '', [T('l')])], [('a', '', 'm', [T('n')])], [('em', [('em', [T('o')])])], [('st', [('st', [T('p')])])], [('a', '/q', '', [('code', ']')])], [T('# r')], [T('> s')], [T('~~~')], [T('---')], [T('[t]: /u')],
        [('a', 'v', 'w', [T('x')]), T(' '), ('a', 'y', '', [T('z')])], [T('a\\b')], [('img', '/c', '', [('em', [T('d')]), ('code', 'e')])], [('a', '/f', '', [T('g'), ('soft',), T('h')])]]
LEAVES = [P('a'), ('p', [T('b'), ('soft',), T('c')]), ('h', 1, [T('d')]), ('h', 3, [T('e')]), ('hr',), ('code', '', 'f\n'), ('code', 'g h', 'i\n\n  j\n'), ('html', '<!-- k -->'), ('html', '<div>\nl\n</div>')]
LEAVES2 = LEAVES + [('h', 2, [T('m'), ('br',), T('n')]), ('code', '', ''), ('code', '', '\n'), ('code', '', '    o\n\np\n'), ('h', 6, []), ('code', 'q', '```\n'), ('code', '', ' r\n   s\n'), ('p', [T('t'), ('br',), T('u'), ('soft',), T('v')])]


def bullets(tight, *items):
    return ('list', None, tight, list(items))


def lists(kids, tights=(True, False)):
    """lists of one or two items holding the given block lists"""
    out = []
    for start in (None, 1, 12):
        for t in tights:
            for a in kids:
                if t or len(a) > 1:
                    out.append(('list', start, t, [a]))
                for b in kids[:4]:
                    out.append(('list', start, t, [a, b]))
    return out


one = [[b] for b in LEAVES2]
two = [[a, b] for a in LEAVES for b in LEAVES]
few = [P('a'), ('h', 1, [T('b')]), ('code', '', 'c\n'), ('hr',)]
cont = [('quote', k) for k in one + two] + lists([[b] for b in LEAVES] + [[P('a'), b] for b in LEAVES] + [[]]) + [bullets(True, []), ('list', 3, True, [[]]), ('quote', [])]
small = [('quote', [P('a')]), ('quote', [P('b'), ('code', '', 'c\n')]), bullets(True, [P('d')]), bullets(True, [P('e')], [P('f')]), bullets(False, [P('g')], [P('h')]), ('list', 1, True, [[P('i')], []]),
         ('list', 9, False, [[P('j'), P('k')]]), ('quote', [('p', [T('l'), ('soft',), T('m')])]), bullets(True, [('p', [T('n'), ('soft',), T('o')])]), bullets(True, [('code', '', 'p\n')]), bullets(True, [('hr',)], [('h', 2, [T('q')])])]
deep = [('quote', [a]) for a in small] + [bullets(True, [a]) for a in small] + [bullets(True, [P('r'), a]) for a in small] + [('list', 1, False, [[P('s'), a], [P('t')]]) for a in small] + [bullets(True, [a], [P('u')]) for a in small] + \
    [('quote', [a, P('v')]) for a in small] + [bullets(False, [a, P('w')]) for a in small] + [('list', 10, True, [[a], [b]]) for a in small for b in small[:4]]


def para(k):
    return [('p', k)]


BLOCKS = one + [[c] for c in cont] + [[c] for c in deep]
INLINES = [para(k) for k in INL + INL2]


@functools.lru_cache(None)
def documents(bound=1, inline_bound=1, every=1):
    """Markdown for all these trees, in all spellings with so many deviations"""
    out = {}
    for trees, n in ((BLOCKS, bound), (INLINES, inline_bound)):
        for tree in trees[::every]:
            for sched, text in writer.spellings(tree, n):
                if text is not None:
                    out[text] = 1
    return list(out)
