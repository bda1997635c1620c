"""Placement of definitions: moving, splitting, reordering, respelling or repeating reference definitions changes nothing else."""
import itertools

import docs
from checks.c24 import closes
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('each document is rendered with its definitions after it, and with each definition moved to every combination of places (before and after, in quotes, in items, in nested containers, between '
        'other blocks, in front of a paragraph), in every order, one or several to a paragraph, in other spellings, with unused definitions and later ones for the same label added; the HTML must be the same '
        'but for the containers and separators put there; outcome = the HTML; trivial = documents that leave a fence or an HTML block open')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within']

DEFS = [('r', '/u', 't'), ('s', 'v w', ''), ('\u00e9 x', '/y(z)', '"q" \'p\'')]
LONG = [('l%d' % i, '/m%d' % i, 'n' * (i % 3)) for i in range(12)]


def spell(d, how=0):
    label, dest, title = d
    if how % 4 == 1:
        label = label.upper()
    elif how % 4 == 2:
        label = ' ' + label.replace(' ', ' \n  ') + '\t'
    elif how % 4 == 3:
        label = label.replace(' ', '  ')
    how //= 4
    angle = how % 2 or ' ' in dest
    how //= 2
    gap = ' ' if how % 3 == 0 else '' if how % 3 == 1 else '\n   '
    how //= 3
    out = '[%s]:%s%s' % (label, gap, '<%s>' % dest if angle else dest)
    if title:
        a, b = ('"', '"') if how % 3 == 0 else ("'", "'") if how % 3 == 1 else ('(', ')')
        how //= 3
        for c in {a, b}:
            title = title.replace(c, '\\' + c)
        out += (' ', '\n', '\n   ', '\t ')[how % 4] + a + title + b
    return out


SPELLINGS = 4 * 2 * 3 * 3 * 4
HR = '<hr />\n'
QUOTE, ITEM = '<blockquote>\n</blockquote>\n', '<ul>\n<li></li>\n</ul>\n'
# name: (text before, first prefix, rest prefix, text after, HTML), relative to the separators
PLACES = {
    'before': ('', '', '', '\n\n', ''),
    'quote before': ('', '> ', '> ', '\n\n***\n\n', QUOTE + HR),
    'item before': ('', '- ', '  ', '\n\n***\n\n', ITEM + HR),
    'deep before': ('', '1. > - ', '   >   ', '\n\n***\n\n', '<ol>\n<li>\n<blockquote>\n%s</blockquote>\n</li>\n</ol>\n' % ITEM + HR),
    'between before': ('# h\n', '', '', '\n***\n\n', '<h1>h</h1>\n' + HR),
    'attached before': ('', '', '', '\nzz\n\n', '<p>zz</p>\n'),
    'second item before': ('- a\n- ', '', '  ', '\n- b\n\n***\n\n', '<ul>\n<li>a</li>\n<li></li>\n<li>b</li>\n</ul>\n' + HR),
    'heading before': ('', '', '', '\nk\n===\n\n', '<h1>k</h1>\n'),
    'after': ('\n\n', '', '', '', ''),
    'quote after': ('\n\n***\n\n', '> ', '> ', '', HR + QUOTE),
    'item after': ('\n\n***\n\n', '- ', '  ', '', HR + ITEM),
    'deep after': ('\n\n***\n\n', '> * > ', '>   > ', '', HR + '<blockquote>\n<ul>\n<li>\n%s</li>\n</ul>\n</blockquote>\n' % QUOTE),
    'attached after': ('\n\n***\n\n', '', '', '\nzz', HR + '<p>zz</p>\n'),
    'end of quote after': ('\n\n***\n\n> q\n>\n', '> ', '> ', '', HR + '<blockquote>\n<p>q</p>\n</blockquote>\n'),
    'end of item after': ('\n\n***\n\n- i\n\n', '  ', '  ', '', HR + '<ul>\n<li>i</li>\n</ul>\n'),
    'several after': ('\n\n***\n\n# g\n', '', '', '\n> p\n', HR + '<h1>g</h1>\n<blockquote>\n<p>p</p>\n</blockquote>\n'),
}
NAMES = list(PLACES)


def put(doc, placed):
    """placed: list of (place, definition text) in document order -> (document, html before, html after)"""
    head = tail = h0 = h1 = ''
    for place, text in placed:
        pre, first, rest, post, h = PLACES[place]
        lines = text.split('\n')
        block = pre + '\n'.join([first + lines[0]] + [(rest + x) if x else rest.rstrip() for x in lines[1:]]) + post
        if place.endswith('before'):
            head += block
            h0 += h
        else:
            tail += block
            h1 += h
    return head + doc + tail, h0, h1


def judge(doc, want, placed):
    d, h0, h1 = put(doc, placed)
    got = html(d)
    if got != h0 + want + h1:
        return differ(d, h0 + want + h1, got, 'moved', 'got') + '\n  document %r, definitions %r' % (doc, placed), None
    return None, got


def plain(doc, defs):
    return html(doc + '\n\n' + '\n\n'.join(spell(d) for d in defs))


def moved(t):
    doc, names, order = t
    if not closes(doc):
        return None, None
    return judge(doc, plain(doc, DEFS), [(n, spell(DEFS[k])) for n, k in zip(names, order)])


def together(t):
    """several definitions in one paragraph, in some order, split in two places"""
    doc, order, cut, a, b, join = t
    if not closes(doc):
        return None, None
    placed = []
    if order[:cut]:
        placed.append((a, join.join(spell(DEFS[k]) for k in order[:cut])))
    if order[cut:]:
        placed.append((b, join.join(spell(DEFS[k]) for k in order[cut:])))
    if '' in join.split('\n')[1:-1] and any('second' in p or 'end of item' in p for p, x in placed):
        return None, None       # the blank line loosens the list that stands there
    return judge(doc, plain(doc, DEFS), placed)


def respelled(t):
    doc, how, place = t
    if not closes(doc):
        return None, None
    return judge(doc, plain(doc, DEFS), [(place, '\n'.join(spell(d, how) for d in DEFS))])


def extra(t):
    """definitions nobody uses, and later ones for the same labels"""
    doc, p1, p2, kind = t
    if not closes(doc):
        return None, None
    if p1.endswith('after') and p2.endswith('before'):
        p1, p2 = p2, p1
    real = '\n'.join(spell(d) for d in DEFS)
    more = {'unused': '[zz]: /n\n[r s]: /o\n[r\\]]: /p', 'again': '[r]: /other\n[S]: <x> "y"\n[\u00c9\tX]: z', 'again upper': '[R]: /u2', 'again empty': '[r]: <>\n[S]: <> ""\n[\u00e9 X]: <>', 'unused long': '\n'.join('[%s]: /n' % ('r' * k) for k in range(2, 9))}[kind]
    placed = [(p1, real), (p2, more)]
    if kind.startswith('unused') and t[3] == 'unused long':
        placed.reverse()
        if placed[0][0].endswith('after') and placed[1][0].endswith('before'):
            placed.reverse()
    return judge(doc, plain(doc, DEFS), placed)


EMPTY = [('r', '<>', ''), ('s', '<>', "''"), ('\u00e9 x', '<>', '"t"')]


def emptied(t):
    """definitions with an empty destination are definitions: later ones for the label do nothing"""
    doc, p1, p2, later = t
    if p1.endswith('after') and p2.endswith('before'):
        p1, p2 = p2, p1
    first = '\n'.join('[%s]: %s %s' % x for x in EMPTY)
    want = html(doc + '\n\n' + first)
    return judge(doc, want, [(p1, first), (p2, later)])


def many(t):
    doc, n, place, rev = t
    defs = [('l%d' % i, '/m%d' % i, 'n' * (i % 3)) for i in range(n)]
    if rev:
        defs2 = defs[::-1]
    else:
        defs2 = defs
    uses = doc + '\n\n' + '\n'.join('[l%d] ![x][L%d]' % (i, i) for i in range(n))
    want = html(doc + '\n\n') + '<p>' + '\n'.join('<a href="/m%d"%s>l%d</a> <img src="/m%d" alt="x"%s />' % (i, ' title="%s"' % ('n' * (i % 3)) if i % 3 else '', i, i, ' title="%s"' % ('n' * (i % 3)) if i % 3 else '') for i in range(n)) + '</p>\n'
    return judge(uses, want, [(place, '\n'.join(spell(d) for d in defs2))])


USES = ['[r]', '[r][]', '[a][r]', '![s]', '[*b*][S ]', '[\u00c9  X]', '[c][\u00e9\nx]', '[[r]][s]', '![d [r]][s]', '[r]: e', '[r](f)', '[r] [s]', '\\[r]', '`[r]`', '[none]', '[r', 's]', '[r\\]', '<g h="[r]">']
LINES = ['', 'a [r]', '> [s]', '- [r] ![s]', '1. [\u00e9 x]', '    [r]', '# [x][r]', '---', '```', '<div>', '  [r][s]', '===', '>', '-', '[r]', '[w]: [r]', '*[s]*', '"t"']
DOCS = ['[r] [s] [\u00e9 X]', '# [r]\n\n- [s]\n- ![\u00c9 x]', '> [r]\n> - [s]\n\n1. [\u00e9 x]', '    [r]\n\n```\n[s]\n```', '<div>\n[r]\n</div>\n\n*[s]*', '', 'a\n===', '[r]\n[s]\n- [r]', '[v]: [s]\n\n[v]', '- a [r]\n\n  b [s]', '[r][s] [s][r] [r][r]']


def listed(space):
    return [space.item(i) for i in range(space.size)]


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    perms = list(itertools.permutations(range(3)))
    before = [n for n in NAMES if n.endswith('before')]
    triples = [x for x in itertools.product(NAMES, repeat=3)]
    ordered = [x for x in triples if x == tuple(sorted(x, key=lambda n: n.endswith('after')))]
    pairs = [(a, b) for a in NAMES for b in NAMES if not (a.endswith('after') and b.endswith('before'))]
    lines2 = listed(docs.lines(2, LINES))
    inl = listed(Product(USES, 2, sep=' '))
    return [
        Exploration('every place for each definition', Slots(DOCS if q else DOCS + USES, triples, perms[:1] if q else perms, join=tuple), moved),
        Exploration('every order', Slots(DOCS, [x for x in ordered if len(set(x)) < 3] if q else ordered, perms, join=tuple), moved),
        Exploration('several in a paragraph', Slots(DOCS + USES, perms, [0, 1, 2, 3], NAMES, ['after', 'quote after', 'deep after'] if q else NAMES[8:], ['\n', '\n\n', '\n   '], join=tuple), together),
        Exploration('lines', Slots(lines2 if q else lines2 + listed(docs.lines(3, LINES)), [(n,) * 3 for n in NAMES], [(2, 0, 1)], join=tuple), moved),
        Exploration('inlines', Slots(inl if q else inl + listed(Product(USES, 3, sep='')), [(n,) * 3 for n in NAMES], [(1, 2, 0)], join=tuple), moved),
        Exploration('nested blocks', Slots(listed(docs.nested(1 + d)), [(a, a, b) for a in before[:5] for b in NAMES[8:12]], [(0, 1, 2)], join=tuple), moved),
        Exploration('other spellings', Slots(DOCS[:3] + DOCS[-1:] if q else DOCS + USES, range(SPELLINGS), NAMES, join=tuple), respelled),
        Exploration('unused and later definitions', Slots(DOCS + USES + lines2, NAMES, NAMES, ['unused', 'again', 'again upper', 'again empty', 'unused long'], join=tuple) if not q else Slots(DOCS + USES, NAMES, NAMES, ['unused', 'again', 'again upper', 'again empty', 'unused long'], join=tuple), extra),
        Exploration('empty destinations', Slots(DOCS + USES, NAMES, NAMES, ['[r]: /other', '[S]: <x> "y"\n[\u00c9\tX]: z\n[r]: 0 (t)', '[r]: <>\n[s]: <> "t"'], join=tuple), emptied),
        Exploration('very many definitions', Slots([''] if q else ['', '- b'], [300, 600, 1100, 2100] + ([] if q else [4200, 10000]), NAMES if not q else ['after', 'before', 'deep after', 'quote before'], [False, True], join=tuple), many),
        Exploration('many definitions', Slots(['', 'a', '- b', '# c\n\n> d'], [1, 2, 5, 12, 40, 130], NAMES, [False, True], join=tuple), many),
    ]


run = runner.make(plan)
