"""Document families shared by the checks of general invariants."""
import harvest
import itertools

from engine import Product, Slots, Listed, Union, Mapped

# every line construct at least once, small enough for 4-line products
LINES = ['', 'a', '> b', '- c', '1. d', '    e', '# f', '---', '```', '<div>', '[r]: /u', '  g', '*h* [r]', '===', '>', '-', '- - i', '\tj']
TAG_LINES = ['<b>', '<b/>', '</b>', '<b c="d" />', '<b> e', '<?f?>', '<!G>', '<![CDATA[h]]>', '<!-- i -->', '<pre/>', '<div/>', '</div>', '<pre>', '</pre> j', '<script>k</script>', ' <l-m>', 'n <b/>', '   <b c=d e>\t', '-->', '<hr/>']      # HTML of all kinds
FEW_LINES = ['', 'a', '> b', '- c', '    e', '```', '  g', '1. d', '# f', '[r]: /u']
INLINES = ['a', ' ', '*', '**', '_', '`', '[', '](u)', '![', '](u "t")', '<b>', '<cc:d>', '&amp;', '&', '\\', '\n', '  \n', '<', '"', "'", '[r]', '--', '...', ']', '<!-- e -->', '\\\n']
FEW_INLINES = ['a', ' ', '*', '`', '[', '](u "t")', '![', '<b>', '&amp;', '\n', '"', '\\', '**', '<cc:d>']
CHARS = [chr(i) for i in range(33, 48)] + [':', ';', '<', '=', '>', '?', '@', '[', '\\', ']', '^', '_', '`', '{', '|', '}', '~', ' ', '\n', '\t', 'a', '1', 'x', '\r', '\0', '\xa0']
SPECIAL = ['a', ' ', '\n', '*', '_', '`', '[', ']', '(', ')', '<', '>', '!', '&', '#', '-', '1.', '\t', '\\', ':', '"', "'", '=', '~', '|', '+']
REFS = '\n\n[r]: /u "t"\n'

LEAVES = ['a', '*b* `c`', '# d', '    e', '```f g\nh\n\ni\n```', '<div>\nj\n</div>', '***', 'k\n===', 'l  \nm\nn', '[o](p "q")', '![r](s)', '', '<t>u</t>', '[v]: /w', '<!-- x', '~~~\ny']
CONTAINERS = [('> ', '> '), ('- ', '  '), ('1. ', '   '), ('10) ', '    '), ('>', '>'), ('  * ', '    ')]


def inside(doc, path):
    for first, rest in reversed(path):
        lines = doc.split('\n')
        doc = '\n'.join([first + lines[0]] + [(rest + x) if x else (rest.rstrip() if rest.startswith('>') else '')
                                             for x in lines[1:]])
    return doc


def lines(n, tokens=LINES, **kw):
    return Product(tokens, n, sep='\n', **kw)


def tag_lines(n, **kw):
    return lines(n, TAG_LINES + ['', 'a', '> b', '- c', '    d'], **kw)


def inlines(n, tokens=INLINES, **kw):
    kw.setdefault('wraps', [('', REFS)])
    return Product(tokens, n, **kw)


def nested(depth, leaves=LEAVES, containers=CONTAINERS, pairs=True):
    """leaf blocks, one or two of them, in every stack of containers up to the depth"""
    paths = [p for k in range(depth + 1) for p in itertools.product(containers, repeat=k)]
    bodies = list(leaves)
    if pairs:
        bodies += ['%s\n\n%s' % (a, b) for a in leaves[:12] for b in leaves[:12]]
    return Slots(paths, bodies, join=lambda t: inside(t[1], t[0]),
                 about='%d bodies in %d container stacks (depth <= %d)' % (len(bodies), len(paths), depth))


def leaving(depth, first=('a', '```x\nb\n```', '    c', '# d', 'e\n\nf'), then=('g', '    h', '# i', '- j', '> k', '~~~\nl\n~~~', '![m](n)'), containers=(('> ', '> '), ('- ', '  '), ('1. ', '   '))):
    """a body in a stack of containers, then further bodies after leaving some of them, and some more"""
    out = []
    for k in range(1, depth + 1):
        for path in itertools.product(containers, repeat=k):
            for i in range(k):
                for j in range(0, i + 1):
                    out.append((path, i, j))

    def build(t):
        (path, i, j), a, b, gap = t
        doc = inside(a, path)
        for level, body in ((i, b), (j, 'z')):
            rest = ''.join(r for f, r in path[:level])
            doc += '\n' + (rest.rstrip() + '\n' if gap else '') + '\n'.join((rest + x).rstrip() for x in body.split('\n'))
        return doc
    return Slots(out, list(first), list(then), [True, False], join=build, about='%d ways to leave containers (depth <= %d), %d x %d bodies' % (len(out), depth, len(first), len(then)))


FRAGMENTS = ['> ', '- ', '1. ', '*', '**', '_', '`', '[', ']', '![', '](u)', '[a](u)', '<', '<a ', '<!--', '&', '&amp;', '\\', '\n', ' ', '\t', '    ', '#', '=', '-', '```\n', '"', "'", '*a', 'a*', '_a_ ',
             '[r]: /u\n', '[r]', '- a\n', '> a\n', '<b>', '<cc:d>', 'a  \n', '<div>\n', '(', ')', '[a](', '1', '.', '--', '~~~\n', '- a\n\n', '*a_', '![a](', '\r', '# a\n', '\0', '\u2003', '\U0001f600']


def pumps(counts, wraps=(('', ''), ('a', 'a'), ('', '\n\na')), fragments=FRAGMENTS):
    return Slots(list(counts), list(fragments), list(wraps), join=lambda t: t[2][0] + t[1] * t[0] + t[2][1],
                 about='%d fragments x %d repeat counts x %d contexts' % (len(fragments), len(counts), len(wraps)))


# one document that puts a character in front of, inside and after every construct
EVERYWHERE = ('{c}a{c} *{c}b{c}* _{c}_ `{c}`\n{c}# x\n\n# {c}\n\n> {c}\n\n- {c}\n{c}- y\n\n1{c}. z\n\n[{c}](<{c}> "{c}") ![{c}]({c})\n'
              '[{c}]: /{c} \'{c}\'\n\n[{c}] <{c}> <a {c}="{c}"> <aa:{c}> &{c}; &#{c}; \\{c} {c}\\\n{c}  \n{c}\n\n```{c} {c}\n{c}\n```\n\n    {c}\n\n'
              '<div {c}>\n{c}\n\n{c}\n===\n\n[{c}]: {c} "{c}"\n\n---{c}\n<{c}>\n"{c}" \'{c}\' {c}--{c}...{c}\n')

# where a document may hold arbitrary text
PLACES = ['%s', '# %s', '*%s*', '**a%s**', '`%s`', '``%s``', '    %s', '```\n%s\n```', '```%s\na\n```', '~~~ %s b\na\n~~~', '[%s](u)', '[a](%s)', '[a](<%s>)', '[a](u "%s")', "[a](u '%s')", '[a](u (%s))',
          '![%s](u)', '![a](%s)', '![a](<%s>)', '![a](u "%s")', '<http:%s>', '<a@b%s>', '[a]\n\n[a]: %s', '[a]\n\n[a]: <%s>', '[a]\n\n[a]: u "%s"', '![a]\n\n[a]: u \'%s\'', '> %s', '- %s', '%s\n===', '![*%s*](u)', '![`%s`](u)',
          '![![%s](u)](v)', '![[%s](u)](v)', '![<b>%s](u)', '![<http:%s>](u)', '![a\n%s](u)', '[![%s](u "%s")](v)', '1. %s', '<div>%s\n</div>', '<b c="%s">', '[%s]', '[%s][%s]', '[a][%s]', 'a\\\n%s', '![a  \n%s](u)', '[![a](%s "%s")](%s "%s")',
          '![a\\\n%s](u)', '![x [y](%s "%s") z](u)', '![x ![y](%s "%s") z](u)', '> ```%s\n> %s', '- ~~~%s\n  %s']
ODD = ['', ' ', '&#32;', '&nbsp;', '&#10;', '&#9;', '&#13;', '&Tab;', '&NewLine;', '&#0;', '\0', '\xa0', '\u2003', '\ud800', '\\', '\\\\', '\\ ', '&#x110000;', '&#xd800;', '&;', '&#;', '&x;', '\t', '\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\u200b', '\ufeff', '\U0010ffff',
       '"', "'", '<', '>', '[', ']', '(', ')', '*', '_', '`', '!', '#', '-', '+', '=', ':', '/', '@', '|', '~', '%', '%a', '%zz', '1', '0', '&', ';', '.', '\n', '\\\n', '  \n', '&#x80;', '&#1;', '&#xfffe;', '&ngE;', 'javascript:', 'a']


def written(bound=1, inline_bound=1, every=1):
    """documents written from abstract trees: lists, quotes and leaf blocks in their spellings"""
    import trees
    found = trees.documents(bound, inline_bound, every)
    return Listed(found, about='%d documents: %d trees in all spellings with at most %d deviations (inlines %d)' % (len(found), len(trees.BLOCKS[::every]) + len(trees.INLINES[::every]), bound, inline_bound))


SEQUENCE = ['a', '- b\n- c', '- d\n\n- e', '1. f\n2. g', '1) h\n\n   i', '<!-- j -->', '<div>\nk\n</div>', '> l', '> - m\n>\n> - n', '***', '# o', 'p\n*p* p\n===', '```q\nr\n\ns\n```', '    t\n\n    u', '[r]: /v', '* w\n  * x', '[r]\ny']


def blocks(n, tokens=SEQUENCE, path=(), sep='\n\n', lo=1):
    """sequences of blocks of one and of several lines"""
    space = Product(tokens, n, sep=sep, lo=lo)
    return Mapped(space, lambda t: inside(t, path), about='%d blocks, %d to %d in a row%s' % (len(tokens), lo, n, ' inside containers' if path else '')) if path else space


# what can be long, each with a length of n
LONG = [
    lambda n: '`' * n + ' a ' + '`' * n, lambda n: 'x' + '`' * n + 'a' + '`' * n + '`', lambda n: '`' * n + 'a' + '`' * (n + 1) + 'b' + '`' * n,
    lambda n: '*' * n + 'a' + '*' * n, lambda n: '_' * n + 'a' + '_' * n, lambda n: 'b' + '*' * n + 'a' + '*' * (n + 1), lambda n: '*' * n + 'a*',
    lambda n: '`' * (n + 2) + 'x\na\n' + '`' * (n + 2) + '\nb', lambda n: '~' * (n + 3) + '\na\n' + '~' * (n + 2) + '\nb', lambda n: '```\na\n' + '`' * (n + 2) + '\nb',
    lambda n: 'a\n\n' + '*' * n + '\nb', lambda n: '- ' * n, lambda n: 'a\n' + '=' * n + '\nb', lambda n: 'a\n' + '-' * n, lambda n: '# a ' + '#' * n, lambda n: '#' * n + ' a',
    lambda n: '# a' + ' ' * n + '#' + ' ' * n, lambda n: '#' + ' ' * n + 'a', lambda n: '#' + '\t' * n + 'a', lambda n: 'a' + ' ' * n + '\nb', lambda n: 'a\n' + ' ' * n + 'b', lambda n: ' ' * n + 'a', lambda n: '\t' * n + 'a',
    lambda n: '-' + ' ' * n + 'a', lambda n: '- a\n' + ' ' * n + 'b', lambda n: '- a\n\n' + ' ' * n + 'b', lambda n: '1.\t' + ' ' * n + 'a\n\n' + ' ' * n + '- b', lambda n: '>' + ' ' * n + 'a\n>' + ' ' * n + '- b', lambda n: '1' * n + '. a', lambda n: '0' * n + ') a',
    lambda n: '```' + ' ' * n + 'a' + ' ' * n + '\nb\n```' + ' ' * n, lambda n: '```' + 'a' * n + '\nb', lambda n: '~~~ ' + 'a ' * n + '\nb',
    lambda n: '[a](' + 'u' * n + ')', lambda n: '[a](<' + 'u' * n + '>)', lambda n: '[a](u "' + 't' * n + '")', lambda n: '[a](' + '(' * n + 'u' + ')' * n + ')', lambda n: '[a](' + ' ' * n + 'u' + ' ' * n + '"t"' + ' ' * n + ')',
    lambda n: '![' + 'a ' * n + '](u)', lambda n: '[' * n + 'a](u)', lambda n: '[' * n + 'a' + ']' * n + '(u)', lambda n: '![' * min(n, 130) + 'a' + '](u)' * min(n, 130), lambda n: '[a](u)' * n, lambda n: '[a' + ']' * n,
    lambda n: '[' + 'a' * n + ']\n\n[' + 'A' * n + ']: /u', lambda n: '[b' + ' ' * n + 'c]\n\n[B C]:' + ' ' * n + '/u' + ' ' * n + "'t'" + ' ' * n, lambda n: '[a]: /' + 'u' * n + '\n\n[a]', lambda n: "[a]: /u '" + 't\n' * n + "'\n\n[a]",
    lambda n: ''.join('[%d]: /%d\n' % (i, i) for i in range(n)) + '\n[0] [%d] [%d] [%d]' % (n - 1, n // 2, n),
    lambda n: '<' + 'a' * n + '>', lambda n: '<a ' + 'b' * n + '="' + 'c' * n + '">', lambda n: 'x <a' + ' b' * n + '>', lambda n: 'x <!-- ' + 'a -' * n + ' -->', lambda n: '<!-- ' + 'a\n\n' * n + '--> b\n*c*', lambda n: '<div>\n' + 'a\n' * n + '\n*b*', lambda n: 'x <?' + 'a' * n + '?>', lambda n: 'x <![CDATA[' + ']' * n + ']>',
    lambda n: '<http://' + 'a' * n + '>', lambda n: '<' + 'a' * n + ':b>', lambda n: '<a@' + 'b' * n + '>', lambda n: '<' + 'a' * n + '@b.c>', lambda n: '<a@' + '.'.join(['b'] * n) + '>',
    lambda n: '&#' + '0' * n + '65;', lambda n: '&#x' + '0' * n + '41;', lambda n: '&' + 'a' * n + ';', lambda n: '&amp;' * n, lambda n: '\\' * n + '*', lambda n: '\\*' * n,
    lambda n: 'a' * n + '\n*b*', lambda n: 'a ' * n + '*b*', lambda n: '\u00e9' * n + '*b*', lambda n: 'a\n' * n + '*b*', lambda n: 'a\n\n' * n + '*b*', lambda n: '\n' * n + '*b*', lambda n: '*b*' + '\n' * n,
    lambda n: '- a\n' * n, lambda n: '- a\n' * n + '\n- b', lambda n: '- a\n\n' * n + 'b', lambda n: '- a' + '\n' * n + '- b', lambda n: '- a' + '\n' * n + '  b', lambda n: '> a\n' * n + 'b', lambda n: '> ' * min(n, 150) + 'a', lambda n: '>' * min(n, 150) + 'a\n' + '>' * (min(n, 150) - 1) + 'b',
    lambda n: '- ' * min(n, 80) + 'a\n\n' + '  ' * (min(n, 80) - 1) + 'b', lambda n: '\n'.join(' ' * 2 * i + '- a' for i in range(min(n, 80))), lambda n: '1. ' * min(n, 80) + 'a', lambda n: '    a\n' * n + '\nb', lambda n: '    a\n' + '\n' * n + '    b', lambda n: '```\n' + 'a\n' * n + '```\nb', lambda n: '```\n' + '\n' * n,
    lambda n: '> ' * min(n, 150) + '- `a`\n' * 2, lambda n: '*a* ' * n, lambda n: '*a' * n + '*' * n, lambda n: '**a' * n + 'b**' * n, lambda n: '_a *b ' * n + 'c* d_' * n, lambda n: '`a` ' * n, lambda n: '<b>' * n, lambda n: 'a  \n' * n + 'b', lambda n: 'a\\\n' * n + 'b',
    lambda n: '"a" ' * n, lambda n: "'a' " * n, lambda n: '"' * n + 'a' + '"' * n, lambda n: 'a' + '-' * n + 'b', lambda n: 'a' + '.' * n, lambda n: '-- ' * n + '...' * n,
    lambda n: '# a\n' * n, lambda n: '***\n' * n, lambda n: 'a\n===\n' * n, lambda n: '<div>\n\n' * n, lambda n: '```\na\n```\n' * n, lambda n: '    ' * n + 'a', lambda n: 'a\tb' * n, lambda n: '\t- a\n' * n, lambda n: '&nbsp;' * n + '\xa0' * n + '*a*', lambda n: '\U0001f600' * n + '`a`',
    lambda n: '%d. a\n' % (10 ** min(n - 1, 8)) + '%d. b' % n, lambda n: '- a\n' + ' ' * n + '- b\n' + ' ' * 2 * n + '- c', lambda n: '1. a\n' + ' ' * n + '1. b',
    lambda n: '> a\n' + ' ' * n + 'b', lambda n: '- > a\n' + ' ' * n + 'b\n' + '\t' * n + 'c', lambda n: '> a\n>' + ' ' * n + 'b\n>' + '\t' * n + 'c', lambda n: '1. a\n   b\n' + '\t' * n + 'c', lambda n: '    a\n' + ' ' * n + 'b', lambda n: '```\n' + ' ' * n + 'a\n' + ' ' * n + '```',
]
LENGTHS = list(range(1, 41)) + [47, 48, 49, 50, 51, 60, 61, 62, 63, 64, 65, 72, 73, 79, 80, 81, 96, 97, 99, 100, 101, 102, 120, 126, 127, 128, 129, 130, 144, 145, 150, 151, 200, 201, 254, 255, 256, 257, 258]
SOME = list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 99, 100, 101]
LONGER = [299, 300, 301, 400, 499, 500, 501, 510, 511, 512, 513, 600, 997, 998, 999, 1000, 1001, 1002, 1022, 1023, 1024, 1025, 1026]
# and the numbers in the code
LENGTHS += [n for n in harvest.numbers(300) if n not in LENGTHS]
LONGER += [n for n in harvest.numbers(2100) if n not in LENGTHS + LONGER]
LONGEST = [2000, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193]


def lengths(more=LONGER, paths=((),), tail='', of='', counts=LENGTHS):
    """every construct (those written with one of the strings in `of`) at many lengths"""
    counts = list(counts) + list(more)
    long_ = [f for f in LONG if not of or any(x in f(3) for x in of)]
    return Slots(counts, long_, list(paths), join=lambda t: inside(t[1](t[0]), t[2]) + tail, about='%d constructs x %d lengths up to %d%s' % (len(long_), len(counts), counts[-1], ' x %d container stacks' % len(paths) if len(paths) > 1 else ''))


# inline constructs, whole and in part, for texts that stand one after the other
PARTS = ['a', '`a', '``b', '`c`', '``d ``', '*e', 'f*', '*g*', '_h', 'i_', '**j', 'k**', '[l', ']', '![m', '](u)', '[n](u)', '![o](u "t")', '[r]', '[p][r]', '[q][', '[s](u "t', '[', '<b', '<i>', '</i>', '<!-- t', 'u -->',
         'v <!-- w -->', 'x <?y', '?>', '<cc:d>', '<cc:', '<e@f.g>', '"a', 'b"', "'c", "d'", '&amp;', '&', '\\', 'a\\\nb', 'c  \nd', '--', '(z)', ')', '***e']
FEW_PARTS = ['`a', '`b`', '*c', 'd*', '[e', '](u)', '<f', '>', '"g', 'h"', '![i', '<!-- j', '[r]', '\\', 'k <l> [m](u) *n* `o`']
BREAKS = [('', '\n\n', ''), ('- ', '\n- ', '\n\nz'), ('# ', '\n# ', ''), ('> ', '\n\n1. ', '')]


def several(n, parts=PARTS, breaks=BREAKS, tail=REFS):
    """inline texts in blocks of their own, one after the other"""
    return Slots(breaks, *([list(parts)] * n), join=lambda t: t[0][0] + t[0][1].join(t[1:]) + t[0][2] + tail, about='%d inline texts, %d in a row in blocks of their own, %d ways' % (len(parts), n, len(breaks)))


def placed(parts=PARTS, n=2, places=PLACES):
    """inline texts in every place"""
    return Slots(places, *([list(parts)] * n), join=lambda t: t[0].replace('%s', ''.join(t[1:])) + REFS, about='%d places x %d inline texts, %d together' % (len(places), len(parts), n))


# what the code mentions, and what its regular expressions match

def mentioned_lines(afters=('', ' b', '\nb', '\n\nb', '\n  b\n--'), befores=('', 'a\n', '> ', '- ', '    ', ' ', '```\n', '<div>\n')):
    found = harvest.strings()
    return Slots(befores, found, afters, join=''.join, about='%d texts mentioned in the code or matched by its expressions, as lines in %d contexts' % (len(found), len(befores) * len(afters)))


def mentioned_inlines(befores=('', 'a', '*b ', '[', 'x <', '\\'), afters=('', 'b', ' c*', '](u)', '>', '\nb'), tail=''):
    found = harvest.strings()
    return Slots(befores, found, afters, join=lambda t: ''.join(t) + tail, about='%d texts mentioned in the code or matched by its expressions, in %d contexts' % (len(found), len(befores) * len(afters)))


def mentioned_places(places=PLACES):
    found = harvest.strings()
    return Slots(places, found, join=lambda t: t[0].replace('%s', t[1]), about='%d places x %d texts mentioned in the code or matched by its expressions' % (len(places), len(found)))
