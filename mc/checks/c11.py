"""Safe mode: expected output built from the parse tree, for every spelling of a scheme and every raw HTML construct."""
import itertools

import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('the safe output must be the output without the option of the same tree in which every raw HTML node '
        'is an omission comment (inside image descriptions: its escaped text), links to an unsafe scheme have '
        'no href and images with one have an empty src; the scheme test is an independent one; outcome = '
        'the safe HTML; trivial = documents whose safe and ordinary outputs agree')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within',
               'what counts as an image data: URL is png, gif, jpeg and webp, as in the reference implementation']

OMIT = '<!-- raw HTML omitted -->'
OK = ('data:image/png', 'data:image/gif', 'data:image/jpeg', 'data:image/webp')
UNSAFE = ('javascript:', 'vbscript:', 'file:', 'data:')


def unsafe(d):
    d = ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in d)
    return d.startswith(UNSAFE) and not d.startswith(OK)


def expected(doc, smart, **opts):
    ast = parse(doc, smart=smart)
    drop = False
    alt = 0
    for node, entering in ast.walker():
        if node.t == 'image':
            if entering and unsafe(node.destination):
                node.destination = ''
            alt += 1 if entering else -1
        elif node.t == 'link':
            if entering and unsafe(node.destination):
                node.destination = '\ue000'
                drop = True
        elif node.t == 'html_inline' and not alt or node.t == 'html_block':
            node.literal = OMIT
    out = render(ast, **opts)
    return out.replace(' href="\ue000"', '') if drop else out


def safe_with(doc, smart, **opts):
    want = expected(doc, smart, **opts)
    ast = parse(doc, smart=smart)
    got = render(ast, safe=True, **opts)
    if got != want:
        return differ(doc, want, got, 'expected', 'safe'), None
    return None, (got if got != render(ast, **opts) else None)


def safe(doc):
    m, o = safe_with(doc, False)
    if m:
        return m, None
    m, _ = safe_with(doc, True, sourcepos=True, softbreak=' ')
    return m, o


def cases(word):
    return [''.join(t) for t in itertools.product(*[(c.lower(), c.upper()) for c in word])]


def spell(c):
    n = ord(c)
    return ['&#%d;' % n, '&#x%x;' % n, '&#X%X;' % n, '&#0%d;' % n, '&#x00%x;' % n]


COLON = [':', '\\:', '&colon;', '&#58;', '&#x3a;', '&#x3A;', '&#0058;']
WORDS = ['javascript', 'vbscript', 'file', 'data', 'Data', 'JavaScript', 'FILE']
TAILS = ['x', '', '//a/b', 'image/png;base64,iVBO', 'image/gif', 'IMAGE/JPEG', 'image/webp,x', 'image/svg+xml', 'image/', 'text/html,&lt;b>', ' image/png', 'image/PNG', 'image\\/png', 'x:data:image/png', 'image/jpg',
         'text/html;image/png', '/image/png', 'javascript:', 'http:']
PLACES = ['[a](%s)', '![a](%s)', '[a](<%s>)', '![a](<%s>)', '[a](%s "t")', '<%s>', '[a]\n\n[a]: %s', '![a]\n\n[a]: <%s> "t"', '[![a](%s)](%s)', '![b [a](%s) ![c](%s)](u)',
          '> - # [a](%s)', '[a][b] ![c][b]\n\n[b]: %s', '*[a](%s)*', '[a <b>](%s)', '![a <b> c](%s)']
FEW = [PLACES[i] for i in (0, 1, 2, 5, 6)]
HTML = ['<b>', '</b>', '<b c="d">', '<!-- e -->', '<?f?>', '<!G h>', '<![CDATA[i]]>', '<j/>', '<cc:d>', '*', '`', '[', '](u)', '![', '\n', 'a', '\\', '<', '](file:)', '](data:x "t")']
BLOCKS = ['<div>', '</div>', '<script>', '</script>', '<pre>', '<!-- a', '-->', '<?php', '?>', '<!A', '<![CDATA[', ']]>', '<b>', 'a', '', '> <div>', '- <!-- x -->', '    <div>', '<style>x</style>', '```']


def put(t):
    return t[0].replace('%s', ''.join(t[1:]))


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    one = []            # one character, the colon included, spelled differently
    for w in WORDS:
        for i, c in enumerate(w):
            for s in spell(c):
                one.append(w[:i] + s + w[i + 1:] + ':')
        one += [w + c for c in COLON]
        one.append(''.join(spell(c)[1] for c in w) + '&#58;')
        one.append(''.join(spell(c)[0] for c in w) + '&colon;')
    near = []           # one character inserted, removed, doubled or percent-encoded
    for w in WORDS[:4]:
        s = w + ':'
        for i in range(len(s) + 1):
            for c in list(map(chr, range(1, 128))) + ['\\', '&#0;', '&#1;', '&#9;', '&#10;', '&#13;', '&#32;', '&NewLine;', '&Tab;', '&nbsp;', '\xa0', '\u200b', '\u2028', '\ufeff', '\u017f', '\u0131', '\u212a', '\xe9', 'http:', './', '#', '?', '&amp;', 'a&b;']:
                near.append(s[:i] + c + s[i:])
        for i in range(len(s)):
            near.append(s[:i] + s[i + 1:])
            near.append(s[:i] + '%%%02X' % ord(s[i]) + s[i + 1:])
            for c in '\u017f\u0131\u0130\u212a\uff1a\uff4a\u2236':
                near.append(s[:i] + c + s[i + 1:])
    near = list(dict.fromkeys(near))
    return [
        Exploration('schemes, characters spelled', Slots(PLACES, one, TAILS, join=put), safe),
        Exploration('schemes, letter case', Slots(FEW, cases('javascript') + cases('vbscript') + cases('file') + cases('data'), [':', '&colon;'], ['', 'image/png', 'text/html'], join=put), safe),
        Exploration('image types, letter case', Slots(FEW, cases('data')[::5], [':'], cases('image')[::3] + ['&#105;mage'], ['/'], cases('png') + cases('gif') + cases('jpeg')[::3] + cases('webp')[::3] + ['svg', 'bmp', 'tiff', 'x', '', 'p', 'pn', 'jpe', 'jpg', 'web', '&#112;ng', 'p%6eg'], join=put), safe),
        Exploration('near misses', Slots(FEW if q else PLACES, near, ['x', 'image/png'], join=put), safe),
        Exploration('long destinations', Slots(FEW + PLACES[9:10], ['javascript:', 'vbscript:', 'file:', 'data:', 'data:image/png', 'http:', 'JAVASCRIPT&colon;', './file:'], ['b', '/c', 'data:', '&amp;', '%20', '\xe9', 'image/png,'], [1, 31, 64, 256, 1000, 2100, 5000], join=lambda t: t[0].replace('%s', t[1] + t[2] * t[3])), safe),
        Exploration('many links', Slots(['[a](javascript:x) ', '![a](file:x) ', '<data:x> ', '<b> ', '- [a](vbscript:)\n', '> <div>\n\n', '[r] '], ['[c](d) ', '<e>', '', '\n\n', '*f* '], [2, 10, 50, 300], join=lambda t: (t[0] + t[1]) * t[2] + '\n\n[r]: javascript:y'), safe),
        Exploration('raw HTML inline', Product(HTML, 3 + d, wraps=[('', ''), ('![x', '](u)'), ('- # ', ''), ('[', '](file:x)')]), safe),
        Exploration('raw HTML blocks', Product(BLOCKS, 3 + d, sep='\n', wraps=[('', ''), ('> ', '')]), safe),
        Exploration('lines', docs.lines(3 + d), safe),
        Exploration('lines of HTML', docs.tag_lines(3 + d), safe),
        Exploration('inline texts in every place', docs.placed(docs.FEW_PARTS if q else docs.PARTS), safe),
        Exploration('texts of several blocks', docs.several(2, docs.FEW_PARTS if q else docs.PARTS), safe),
        Exploration('inline constructs', docs.inlines(3 + d), safe),
        Exploration('nested blocks', docs.nested(2 + d), safe),
        Exploration('written documents', docs.written(1, 1 if q else 2), safe),
        Exploration('pumped', docs.pumps([2, 3, 5, 9, 17, 40]), safe),
        Exploration('pumped, safe', docs.pumps([2, 3, 5, 9, 40], fragments=['<b>', '[a](file:x)', '![a](data:x)', '![<b>', '[<b>', '](file:x)', '<div>\n', '- <b>', '> <div>\n', '<!-- a -->\n\n', '<file:x>', '*<b>*']), safe),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), safe),
        Exploration('texts mentioned in the code', docs.mentioned_places(), safe),
    ]


run = runner.make(plan)
