"""Unicode: every code point in every kind of place, against its class."""
import unicodedata

import docs
import refmodel
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('every code point from 0 to U+10FFFF is put between delimiter runs, into labels, destinations and text, and the result compared with what its '
        'Unicode category, case folding and UTF-8 form demand; code points of every category (and all that have case or are in scripts with case) are '
        'put into templates of every construct, where the output must be that of a private-use, a punctuation or a space character of the same class '
        'with the code point put back; the classes\' representatives are compared with the reference model; outcome = the outputs')
ASSUMPTIONS = ['documents outside the enumerated templates treat code points as those within', 'categories and foldings are those of the running Python\'s unicodedata',
               'info strings may be split at any Unicode white space (the specification does not say), so code points for which str.isspace holds but '
               'which are not white space in the specification are left out of the info string']

BLOCK = 64
ASCII_PUNCT = set('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')


def klass(c):
    k = unicodedata.category(c)
    if k == 'Zs' or c in '\t\n\x0c\r ':
        return 'space'
    if k[0] == 'P' or c in ASCII_PUNCT:
        return 'punct'
    return 'other'


def pct(c):
    if 0xd800 <= ord(c) <= 0xdfff:
        c = '\ufffd'
    return ''.join('%%%02X' % b for b in c.encode('utf-8'))


def flanking(c, smart=False):
    k = klass(c)
    sep = k != 'other'
    P = lambda doc, cond, yes: (doc, '<p>%s</p>\n' % (yes if cond else doc))
    yield P('a*%sb*' % c, not sep, 'a<em>%sb</em>' % c)
    yield P('*b%s*a' % c, not sep, '<em>b%s</em>a' % c)
    yield P('a%s*!b*' % c, sep, 'a%s<em>!b</em>' % c)
    yield P('*b!*%sa' % c, sep, '<em>b!</em>%sa' % c)
    yield P('a%s_b_' % c, sep, 'a%s<em>b</em>' % c)
    yield P('_b_%sa' % c, sep, '<em>b</em>%sa' % c)
    yield P('a%s__!b__' % c, sep, 'a%s<strong>!b</strong>' % c)
    yield P('__b__%sa' % c, sep, '<strong>b</strong>%sa' % c)


def text(c):
    for d in ('x%sy', '%s', '%sy', 'x%s', '%s%s', 'x \\%s'):
        d = d.replace('%s', c)
        yield d, '<p>%s</p>\n' % d
    for d in ('1%s. x', '%s) x', '-%sx', '#%sx', '&#%s;', '&#x%s;', '&#1%s1;', '&a%sp;', '<%sa>', '<a%s>', '<ab%s:b>', '<%sab:b>', '<a@%s.c>', '<a@b%s>', '<a%s@b.c>', '+%s', '</a%s>', '<a b=%s">', '<!%sX>', '*%s', '_%s', '#%s', '%s# x', '%s> x',
              '~~%s~', '`%s``', '=%s', '==%s'):
        d = d.replace('%s', c)
        yield d, '<p>%s</p>\n' % d.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def places(c):
    yield '[x](%s)' % c, '<p><a href="%s">x</a></p>\n' % pct(c)
    yield '[x](<a%sb> "%s")' % (c, c), '<p><a href="a%sb" title="%s">x</a></p>\n' % (pct(c), c)
    yield '<aa:b%sc>' % c, '<p><a href="aa:b%sc">aa:b%sc</a></p>\n' % (pct(c), c)
    yield '![x%sy](/%s)' % (c, c), '<p><img src="/%s" alt="x%sy" /></p>\n' % (pct(c), c)
    yield '`a%sb`' % c, '<p><code>a%sb</code></p>\n' % c
    if not (0xfdd0 <= ord(c) <= 0xfdef or ord(c) & 0xfffe == 0xfffe):
        yield '&#%d;&#x%x;' % (ord(c), ord(c)), '<p>%s</p>\n' % (c + c)
    yield '    %s' % c, '<pre><code>%s\n</code></pre>\n' % c
    yield '# %s #' % c, '<h1>%s</h1>\n' % c


def compare(pairs, around=lambda d: d):
    """all paragraphs in one document; if that fails, find which"""
    pairs = list(pairs)
    want = ''.join(w for _, w in pairs)
    got = html('\n\n'.join(d for d, _ in pairs))
    if got != want:
        for d, w in pairs:
            g = html(d)
            if g != w:
                return differ(d, w, g)
        return differ('\n\n'.join(d for d, _ in pairs), want, got)


def block(pairs_of):
    def judge(lo):
        cs = [chr(i) for i in range(lo, min(lo + BLOCK, 0x110000)) if i >= 0xa0]
        if pairs_of is places:
            # numeric references to surrogates and such: C09
            cs = [c for c in cs if not 0xd800 <= ord(c) <= 0xdfff]
        if not cs:
            return None, None
        m = compare(p for c in cs for p in pairs_of(c))
        return m, lo
    return judge


def labels(lo):
    """a label for every code point of the block: each resolves to the first with the same folding"""
    cs = [chr(i) for i in range(lo, min(lo + BLOCK, 0x110000)) if i >= 0x80]
    if not cs:
        return None, None
    return resolve(['a%sb' % c for c in cs], ['a%sb' % c for c in cs] + ['A%sB' % c.casefold() for c in cs] + ['a%sb' % c.upper() for c in cs] + ['ab', 'a b'])


def fold(s):
    return s.casefold()


def resolve(defs, refs):
    first = {}
    for i, d in enumerate(defs):
        first.setdefault(fold(d), i)
    doc = ''.join('[%s]: /%d\n' % (d, i) for i, d in enumerate(defs)) + '\n' + '\n\n'.join('[%s]' % r for r in refs)
    want = ''.join('<p>[%s]</p>\n' % r if fold(r) not in first else '<p><a href="/%d">%s</a></p>\n' % (first[fold(r)], r) for r in refs)
    got = html(doc)
    if got == want:
        return None, want
    for a, b in zip(want.split('\n'), got.split('\n')):
        if a != b:
            return 'labels %r...: %r where %r is expected' % (defs[:3], b, a), None
    return 'labels %r...: other length' % (defs[:3],), None


def folding_pairs():
    cased = [chr(i) for i in range(0x80, 0x110000) if chr(i).casefold() != chr(i) or chr(i).upper() != chr(i) or chr(i).lower() != chr(i)]
    near = sorted({y for x in cased for y in x.casefold() + x.upper() + x.lower() + x.title()} | set(cased) | set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'))
    return cased, near


def all_folds(k):
    """every character with case, in one document; the references in slices"""
    cased, near = folding_pairs()
    defs = cased if k % 2 == 0 else cased[::-1]
    refs = near[k // 2::16] + [f(c) for c in cased[k // 2::16] for f in (str.casefold, str.upper, str.lower, str.title)]
    return resolve(defs, [r for r in refs if r])


def marks(t):
    """two strings are the same label exactly if they fold alike: no normalisation, no dropping"""
    a, b = t
    m, _ = resolve([a], [b])
    return m, (fold(a) == fold(b), a)


FOLDED = ['s', 'S', 'ss', 'SS', '\xdf', '\u1e9e', 'k', '\u212a', '\xe5', '\u212b', 'a\u030a', '\u017f', 'i', 'I', '\u0130', '\u0131', 'i\u0307', '\u03c3', '\u03c2', '\u03a3', '\ufb01', 'fi', 'FI', '\u03b9', '\u0345', '\u1fb3', '\u03b1\u03b9', '\xb5', '\u03bc', '\xe9', 'e\u0301', '\xc9', '\u0390', '\u1fd3', '\u01c5', '\u01c4', '\u01c6',
          '\u10d0', '\u1c90', '\uab70', '\u13a0', '\u200d', 'a\u200d', 'a', '\ufe0f', 'a\xad', '\u2126', '\u03c9', '\uff41', '\u2160', '\u2170', '\U00010400', '\U00010428', '\u0149', '\u02bcn', '\u1e97', 't\u0308', '\ufb03', 'ffi', '\u0587', '\u0565\u0582']


TEMPLATES = docs.EVERYWHERE.replace('```{c} {c}\n', '```\n').split('\n\n') + [
    '<scr{c}pt>\na\n\nb', '<di{c}>\n\nb', '<s{c}tyle>\n\nb', '<{c}tyle>\na\n\nb', '<{c}div>\n*a*', '<div{c}>\n*a*', '<!{c}A>', '<?{c}', '</{c}ink>\n*a*', '<lin{c}>\n*a*',
    '<a{c}b:c>', '<m{c}:d>', '<x@{c}>', '<x@a{c}b.c>', '<a{c}b="c">', '<a b{c}="c">', '<a b={c}>', '<a b="c"{c}>', '<a {c} b>', '<a{c}/>', '</a{c}>', '<a\nb\n{c}=c>',
    '&{c}mp;', '&am{c};', '&#3{c};', '&#x{c}4;', '&{c};', '{c}. a', '1{c} a', '1{c}. a', '-{c}a', '*{c}a', '-{c}', '1.{c}a', '>{c}> a', '#{c}a', '#{c}', '# a {c}#', '# a #{c}', '# a{c}', '##{c}#',
    'a\n={c}', 'a\n---{c}', 'a\n{c}===', '*{c}* *', '---{c}', '{c}---', '***{c}***', '```\na\n{c}```\n```', '```\na\n```{c}\n```', '~~{c}~', '``{c}`', '` {c} `', '`{c}`',
    '[a]{c}(b)', '[a]({c}b)', '[a](b{c})', '[a](b{c}"c")', '[a](b "c"{c})', '[a](b "{c}")', '[a](<{c}>)', '[a](<b>{c})', '[a](({c}))', '[a](b{c}c)', '[a{c}](b)',
    '[a]:{c}/b\n\n[a]', '[a]: /b{c}\n\n[a]', '[a]: /b{c}"c"\n\n[a]', '[a]: /b "c"{c}\n\n[a]', '[a]{c}: /b\n\n[a]', '{c}[a]: /b\n\n[a]', '[a{c}]: /b\n\n[a]', '[a{c}c]: /b\n\n[a c]', '[{c}]: /b\n\n[{c}] [{c}][] [a][{c}]', '[a]{c}[b]\n\n[b]: /c', '[a][{c}b]\n\n[b]: /c', '[a][]{c}\n\n[a]: /c',
    'a{c}\nb', 'a\n{c}b', 'a{c} {c}\nb', 'a  {c}\nb', 'a\\{c}', 'a{c}\\\nb', 'a\n\n{c}', '{c}\n\na', 'a\n{c}\nb', '- a\n{c}\n\n  b', '- a\n\n {c} b', '    a\n{c}\n    b', '    a\n    {c}', '> a\n{c}> b', '- a\n{c}- b', '{c}', '{c}{c}', '{c}    a',
    '![{c}]({c} "{c}")', '![*{c}*](u)', '*a{c}*b', 'a*{c}b*', '*{c}a*', '*a*{c}*b*', '_a_{c}_b_', '**a{c}**b**', '***a{c}***b', 'a_{c}_b_', '{c}*a*{c}', '{c}_a_{c}', '.{c}*a*', '.{c}_a_', '*a*{c}.', '*.{c}*', '*{c}.*', '_.{c}_a', 'a_{c}._',
    '"{c}"', '{c}"a"', '"a"{c}', 'a{c}"b"', "'{c}'", "a'{c}b'", "{c}'a'", "'a'{c}b", '"a{c}"b"', '--{c}-', '.{c}..', '...{c}', '\'"{c}"\'']

REP = {'space': '\u2002', 'punct': '\u2e2e', 'other': '\ue000'}


def templates(i):
    c = chr(i)
    rep = REP[klass(c)]
    for t in TEMPLATES:
        a, b = t.replace('{c}', c), t.replace('{c}', rep)
        for smart in (False, True):
            want = html(b, smart=smart).replace(pct(rep), pct(c)).replace(rep, c)
            got = html(a, smart=smart)
            if got != want:
                return differ(a, want, got, klass(c), 'got') + ('\n  smart' if smart else ''), None
    return None, klass(c) + '%x' % i


def grouped(i):
    """the templates in one document, for more code points"""
    c = chr(i)
    rep = REP[klass(c)]
    b = ('\n\n', '\n\n<!-- -->\n\n')[0].join(t for t in TEMPLATES if '\n\n' not in t and not t.startswith(('<', '```', '~~~', '[')) and not t.startswith('    '))
    a = b.replace('{c}', c)
    b = b.replace('{c}', rep)
    for smart in (False, True):
        if html(a, smart=smart) != html(b, smart=smart).replace(pct(rep), pct(c)).replace(rep, c):
            m, o = templates(i)
            return m or differ(a, html(b, smart=smart), html(a, smart=smart)), None
    return None, i


def representatives(t):
    d = t[0].replace('{c}', t[1])
    got, want = html(d, smart=t[2]), refmodel.to_html(d, t[2])
    if got != want:
        return differ(d, want, got, 'model', 'code'), None
    return None, want


def interesting():
    out = set()
    seen = {}
    for i in range(0x80, 0x110000):
        c = chr(i)
        k = unicodedata.category(c)
        if k[0] in 'PZ' or k in ('Cc', 'Cf', 'Zl', 'Zp', 'Nd', 'Nl', 'No') or (k in ('Lu', 'Ll', 'Lt') and i < 0x3000) or c.casefold() != c or c.isspace() or c.isdigit():
            out.add(i)
        seen.setdefault((k, i >> 12), i)
    out |= set(seen.values())
    return sorted(out - {ord(REP['other'])})


def plan(tier):
    q = tier == 'quick'
    # planes 3 to 13 are unassigned, 15 and 16 private
    blocks = list(range(0, 0x30000, BLOCK)) + list(range(0xe0000, 0xe1000, BLOCK)) + [0x3ffc0, 0xeffc0, 0xf0000, 0x10ffc0] if q else list(range(0, 0x110000, BLOCK))
    number = '%d code points' % (len(blocks) * BLOCK)
    every = interesting()
    few = [i for i in every if chr(i).isspace() or unicodedata.normalize('NFKC', chr(i)) < '\x80' or chr(i).casefold() < '\x80' or i < 0x250]
    reps = list(REP.values()) + ['\xa0', '\u3000', '\xab', '\xe9', '\u4e00', '\U0001f600', '\u0301', '\u2028', '\x85', '\u017f', '\u212a', '\u0661', '\xb2', '\u200b', '\ufeff', '\ud800', '\u20ac', '\xa7', '\xb6']
    return [
        Exploration('flanking, every code point', Listed(blocks, about=number + ', 8 contexts'), block(flanking)),
        Exploration('places, every code point', Listed(blocks, about=number + ', 8 contexts'), block(places)),
        Exploration('labels, every code point', Listed(blocks, about=number + ', 3 references to each'), labels),
        Exploration('labels with case, all at once', Listed(range(32)), all_folds, chunk=1),
        Exploration('pairs of labels', Slots(FOLDED, FOLDED, join=tuple), marks),
        Exploration('never ASCII', Listed(every if q else range(0x80, 0x110000)), lambda i: (compare(text(chr(i))), i)),
        Exploration('templates together', Listed(every if q else [i for i in range(0x80, 0x110000) if i != 0xe000]), grouped),
        Exploration('templates one by one', Listed(few if q else every), templates),
        Exploration('representatives and the model', Slots(TEMPLATES, reps, [False, True], join=tuple), representatives),
        Exploration('ASCII and the model', Slots(TEMPLATES, [chr(i) for i in range(1, 128)], [False, True], join=tuple), representatives),
        Exploration('pairs of characters and the model', Slots(['*{c}*', 'a*{c}*', '*{c}*a', '"{c}"', '_{c}_a', 'a_{c}_', '{c}', '[a]({c})', '[{c}]: /u\n\n[{c}]', 'a {c}\nb'], [a + b for a in reps + list('a* _!') for b in reps + list('a* _!')], [False, True], join=tuple), representatives),
    ]


run = runner.make(plan)
