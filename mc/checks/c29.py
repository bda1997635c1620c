"""Quoting: every text can be written as literal text, code, destination, title, label, info string and raw HTML."""
import re

import docs
import harvest
import refmodel
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('each text is written, by the rules the specification gives for it, as escaped text, as character references, as code spans, fenced and indented code blocks, '
        'destination, title, image description, label, info string, and inside raw HTML, at top level and in containers; the output must hold exactly the text '
        '(percent-encoded in a destination, with spaces for line endings in a code span); outcome = the text')
ASSUMPTIONS = ['texts outside the enumerated spaces behave like those within', 'NUL and unpaired surrogates are left to C09 and C17']

PUNCT = set('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')
WS = ' \t\n\x0b\x0c\r'


def escaped(s):
    return ''.join('\\' + c if c in PUNCT else c for c in s)


def referable(c):
    """a reference to it is the character itself"""
    return c != '\0' and not 0xd800 <= ord(c) < 0xe000


def referred(s):
    return ''.join('&#%d;' % ord(c) if referable(c) else c for c in s)


def referred_hex(s):
    return ''.join('&#X%X;' % ord(c) if referable(c) else c for c in s)


def mixed(s):
    return ''.join(('\\' + c if i % 2 else '&#x%x;' % ord(c)) if c in PUNCT else c for i, c in enumerate(s))


def sparing(s):
    """a backslash that cannot escape anything is left alone"""
    return ''.join('\\' + c if c in PUNCT and (c != '\\' or s[i + 1:i + 2] in PUNCT or s[i + 1:i + 2] in ('', '\n')) else c for i, c in enumerate(s))


E = refmodel.esc
TEXT = [('%s', '<p>%s</p>\n'), ('x %s', '<p>x %s</p>\n'), ('# %s', '<h1>%s</h1>\n'), ('### %s ##', '<h3>%s</h3>\n'), ('%s\n---', '<h2>%s</h2>\n'), ('> - %s', '<blockquote>\n<ul>\n<li>%s</li>\n</ul>\n</blockquote>\n'),
        ('**x%sx**', '<p><strong>x%sx</strong></p>\n'), ('[%s](u)', '<p><a href="u">%s</a></p>\n'), ('y\n%s\nz', '<p>y\n%s\nz</p>\n'), ('[%s][r]\n\n[r]: v', '<p><a href="v">%s</a></p>\n'),
        ('*[%s](u) y*', '<p><em><a href="u">%s</a> y</em></p>\n'), ('%s  \n%s', '<p>%s<br />\n%s</p>\n'), ('![%s](u)', '<p><img src="u" alt="%s" /></p>\n'), ('![*%s*](u)', '<p><img src="u" alt="%s" /></p>\n')]


def literal(s):
    """a text of one line"""
    t = s.strip(WS)
    if not t or '\n' in t or '\r' in t:
        return None, None
    for i, f in enumerate((escaped, referred, mixed, referred_hex, sparing)):
        form = f(t)
        for tpl, out in TEXT if i < 2 else TEXT[:3]:
            doc = tpl.replace('%s', form)
            if tpl.startswith('![*') and (t[0] in WS or t[-1] in WS):
                continue
            want = out.replace('%s', E(t))
            got = html(doc)
            if got != want and not (tpl.startswith('![*') and flanks(form)):
                return differ(doc, want, got), None
            got = html(doc, smart=True)
            if (i < 2 or not set(t) & set('\'"-.')) and got != want and not (tpl.startswith('![*') and flanks(form)):
                return 'smart: ' + differ(doc, want, got), None
    return None, t


def flanks(form):
    """white space next to the delimiters keeps them from being emphasis"""
    return form[0].isspace() or form[-1].isspace()


def runs(s):
    return set(len(m) for m in re.findall('`+', s))


def code_span(s, k):
    s = s.replace('\n', ' ')
    n = 1
    while n in runs(s) or k:
        if n not in runs(s):
            k -= 1
        n += 1
    fence = '`' * n
    if s.strip(' ') and (s[0] == '`' or s[-1] == '`' or s[0] == s[-1] == ' '):
        return '%s %s %s' % (fence, s, fence)
    return fence + s + fence


SPANS = [('x %s', '<p>x %s</p>\n'), ('# %s', '<h1>%s</h1>\n'), ('- *y*%s', '<ul>\n<li><em>y</em>%s</li>\n</ul>\n'), ('x [%s](u)', '<p>x <a href="u">%s</a></p>\n'), ('*%s*', '<p><em>%s</em></p>\n'), ('y%s_', '<p>y%s_</p>\n'), ('x[%s', '<p>x[%s</p>\n'), ('y\n%sz\nz', '<p>y\n%sz\nz</p>\n')]


def spans(s):
    if not s or '\n' in s or '\r' in s:
        return None, None
    for k in (0, 1):
        for tpl, out in SPANS:
            doc = tpl.replace('%s', code_span(s, k))
            want = out.replace('%s', '<code>%s</code>' % E(s))
            for smart in (False, True):
                got = html(doc, smart=smart)
                if got != want:
                    return differ(doc, want, got), None
    alt = html('![%s](u)' % code_span(s, 0))
    if alt != '<p><img src="u" alt="%s" /></p>\n' % E(s):
        return differ('![%s](u)' % code_span(s, 0), E(s), alt), None
    return None, s


def fence_for(s, c):
    n = 2
    for m in re.findall('%s+' % c, s):
        n = max(n, len(m))
    return c * (n + 1)


def indent(doc, first, rest):
    ls = doc.split('\n')
    return '\n'.join([first + ls[0]] + [rest + x for x in ls[1:]])


def blocks_of(s):
    """documents whose only leaf is a code block holding the text, with the expected HTML"""
    body = '<pre><code>%s\n</code></pre>\n' % E(s)
    for c in '`~':
        f = fence_for(s, c)
        for ind in (0, 1, 3):
            pad = ' ' * ind
            yield '\n'.join(pad + x for x in [f] + s.split('\n') + [f]), body
            if c == '~':
                break
        yield f + '\n' + s + '\n' + f + c, body
        yield f + '\n' + s + '\n', body
        yield '%s p q\n%s\n  %s  ' % (f, s, f), body.replace('<code>', '<code class="language-p">')
        yield indent(f + '\n' + s + '\n' + f, '> ', '> '), '<blockquote>\n%s</blockquote>\n' % body
        yield indent(f + '\n' + s + '\n' + f, '1. ', '   '), '<ol>\n<li>\n%s</li>\n</ol>\n'.replace('ul', 'ol') % body
        yield indent(indent(f + '\n' + s + '\n' + f, '- ', '  '), '> ', '> ') + '\nx', '<blockquote>\n<ul>\n<li>\n%s</li>\n</ul>\n</blockquote>\n<p>x</p>\n' % body
        yield indent(f + '\n' + s, '- ', '  ') + '\n', '<ul>\n<li>\n%s</li>\n</ul>\n' % body
    ls = s.split('\n')
    if ls[0].strip(' \t') and ls[-1].strip(' \t'):
        four = '\n'.join('    ' + x for x in ls)
        yield four, body
        yield 'y\n\n' + four + '\nz', '<p>y</p>\n' + body + '<p>z</p>\n'
        yield '# y\n' + four + '\n\n# z', '<h1>y</h1>\n' + body + '<h1>z</h1>\n'
        yield '\n'.join('\t' + x for x in ls), body
        yield indent(four, '> ', '> '), '<blockquote>\n%s</blockquote>\n' % body
        yield indent(four, '10) ', '    '), '<ol start="10">\n<li>\n%s</li>\n</ol>\n' % body
        yield '\n'.join('    ' + x if x else '' for x in ls) + '\n\n', body


def blocks(s):
    if '\r' in s:
        return None, None
    for doc, want in blocks_of(s):
        got = html(doc)
        if got != want:
            return differ(doc, want, got), None
        got = html(doc, smart=True, safe=True)
        if got != want:
            return 'smart and safe: ' + differ(doc, want, got), None
    return None, s


VERBATIM = [('<!--\n%s\n-->', r'-->'), ('<?\n%s\n?>', r'\?>'), ('<![CDATA[\n%s\n]]>', r'\]\]>'), ('<!X\n%s\n>', r'>'), ('<script>\n%s\n</script>', r'(?i)</(?:script|pre|style)>'), ('<PRE\n%s\n</pre>', r'(?i)</(?:script|pre|style)>'), ('<!-- %s -->', r'-->|\n'), ('<!Y %s>', r'>|\n')]


def verbatim(s):
    """HTML blocks that go on to their end condition"""
    if '\r' in s:
        return None, None
    done = False
    for tpl, stop in VERBATIM:
        if re.search(stop, s) or tpl == '<!-- %s -->' and (s[:1] == '>' or s.endswith('-')):
            continue
        h = tpl.replace('%s', s)
        done = True
        for doc, want in ((h, h + '\n'), ('x\n' + h + '\ny', '<p>x</p>\n%s\n<p>y</p>\n' % h), (indent(h, '> ', '> '), '<blockquote>\n%s\n</blockquote>\n' % h), (indent(h, '- ', '  ') + '\ny', '<ul>\n<li>\n%s\n</li>\n</ul>\n<p>y</p>\n' % h)):
            got = html(doc)
            if got != want:
                return differ(doc, want, got), None
    return None, (s if done else None)


TAG = re.compile(r'[A-Za-z][A-Za-z0-9]*(?:[ \t]|/?$)')      # at the start of a line <div> is an HTML block, no destination


def attributes(s):
    """destination, title, info string and label, each read back from the tree and from the HTML"""
    if '\r' in s:
        return None, None
    one = '\n' not in s
    u = refmodel.uri(s)
    for i, f in enumerate((escaped, referred) + ((sparing,) if '\\' in s else ())):
        form = f(s)
        i %= 2
        if i and not all(referable(c) for c in s):
            continue
        tests = []
        if one or i:
            tests += [('[x](<%s>)' % form, u, ''), ('![x](<%s> "t")' % form, u, 't'), ('[x]\n\n[x]: <%s>' % form, u, ''), ('![x][y]\n\n[y]:%s<%s>\n\'t\'' % (' ' if TAG.match(form) else '\n', form), u, 't')]
            tests += [('[x](u "%s")' % form, 'u', s), ("![x](<> '%s')" % form, '', s), ('[x](u (%s))' % form, 'u', s), ('[x]\n\n[x]: u "%s"' % form, 'u', s), ('[x][]\n\n[x]: u\n(%s)' % form, 'u', s)]
        if s and (i or not re.search(r'[\x00-\x20\x7f]', s)):
            tests += [('[x](%s)' % form, u, ''), ('[x](%s \'t\')' % form, u, 't'), ('[x]\n\n> [x]: %s' % form, u, '')]
        for doc, dest, title in tests:
            n = parse(doc).first_child.first_child
            if n is None or n.t not in ('link', 'image') or n.destination != dest or (n.title or '') != title:
                return '%r: wanted a link to %r with title %r, got %r' % (doc, dest, title, n and (n.t, n.destination, n.title, n.literal)), None
            want = '<p>%s</p>\n' % (('<a href="%s"%s>x</a>' if n.t == 'link' else '<img src="%s" alt="x"%s />') % (E(dest), ' title="%s"' % E(title) if title else ''))
            got = html(doc)
            if got != want and got != want + '<blockquote>\n</blockquote>\n':
                return differ(doc, want, got), None
        if s and (i or s == s.strip() and one):
            for doc in ('~~~' + form + '\nx\n~~~', '- ``` ' + form + ' \n  x'):
                if '`' in form and doc[0] == '-':
                    continue
                n = parse(doc).first_child
                n = n if n.t == 'code_block' else n.first_child.first_child
                if n.info != s:
                    return '%r: info string %r, not %r' % (doc, n.info, s), None
                if not re.search(r'\s', s):
                    got = html(doc)
                    if '<pre><code class="language-%s">x\n</code></pre>' % E(s) not in got:
                        return differ(doc, s, got), None
        if s.strip(WS) and len(form) < 990 and one and (i or s.strip(WS) == s):
            for doc, want in (('[%s]\n\n[%s]: /u', '<p><a href="/u">%s</a></p>\n'), ('[x][%s]\n\n[%s]: /u', '<p><a href="/u">x</a></p>\n'), ('![%s][]\n\n[  %s\t]: /u', '<p><img src="/u" alt="%s" /></p>\n'), ('[%s]: /u\n[x [%s]', '<p>[x <a href="/u">%s</a></p>\n')):
                got = html(doc.replace('%s', form))
                if got != want.replace('%s', E(s)):
                    return differ(doc.replace('%s', form), want.replace('%s', E(s)), got), None
    return None, s


TOKENS = list('*_`[]<>&#-+.!\\"\'()=~:1a @/|%') + ['\t']
FEW = ['*', '`', '[', ']', '<', '>', '&', '\\', '"', ' ', 'a', '-', '#', '(', ')', '!', '_']
ODD = ['\xa0', '\u2003', '\x0b', '\x0c', '\x1f', '\x7f', '\xe9', '\u4e2d', '\U0001f600', '\u2028', '\x85', '\ufeff', '\u200b', '\u0130', '\xdf', '\ufffd', '\uffff', '\U0010ffff', ' ', 'a', '*', '`', '&', '\\', '\u0301', '\x1c', '\xad']
LINES = ['', ' ', 'a', '```', '~~~', '> b', '- c', '    d', '\te', '# f', '---', '<div>', '[r]: /u', '`', '~~~~', '  g', '===', '-->', '\\', '&amp;', '>', '*h*', '     ', '</script>', '      i', '\t', '1. j', '``` k', '   ```', 'l  ', '-']
FEW_LINES = ['', 'a', '```', '~~~', '> b', '- c', '    d', '\te', '<div>', '  ', '`']
PIECES = docs.INLINES + docs.FRAGMENTS + docs.CHARS


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    uniq = sorted((x for x in set(PIECES) if '\0' not in x and '\r' not in x), key=PIECES.index)
    out = []
    for name, judge in (('as text', literal), ('as code spans', spans), ('as attributes', attributes)):
        out += [
            Exploration('characters ' + name, Product(TOKENS, 2 + d), judge),
            Exploration('few characters ' + name, Product(FEW, 3 + d, lo=3), judge),
            Exploration('odd characters ' + name, Product(ODD, 2 + d), judge),
            Exploration('pieces ' + name, Product(uniq, 1 if q else 2), judge),
            Exploration('texts mentioned in the code ' + name, Slots(['', 'a', ' '], harvest.strings(), ['', 'b'], join=''.join), judge),
            Exploration('repeated ' + name, Slots(FEW + ['``', '\\`', '&amp;', '](', '**a'], [4, 5, 8, 16, 33, 100], ['', 'a'], join=lambda t: t[0] * t[1] + t[2]), judge),
        ]
    out += [Exploration('few pieces as code spans', Product(['`', '``', '```', '\\', ' ', 'a', '<b>', '*', '[', '](u)', '<!--', '&amp;', '<cc:d>', '<?'], 4 + d, lo=1), spans)]
    for name, judge in (('as code blocks', blocks), ('in HTML blocks', verbatim)):
        out += [
            Exploration('lines ' + name, Product(LINES, 2 if q else 3, sep='\n'), judge),
            Exploration('few lines ' + name, Product(FEW_LINES, 4 if q else 5, lo=3, sep='\n'), judge),
            Exploration('characters ' + name, Product(TOKENS, 2), judge),
            Exploration('odd characters ' + name, Product(ODD + ['\n'], 2 + d), judge),
            Exploration('texts mentioned in the code ' + name, Slots(['', 'a', ' ', '\n'], harvest.strings(), ['', 'b', '\nb'], join=''.join), judge),
            Exploration('documents ' + name, docs.nested(1), judge),
            Exploration('repeated ' + name, Slots(['`', '~', '\t', ' ', '>', '\n', '- ', '\n\n ', '<', '-', '```\n'], [4, 5, 8, 16, 33, 100], ['', 'a', '\na'], ['', 'b', 'b\n'], join=lambda t: t[3] + t[0] * t[1] + t[2]), judge),
        ]
    return out


run = runner.make(plan)
