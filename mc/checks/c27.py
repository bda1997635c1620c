"""Nothing lost: the letters and digits of every document come out once each and in order."""
import html as stdhtml
import re

import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('each text place of a document gets the next of a cycle of letters and digits from many scripts; in the HTML (plain, smart, safe) and in the literals of '
        'the parse tree they must stand exactly once and in the order of the source; the markup tokens carry their own ASCII text, which is not counted; '
        'outcome = the HTML; trivial = documents in which a text place has become a destination, an info string or part of a definition')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within',
               'besides definitions, destinations and titles, the info string after its first word, the numbers of list items, the labels of full references and the '
               'names of character references are markup']

W = '\u03c9'
CYCLE = ['\u03b1', '\u0416', '\u0663', '\u5b57', '\xdf', '\u017f', '\U00010400', '\xe9', '\ud55c', '\u096f', '\ufb01', '\u01c5', '\u212a', '\u0130', '\U0001d7d8', '\u2160']
ACYCLE = ['a', 'B', '7', 'c', 'D', '0', 'e', '3', 'Z']


def fill(doc, cycle):
    parts = doc.split(W)
    out = [parts[0]]
    for i, p in enumerate(parts[1:]):
        out.append(cycle[i % len(cycle)])
        out.append(p)
    return ''.join(out), [cycle[i % len(cycle)] for i in range(len(parts) - 1)]


INFO = re.compile(r'^[ >*+-]*(?:[0-9]+[.)])?[ >*+-]*(?:(`{3,})[^`\n]*%s|~{3,}[^\n]*%s)' % (W, W), re.M)
LINKED = re.compile(r'\]\((?!U)|\]:(?! /U)|\[R\]: /U *%s' % W)


def letters(s, cycle):
    k = set(cycle)
    return [c for c in s if c in k]


def kept(doc):
    if W not in doc or INFO.search(doc) or LINKED.search(doc):
        return None, None
    doc, want = fill(doc, CYCLE)
    out = None
    for smart in (False, True):
        ast = parse(doc, smart=True) if smart else parse(doc)
        for safe in (False, True):
            if safe and '<' in doc:
                continue
            h = render(ast, safe=safe)
            got = letters(h, CYCLE)
            if got != want:
                return differ(doc, want, got) + '\n  smart=%s safe=%s: %r' % (smart, safe, h), None
            out = out or h
        tree = ''.join([(n.info or '') + n.literal if n.t == 'code_block' else n.literal for n, e in ast.walker() if e and n.literal is not None])
        if letters(tree, CYCLE) != want:
            return differ(doc, want, letters(tree, CYCLE)) + '\n  literals of the tree', None
    return None, out


IMG = re.compile(r'<img [^>]*?alt="([^"]*)"[^>]*>')


def ascii_kept(doc):
    """documents without any ASCII letter or digit in markup, raw HTML or character reference"""
    if W not in doc or INFO.search(doc) or LINKED.search(doc):
        return None, None
    doc, want = fill(doc, ACYCLE)
    h = html(doc)
    t = stdhtml.unescape(re.sub('<[^>]*>', '', IMG.sub(r'\1', h)))
    got = [c for c in t if c.isalnum()]
    if got != want:
        return differ(doc, want, got) + '\n  %r' % h, None
    return None, h


LINES = ['', W, '> ' + W, '- ' + W, '10. ' + W, '    ' + W, '# ' + W, '---', '```', '<div>', '<!-- ' + W, '-->', '[R]: /U', '  ' + W, '*' + W + '* [' + W + '][R]', '===', '>', '-', '- - ' + W, '\t' + W, '> - ' + W, W + '  ', W + '\\', '`' + W, W + '`', '# ' + W + ' #', '>\t' + W, '-\t' + W, '~~~', '   ' + W, ' - ' + W, '+ ' + W]
FEW_LINES = ['', W, '> ' + W, '- ' + W, '    ' + W, '```', '  ' + W, '1. ' + W, '# ' + W, '\t' + W, '[R]: /U']
INLINES = [W, ' ', '*', '**', '_', '`', '[', '](U)', '![', '](U "T")', '<B>', '<CC:' + W + '>', '&AMP;', '&', '\\', '\n', '  \n', '<', '"', "'", '[R]', '--', '...', ']', '<!-- ' + W + ' -->', '\\\n', '[' + W + '][R]', '__', '``', '<B C="' + W + '">', '!', '&#65;', '\t', '.']
FEW = [W, ' ', '*', '_', '**', '`', '[', '](U)', '![', '\n', '"', '\\', '&AMP;', '<', W + W]
REFS = '\n\n[R]: /U\n'
LEAVES = [W, '*%s* `%s`' % (W, W), '# ' + W, '    ' + W, '```\n%s\n\n%s\n```' % (W, W), '<div>\n%s\n</div>' % W, '***', W + '\n===', '%s  \n%s\n%s' % (W, W, W), '[%s](U "T")' % W, '![%s](U)' % W, '', '<B>%s</B>' % W, '[R]: /U', '<!-- ' + W, '~~~\n' + W, '%s\n\n%s' % (W, W), '```' + 'P' + '\n' + W, '%s\n# %s\n%s' % (W, W, W), '\t%s\n\n\t%s' % (W, W)]
FRAGMENTS = [W + x for x in (' ', '\n', '\n\n', '*', '_', '`', '[', ']', '](U)', '\\', '"', '  \n', '<', '&', '\t', '\r', '\r\n', '\0')] + ['*' + W, '**%s' % W, '- %s\n' % W, '> %s\n' % W, '>', '- ', '[%s](U) ' % W, '![%s' % W, '*%s_' % W, '`%s``' % W, '# %s\n' % W, '    %s\n' % W, '    %s\n\n' % W, '1. %s\n\n' % W, '- %s\n\n  %s\n\n' % (W, W), '%s\n===\n' % W,
             '~~~\n%s\n~~~\n' % W, '<div>\n%s\n\n' % W, '<CC:%s>' % W, '<!-- %s -->' % W, '[R]: /U\n', '_%s_%s' % (W, W), '"%s' % W, "%s'" % W, W + '--', W + '...', '> - %s\n' % W, '- > %s\n' % W]


SINGLE = ['%s', '# %s', '## %s #', '%s\n===', '> %s', '- %s', '-  %s', '2. %s', '    %s', '\t%s', '~~~\n%s', '> - %s', '-\n  %s', '*%s*', '*%s', '**%s**', '_%s_', '`%s`', '`` %s ``', '[%s]', '![%s', '%s\n    %s', '%s\n%s', '"%s"', '\\\n%s', '  \n%s', '# # %s',
          '-\t%s', '>%s', '* * %s', '#%s', '*\n%s', '%s\n- %s', '%s\n\n%s', '- %s\n\n  %s', '%s  \n%s', '%s\\\n%s', '###### %s', '# %s *%s*', '&%s', '!%s', '<%s', '\\%s', '- - %s', '>\t%s', '--%s', '...%s', '~~~\n\n%s\n\n~~~', "'%s'", '10) %s', '# \t%s\t']
FORMS = ['c', 'cc', 'c c', ' c', 'c.', '.c', 'c-c', 'c\tc', 'c#', 'cd', 'dc', 'd c', 'c d', 'c d c', '(c', 'c*', '*c', 'c\\', 'c:']


def single(item):
    """every ASCII letter and digit, first, alone and last in every place"""
    tpl, form, c = item
    if tpl.startswith('<') and not form.startswith((' ', '.', '(', '*')) or tpl.startswith('&') or tpl in ('[%s]',) and form == 'c:':
        return None, None
    s = form.replace('c', c).replace('d', 'K' if c != 'K' else 'L')
    doc = tpl.replace('%s', s)
    if c.isdigit() and form == 'c.':
        return None, None               # may be a list number
    want = [x for x in s * tpl.count('%s') if x.isalnum()]
    h = html(doc)
    t = stdhtml.unescape(re.sub('<[^>]*>', '', h))
    got = [x for x in t if x.isalnum()]
    if got != want:
        return differ(doc, want, got) + '\n  %r' % h, None
    return None, h


WRAP = ['*%s*', '**%s**', '_%s_', '[%s](U)', '![%s](U "T")', '`%s`', '"%s"', W + '%s' + W, '%s\n' + W, '%s  \n' + W, '<B>%s</B>', '\\%s&AMP;', '[%s][R]', "*%s '" + W + "'*"]
CORE = [W, '`%s`' % W, '*%s*' % W, '![%s](U)' % W, '[%s](U)' % W, '<CC:%s>' % W, '%s\n%s' % (W, W), '%s\\\n%s' % (W, W), '&AMP;' + W, '**%s**%s' % (W, W), '[%s]' % W, '<!-- %s -->' % W, '``%s`%s``' % (W, W), '_%s*' % W]


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('lines', Product(LINES, 3 + d, sep='\n'), kept),
        Exploration('few lines', Product(FEW_LINES, 4 + d, sep='\n', lo=4), kept),
        Exploration('inlines', Product(INLINES, 3 + d, wraps=[('', REFS)]), kept),
        Exploration('few inlines', Product(FEW, 4 + d, lo=4, wraps=[('', REFS)]), kept),
        Exploration('inlines with text between', Product(['*', '**', '_', '`', '[', '](U)', '![', '"', '\n', ' '], 4 if q else 5, lo=2, sep=W, wraps=[('', W), (W, '')]), kept),
        Exploration('inlines in places', Product([x for x in INLINES if x not in ('\n', '  \n', '\\\n')], 2, wraps=[('# ', ''), ('> ', ''), ('- ', ''), (W, W), ('**', '**'), ('[', '](U)'), ('![', '](U "T")'), ('', '\n==='), ('    ', ''), ('~~~\n', ''), ('<div>\n', ''), ('> - > ', REFS), ('<!--', '')]), kept),
        Exploration('nested blocks', docs.nested(2 + d, [x for x in LEAVES]), kept),
        Exploration('inline constructs in one another', Slots(WRAP, WRAP, WRAP, CORE, join=lambda t: W + t[0].replace('%s', t[1].replace('%s', W + t[2].replace('%s', t[3]) + W)) + REFS), kept),
        Exploration('single letters and digits', Slots(SINGLE, FORMS, [chr(i) for i in range(48, 123) if chr(i).isalnum()], join=tuple), single),
        Exploration('leaving containers', docs.leaving(2 + d, tuple(x.replace('W', W) for x in ('W', '```\nW\n```', '    W', 'W\n\nW')), tuple(x.replace('W', W) for x in ('W', '    W', '# W', '- W', '> W', '![W](U)', '`W`'))), kept),
        Exploration('ASCII inlines', Product([W, ' ', '*', '**', '_', '`', '[', ']', '![', '\n', '\\', '"', '&', '~', '#', '-', ' ' + W + ' '], 4 + d), ascii_kept),
        Exploration('ASCII lines', Product(['', W, '> ' + W, '- ' + W, '    ' + W, '# ' + W, '---', '```', '  ' + W, '===', '>', '-', '\t' + W, '- - ' + W, '~~~', W + '  ', W + '\\', '+   ' + W], 3 + d, sep='\n'), ascii_kept),
        Exploration('pumped', Slots([2, 3, 5, 9, 17, 40, 100] if q else [2, 3, 5, 9, 17, 40, 100, 150, 257], FRAGMENTS, FRAGMENTS[::3] if q else FRAGMENTS, join=lambda t: t[1] * t[0] + t[2] * 3 + t[1] + REFS), kept),
        Exploration('lines mentioned in the code', docs.mentioned_lines((W, ' ' + W, '\n' + W, '\n\n' + W, '\n  ' + W + '\n--'), ('', W + '\n', '> ', '- ' + W, W, '    ', ' ')), kept),
        Exploration('inlines mentioned in the code', docs.mentioned_inlines(('', W, '*' + W + ' ', '[', W + ' <', '\\'), (W, ' ' + W + '*', W + '](U)', '>' + W, '\n' + W)), kept),
    ]


run = runner.make(plan)
