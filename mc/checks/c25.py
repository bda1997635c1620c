"""Options: the sourcepos attribute and the soft break, in every combination with the other options."""
import re

import docs
from lib import *
import runner
from checks.c11 import OMIT, unsafe

LEVEL = 'exploration'
RULE = ('for every setting of smart and safe the HTML with sourcepos must be the plain one plus exactly the positions of the parse tree, in walk order, '
        'on block elements; the HTML with a softbreak text must be the plain one with that text for the newline of each softbreak node outside image '
        'descriptions (those nodes are exchanged in the tree for the comparison), both options together must be both changes; the safe HTML must be the plain one with exactly the raw HTML and the unsafe destinations gone; '
        'outcome = the HTML with both; trivial = documents whose HTML has neither a block element nor a soft break')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within', 'an empty softbreak option means the default, a newline',
               'a soft break inside an image description stays a newline: the option names breaks in content, and markup cannot stand in an attribute']

POS = re.compile(r'<(p|h[1-6]|blockquote|ul|ol|li|code|hr)( data-sourcepos="(\d+:\d+-\d+:\d+)")')
MARK = '\ue005'
GONE = '\ue006'
SHOWN = {'heading', 'code_block', 'thematic_break', 'block_quote', 'list', 'item'}
ELEMENT = {'heading': 'h', 'code_block': 'code', 'thematic_break': 'hr', 'block_quote': 'blockquote', 'item': 'li', 'paragraph': 'p'}


def positions(ast):
    out = []
    for n, e in ast.walker():
        if not e:
            continue
        shown = n.t in SHOWN
        if n.t == 'paragraph':
            g = n.parent.parent
            shown = not (g is not None and g.t == 'list' and g.list_data['tight'])
        if shown:
            (a, b), (c, d) = n.sourcepos
            el = ELEMENT.get(n.t) or ('ul' if n.list_data['type'] == 'bullet' else 'ol')
            if el == 'h':
                el += str(n.level)
            out.append((el, '%d:%d-%d:%d' % (a, b, c, d)))
    return out


def without_unsafe(ast):
    """the plain HTML with exactly the raw HTML and the unsafe destinations gone"""
    alt = 0
    for n, e in ast.walker():
        if n.t == 'image':
            alt += 1 if e else -1
        if n.t in ('link', 'image') and e and unsafe(n.destination):
            n.destination = GONE
        elif n.t == 'html_block' or n.t == 'html_inline' and not alt:
            n.literal = OMIT
    return render(ast).replace(' href="%s"' % GONE, '').replace('src="%s"' % GONE, 'src=""')


ODD_BREAKS = ['\\n', '\\1\\g<0>', '%s%%', '{0}', '$0', '&amp;&', '<b c="d">', ' ', '\n\n', '\r\n', '\u2028', '\n ', '--', 'softbreak', '\t']


def ast_with_breaks(doc, smart):
    return parse(doc, smart=True) if smart else parse(doc)


def one(doc, smart, safe):
    opts = {'safe': True} if safe else {}
    ast = parse(doc, smart=True) if smart else parse(doc)
    base = render(ast, **opts)
    where = '%r with smart=%s safe=%s' % (doc, smart, safe)
    for off in ({'sourcepos': False}, {'softbreak': '\n'}, {'sourcepos': None, 'softbreak': ''}):
        x = render(ast, **dict(opts, **off))
        if x != base:
            return '%s\n  %r changes %r\n  to %r' % (where, off, base, x), None
    sp = render(ast, sourcepos=True, **opts)
    if POS.sub(lambda m: '<' + m.group(1), sp) != base:
        return '%s\n  plain          %r\n  with sourcepos %r' % (where, base, sp), None
    want = positions(ast)
    got = [(m.group(1), m.group(3)) for m in POS.finditer(sp)]
    if got != want:
        return '%s\n  positions in the tree %r\n  and in the HTML       %r' % (where, want, got), None
    sb = render(ast, softbreak=MARK, **opts)
    both = render(ast, softbreak=MARK, sourcepos=True, **opts)
    br = render(ast, softbreak='<br />', **opts)
    sp_br = render(ast, softbreak=' <br />\n', sourcepos=True, **opts)
    alt = n = 0
    for node, e in list(ast.walker()):
        if node.t == 'image':
            alt += 1 if e else -1
        elif node.t == 'softbreak' and not alt:
            n += 1
            node.t = 'text'
            node.literal = MARK
    want_sb = render(ast, **opts)
    if sb != want_sb:
        return '%s\n  softbreak text  %r\n  instead of      %r\n' % (where, sb, want_sb), None
    if sb.replace(MARK, '\n') != base:
        return '%s\n  plain           %r\n  softbreak text  %r\n' % (where, base, sb), None
    if br != sb.replace(MARK, '<br />'):
        return '%s\n  softbreak text  %r\n  softbreak <br /> %r\n' % (where, sb, br), None
    if n:
        # the text is not looked at: no escapes, fields or references in it
        for odd in ODD_BREAKS:
            x = render(ast_with_breaks(doc, smart), softbreak=odd, **opts)
            if x != sb.replace(MARK, odd):
                return '%s\n  softbreak text  %r\n  softbreak %r %r' % (where, sb, odd, x), None
    if POS.sub(lambda m: '<' + m.group(1), both) != sb or both.replace(MARK, '\n') != sp:
        return '%s\n  sourcepos %r\n  softbreak %r\n  both      %r' % (where, sp, sb, both), None
    if safe and not smart:
        want_safe = without_unsafe(parse(doc))
        if base != want_safe:
            return '%s\n  expected %r\n  got      %r' % (where, want_safe, base), None
    if sp_br != both.replace(MARK, ' <br />\n'):
        return '%s\n  both      %r\n  with <br /> %r' % (where, both, sp_br), None
    return None, ((both, n) if want or n else None)


def options(doc):
    if MARK in doc or GONE in doc:
        return None, None
    out = None
    for smart in (False, True):
        for safe in (False, True):
            m, o = one(doc, smart, safe)
            if m:
                return m, None
            out = out or o
    return None, out


BREAKS = ['a', '\n', ' \n', '\n ', '  \n', '\\\n', '*', '`', '[', '](u)', '![', '<b', '>', '"', '--', '&#10;', '<cc:d>', '[r]', '<!--', '-->', ' ', '[s\nt]']
PREFIX = [('', ''), ('# ', ''), ('> ', ''), ('- ', ''), ('', '\n==='), ('- a\n\n  ', ''), ('![', '](v)'), ('[', '](javascript:v)'), ('1. > - ', '\n\nz'), ('> ```\n> ', ''), ('<div>\n', ''), ('    ', '')]

URLS = ['javascript:x', 'JavaScript:x', 'vbscript:', 'file:///x', 'data:text/html,x', 'data:image/png,x', 'data:image/svg+xml,x', '&#106;avascript:x', 'java&Tab;script:x', 'xjavascript:', '<javascript:a>', 'http:javascript:', '/u']
USES = ['[a](%s)', '[a](%s "t")', '![a](%s "t&")', '[![b](%s)](%s)', '![[c](%s "t")](%s \'"\')', '- [a](%s)\n- <b>\n\n# ![x](%s)', '[r]\n\n[r]: %s "t"', '![r][]\n\n[r]: %s\n  (t)', '<%s>', '<i>[a](%s)<!-- %s -->', '<div>\n%s', '*[a\nb](%s)*', '![a\n<b>](%s)', '[<b>](%s)']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('lines', docs.lines(3 + d), options),
        Exploration('lines of HTML', docs.tag_lines(3 + d), options),
        Exploration('few lines', docs.lines(4 + d, docs.FEW_LINES), options),
        Exploration('inline texts in every place', docs.placed(docs.FEW_PARTS if q else docs.PARTS), options),
        Exploration('texts of several blocks', docs.several(2, docs.FEW_PARTS if q else docs.PARTS), options),
        Exploration('inlines', docs.inlines(3 if q else 4), options),
        Exploration('breaks among inlines', Product(BREAKS, 2 + d, wraps=[(a, b + '\n\n[r]: vbscript:x\n[s t]: /y') for a, b in PREFIX]), options),
        Exploration('breaks, longer', Product(['a', '\n', '  \n', '*', '`', '![', '](u)', '[', '<b>', '"'], 4 + d, lo=3), options),
        Exploration('nested blocks', docs.nested(2 + d), options),
        Exploration('leaving containers', docs.leaving(2 + d), options),
        Exploration('sequences of blocks', docs.blocks(3 + d), options),
        Exploration('written documents', docs.written(1, 1 if q else 2), options),
        Exploration('special characters', Product(docs.SPECIAL, 2 + d), options),
        Exploration('pumped', docs.pumps([2, 3, 7, 20] if q else [2, 3, 5, 7, 12, 20, 60, 150]), options),
        Exploration('every construct', Listed([docs.EVERYWHERE.replace('{c}', c) for c in ('', 'a', '\n', '*', ' ', '\\', '[r]', '![x\ny](z)', '<b>', '`')]), options),
        Exploration('unsafe destinations', Slots(USES, URLS, join=lambda t: t[0].replace('%s', t[1])), options),
        Exploration('unsafe destinations, twice', Slots(USES, ['', ' ', '\n', '\n\n'], USES, URLS if not q else URLS[::3], join=lambda t: (t[0] + t[1] + t[2]).replace('%s', t[3])), options),
        Exploration('lengths', docs.lengths(()), options, chunk=40),
        Exploration('texts mentioned in the code', docs.mentioned_places(), options),
    ]


run = runner.make(plan)
