"""reStructuredText: content lines expected from the tree, matched line by line with their indentation and layout."""
import itertools

import commonmark
import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('the content lines a document must have (inline content between breaks, directives, code lines, underlines, item markers), each with the '
        'indentation of its containers, are computed from the parse tree and matched against the non-blank lines of the output '
        'one to one and in order; blank lines are required where two paragraphs, or a directive and its content, would run '
        'together; outcome = the output')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within',
               'thematic breaks and raw HTML have no counterpart and are dropped; text is not escaped; documents with a line feed inside a text node (&#10;) are only checked to render']

CHARS = '#*=-^"'


class Expect(object):
    """atoms: ('line', indent, text) ('marker', indent, m) ('under', indent, char, least) ('code', indent, lang, lines) ('gap',)"""

    def __init__(self, root):
        self.atoms = []
        self.skip = False
        self.ind = 0
        self.line = None
        self.walk(root)

    def put(self, s):
        if self.line is None:
            self.line = [self.ind, '']
        self.line[1] += s

    def end_line(self):
        if self.line is not None:
            self.atoms.append(('line',) + tuple(self.line))
            self.line = None

    def walk(self, node):
        t = node.t
        kids = []
        k = node.first_child
        while k is not None:
            kids.append(k)
            k = k.nxt
        for s in (node.literal, node.destination):
            if s and '\n' in s and t in ('text', 'code', 'link', 'image'):
                self.skip = True
        if t in ('heading', 'code_block', 'list', 'block_quote') and node.prv is not None:
            self.atoms.append(('gap',))
        if t == 'text':
            self.put(node.literal)
        elif t in ('softbreak', 'linebreak'):
            self.end_line()
            if t == 'linebreak':
                self.atoms.append(('gap',))
        elif t == 'code':
            self.put('``%s``' % node.literal)
        elif t in ('emph', 'strong'):
            m = '*' if t == 'emph' else '**'
            self.put(m)
            self.each(kids)
            self.put(m)
        elif t == 'link':
            self.put('`')
            self.each(kids)
            self.put(' <%s>`_' % node.destination)
        elif t == 'image':
            self.put('.. image:: ' + node.destination)
            self.end_line()
            self.ind += 4
            self.put(':alt: ')
            self.each(kids)
            self.ind -= 4
        elif t == 'paragraph':
            if node.prv is not None:
                self.atoms.append(('gap',))
            self.each(kids)
            self.end_line()
        elif t == 'heading':
            at = len(self.atoms)
            self.each(kids)
            self.end_line()
            longest = max([a[1] - self.ind + len(a[2]) for a in self.atoms[at:] if a[0] == 'line'] or [0])
            visible = [a for a in self.atoms[at:] if a[0] == 'line' and a[2].strip()]
            if visible or longest:
                # a title of nothing but white space may have a line under it
                self.atoms.append(('under' if visible else 'maybe under', self.ind, CHARS[node.level - 1], longest))
        elif t == 'code_block':
            info = node.info.split() if node.info else []
            lines = node.literal.split('\n')
            if lines[-1] == '':
                lines.pop()
            self.atoms.append(('code', self.ind, info[0] if info else '', lines))
        elif t == 'block_quote':
            self.ind += 4
            self.each(kids)
            self.ind -= 4
        elif t == 'item':
            m = '* ' if node.list_data['type'] == 'bullet' else '#. '
            self.atoms.append(('marker', self.ind, m))
            self.ind += len(m)
            self.each(kids)
            self.ind -= len(m)
        elif t not in ('html_inline', 'html_block', 'thematic_break'):
            self.each(kids)

    def each(self, kids):
        for k in kids:
            self.walk(k)


def match(atoms, out, c=' '):
    lines = out.split('\n')
    i = 0                   # current line
    col = 0                 # how much of it has been read (markers)
    last = None
    gap = False             # must a blank line come before the next line?

    for a in atoms:
        if a[0] == 'gap':
            gap = last != 'marker'
            continue
        if a[0] == 'line' and not a[2].strip():
            if col and not lines[i][col:].strip():
                i, col = i + 1, 0
            continue
        if col and not lines[i][col:].strip():
            i, col = i + 1, 0           # marker alone on its line
        if not col:
            while i < len(lines) and not lines[i].strip():
                i += 1
        if a[0] == 'maybe under':
            if not col and i < len(lines) and lines[i] == c * a[1] + a[2] * a[3]:
                i += 1
            continue
        if gap and not col and i > 0 and lines[i - 1].strip():
            raise Bad('no blank line before line %d, %r' % (i + 1, lines[i]))
        gap = False
        last = a[0]
        if i >= len(lines):
            raise Bad('the output ends before %r' % (a,))
        line = lines[i]
        if not col:
            if not line.startswith(c * a[1]):
                raise Bad('line %d, %r, is not indented by %d for %r' % (i + 1, line, a[1], a))
            rest = line[a[1]:]
        else:
            if col != a[1]:
                raise Bad('line %d, %r: %r does not begin at column %d' % (i + 1, line, a, col))
            rest = line[col:]
        if a[0] == 'line':
            if rest != a[2]:
                raise Bad('line %d is %r, expected %r indented by %d' % (i + 1, line, a[2], a[1]))
            i, col = i + 1, 0
        elif a[0] == 'marker':
            if not rest.startswith(a[2]):
                raise Bad('line %d is %r, expected a marker %r indented by %d' % (i + 1, line, a[2], a[1]))
            col = a[1] + len(a[2])
        elif a[0] == 'under':
            if not rest or rest != a[2] * len(rest) or len(rest) < a[3]:
                raise Bad('line %d is %r, expected an underline of at least %d %r' % (i + 1, line, a[3], a[2]))
            i, col = i + 1, 0
        else:
            head = '.. code::' + (' ' + a[2] if a[2] else '')
            if rest != head:
                raise Bad('line %d is %r, expected %r indented by %d' % (i + 1, line, head, a[1]))
            i, col = i + 1, 0
            if not (i < len(lines) and lines[i].strip() == ''):
                raise Bad('no blank line after the directive in line %d' % i)
            i += 1
            for s in a[3]:
                want = c * (a[1] + 4) + s
                got = lines[i] if i < len(lines) else None
                if got != want and not (s.strip() == '' and got is not None and got.strip() == ''):
                    raise Bad('code line %d is %r, expected %r' % (i + 1, got, want))
                i += 1
            if i < len(lines) and lines[i].strip():
                raise Bad('line %d, %r, follows a code block without a blank line' % (i + 1, lines[i]))
    rest = [x for x in ([lines[i][col:]] + lines[i + 1:] if i < len(lines) else []) if x.strip()]
    if rest:
        raise Bad('more output than content: %r' % rest)


def laid_out(doc):
    for indent in (' ', '\t'):
        ast = parse(doc)
        e = Expect(ast)
        out = commonmark.ReStructuredTextRenderer(indent).render(ast) if indent != ' ' else commonmark.ReStructuredTextRenderer().render(ast)
        if e.skip:
            return None, None
        try:
            match(e.atoms, out, indent)
        except Bad as x:
            return '%r: %s\n%s' % (doc, x, '\n'.join('   |' + s + '|' for s in out.split('\n'))), None
    return None, (out if out.strip() else None)


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    titles = ['a', 'abc *def*', '`g` h', '[i](jk)', '![l](m)', 'n\\\no', 'p\nq r s', '', '\u6f22', '**t**', '<b>u</b>', 'v &amp; w', 'x' * 40, '![a\nbcdef](g)', '*a\nbcd*', '[a\nbcd](e)', 'aaaa\nb']
    return [
        Exploration('lines', docs.lines(3 + d), laid_out),
        Exploration('lines of HTML', docs.tag_lines(3 + d), laid_out),
        Exploration('few lines', docs.lines(4 + d, docs.FEW_LINES), laid_out),
        Exploration('inline texts in every place', docs.placed(docs.FEW_PARTS if q else docs.PARTS), laid_out),
        Exploration('texts of several blocks', docs.several(2, docs.FEW_PARTS if q else docs.PARTS), laid_out),
        Exploration('inlines', docs.inlines(3 + d), laid_out),
        Exploration('few inlines', docs.inlines(4 + d, ['a', ' b', '*', '`', '[', '](u)', '![', '\n', '  \n', '<b>', '**', '](v "t")']), laid_out),
        Exploration('nested blocks', docs.nested(2 + d), laid_out),
        Exploration('leaving containers', docs.leaving(3 if q else 4), laid_out),
        Exploration('sequences of blocks', docs.blocks(3 + d), laid_out),
        Exploration('sequences of blocks in containers', docs.blocks(3, path=[('> ', '> '), ('- ', '  ')]), laid_out),
        Exploration('written documents', docs.written(1, 1 if q else 2), laid_out),
        Exploration('headings', Slots(['', '> ', '- ', '1. ', '> - ', '- > '], titles, ['===', '---', '#', '##', '###', '####', '#####', '######'], ['', 'z', '# y', '- x', '\n    w', '> v'],
                                      join=lambda t: docs.inside((t[1] + '\n' + t[2] if t[2][0] in '=-' else t[2] + ' ' + t[1].replace('\n', ' ')) + '\n' + t[3], [(m, m if m == '> ' else ' ' * len(m)) for m in {'': [], '> ': ['> '], '- ': ['- '], '1. ': ['1. '], '> - ': ['> ', '- '], '- > ': ['- ', '> ']}[t[0]]])), laid_out),
        Exploration('code blocks', Slots(['', '> ', '- ', '1. ', '> - ', '- > ', '> > '], ['', 'x', ' x y', 'x\ty', '&amp;', '\\*', '\xa0x'], ['', 'a', 'a\nb', 'a\n\nb', '  a\n b', '\n', '\n\na\n\n', '\ta', 'a  ', '* a', '.. code::'], ['', 'z', '\n- y', '\n    v'],
                                         join=lambda t: docs.inside('```' + t[1] + '\n' + t[2] + '\n```\n' + t[3], [(m, m if m == '> ' else ' ' * len(m)) for m in {'': [], '> ': ['> '], '- ': ['- '], '1. ': ['1. '], '> - ': ['> ', '- '], '- > ': ['- ', '> '], '> > ': ['> ', '> ']}[t[0]]])), laid_out),
        Exploration('characters', Product(docs.SPECIAL, 3 + d), laid_out),
        Exploration('every character', Slots([i for i in range(1, 0x400)] + [0x2028, 0x3000, 0xd800, 0x1f600] if q else range(1, 0x110000), ['a {c} b', '`{c}`', '[{c}](<{c}>)', '# a{c}', '    {c}x', '- {c}', '![{c}]({c})', '> {c}'], join=lambda t: t[1].replace('{c}', chr(t[0]))), laid_out),
        Exploration('repetition', docs.pumps([2, 3, 9, 40], fragments=docs.FRAGMENTS + ['- a\n\n  b\n', '> a\n\n', '# a\n', '    a\n\n', '1. a\n', '![a](b) ']), laid_out),
        Exploration('lengths', docs.lengths(()), laid_out, chunk=40),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), laid_out),
        Exploration('texts mentioned in the code', docs.mentioned_places(), laid_out),
    ]


run = runner.make(plan)
