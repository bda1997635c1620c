"""Abstract documents, their HTML, and all ways to write them in Markdown.

A document is a list of blocks:
  ('p', inlines) ('h', level, inlines) ('hr',) ('code', info, text) ('html', text)
  ('quote', blocks) ('list', start or None, tight, [blocks of each item])
and inlines are
  ('t', s) ('em', k) ('st', k) ('code', s) ('a', dest, title, k) ('img', dest, title, k)
  ('auto', uri) ('raw', s) ('br',) ('soft',)

`Writer` asks its chooser at every place where Markdown has more than one way to write the
same thing; `spellings` enumerates all sequences of answers with a bounded number of
deviations from the first (plainest) answer.  Nothing here parses Markdown.
"""
import re

PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'


class Skip(Exception):
    """this combination of answers writes something else"""


# ------------------------------------------------------------------------- HTML

def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def plain(inl):
    out = ''
    for x in inl:
        if x[0] in ('t', 'code'):
            out += x[1]
        elif x[0] in ('em', 'st'):
            out += plain(x[1])
        elif x[0] in ('a', 'img'):
            out += plain(x[3])
        elif x[0] in ('auto', 'raw'):
            out += x[1]
        elif x[0] in ('br', 'soft'):
            out += '\n'
    return out


def inline_html(inl):
    out = ''
    for x in inl:
        k = x[0]
        if k == 't':
            out += esc(x[1])
        elif k == 'em':
            out += '<em>%s</em>' % inline_html(x[1])
        elif k == 'st':
            out += '<strong>%s</strong>' % inline_html(x[1])
        elif k == 'code':
            out += '<code>%s</code>' % esc(x[1])
        elif k == 'a':
            out += '<a href="%s"%s>%s</a>' % (esc(x[1].replace(' ', '%20')), x[2] and ' title="%s"' % esc(x[2]), inline_html(x[3]))
        elif k == 'img':
            out += '<img src="%s" alt="%s"%s />' % (esc(x[1].replace(' ', '%20')), esc(plain(x[3])), x[2] and ' title="%s"' % esc(x[2]))
        elif k == 'auto':
            out += '<a href="%s">%s</a>' % (esc(x[1]), esc(x[1]))
        elif k == 'raw':
            out += x[1]
        elif k == 'br':
            out += '<br />\n'
        else:
            out += '\n'
    return out


def block_html(blocks, tight=False):
    out = ''
    for b in blocks:
        k = b[0]
        if k == 'p' and tight:
            out += ('\n' if out and not out.endswith('\n') else '') + inline_html(b[1])
            continue
        if out and not out.endswith('\n'):
            out += '\n'
        if k == 'p':
            out += '<p>%s</p>\n' % inline_html(b[1])
        elif k == 'h':
            out += '<h%d>%s</h%d>\n' % (b[1], inline_html(b[2]), b[1])
        elif k == 'hr':
            out += '<hr />\n'
        elif k == 'code':
            out += '<pre><code%s>%s</code></pre>\n' % (b[1] and ' class="language-%s"' % esc(b[1].split()[0]), esc(b[2]))
        elif k == 'html':
            out += b[1] + '\n'
        elif k == 'quote':
            out += '<blockquote>\n%s</blockquote>\n' % block_html(b[1])
        else:
            tag = 'ul' if b[1] is None else 'ol'
            out += '<%s%s>\n' % (tag, '' if b[1] in (None, 1) else ' start="%d"' % b[1])
            for kids in b[3]:
                h = block_html(kids, b[2])
                if kids and (not b[2] or kids[0][0] != 'p'):
                    h = '\n' + h
                out += '<li>%s</li>\n' % h
            out += '</%s>\n' % tag
    return out


# ------------------------------------------------------------------------- Markdown

FENCE = re.compile(r'^ {0,3}`{3,}[^`]*$')
RULE = re.compile(r'^ {0,3}([*_-])[ \t]*(?:\1[ \t]*){2,}$')


class Writer(object):
    def __init__(self, choose):
        self.choose = choose        # choose(list of answers) -> one of them
        self.defs = []

    # inlines -> str (may hold newlines)

    def text(self, s):
        how = self.choose(['plain', 'backslash', 'entity'] if any(c in PUNCT for c in s) else ['plain'])
        if how == 'entity':
            return ''.join('&#%d;' % ord(c) if c in PUNCT else c for c in s)
        if how == 'backslash':
            return ''.join('\\' + c if c in PUNCT else c for c in s)
        return ''.join('\\' + c if c in '\\`*_{}[]()#+-.!<>&"\'=~|:;' else c for c in s)

    def inl(self, inl, char=None, in_link=False):
        out = ''
        for i, x in enumerate(inl):
            k = x[0]
            if k == 't':
                out += self.text(x[1])
            elif k in ('em', 'st'):
                out += self.emph(x, out, inl[i + 1:i + 2], char, in_link)
            elif k == 'code':
                out += self.code(x[1])
            elif k in ('a', 'img'):
                out += self.link(x, char, in_link)
            elif k == 'auto':
                how = self.choose(['<>', 'link'] if not in_link else ['<>'])
                out += '<%s>' % x[1] if how == '<>' else '[%s](%s)' % (self.text(x[1]), x[1])
            elif k == 'raw':
                out += x[1]
            elif k == 'br':
                out += self.choose(['\\\n', '  \n', '     \n']) + self.choose(['', '  ', '\t', '        '])
            else:
                out += self.choose(['\n', ' \n']) + self.choose(['', ' ', '    '])
        return out

    def emph(self, x, before, after, char, in_link):
        glued = bool(before and before[-1].isalnum()) or bool(after and (after[0][0] != 't' or after[0][1][:1].isalnum()))
        chars = [char] if char else ['*', '_']
        if glued and '_' in chars:
            chars.remove('_')
        if not chars:
            raise Skip
        c = self.choose(chars)
        inner = '_' if c == '*' else '*'
        body = self.inl(x[1], inner, in_link)
        n = 1 if x[0] == 'em' else 2
        if glued and (not body[0].isalnum() or not body[-1].isalnum()):
            raise Skip          # not flanking
        if before.endswith(c):
            raise Skip          # one run instead of two
        return c * n + body + c * n

    def code(self, s):
        runs = [len(r) for r in re.findall('`+', s)]
        n = 1
        while n in runs:
            n += 1
        ticks = '`' * self.choose([n, max(runs + [1]) + 1, max(runs + [1]) + 4])
        stripped = s.strip(' ')
        must = s[:1] == '`' or s[-1:] == '`' or (s[:1] == ' ' and s[-1:] == ' ' and stripped)
        if must or (stripped and self.choose([False, True])):
            s = self.choose([' ', '\n'] if s[:1] != ' ' else [' ']) + s + self.choose([' ', '\n'])
        if ' ' in s.strip() and self.choose([False, True]):
            at = s.index(' ', len(s) - len(s.lstrip()))
            s = s[:at] + '\n' + s[at + 1:]
        return ticks + s + ticks

    def title(self, t):
        a, b = self.choose([('"', '"'), ("'", "'"), ('(', ')')])
        how = self.choose(['min', 'all', 'entity'] if any(c in PUNCT for c in t) else ['min'])
        if how == 'entity':
            t = ''.join('&#x%X;' % ord(c) if c in PUNCT else c for c in t)
        else:
            t = ''.join('\\' + c if (c in (a, b, '\\', '&') or how == 'all' and c in PUNCT) else c for c in t)
        return a + t + b

    def dest(self, d):
        how = self.choose(['bare', 'angle', 'escaped'] if d and ' ' not in d else ['angle'])
        if how == 'bare':
            return ''.join('\\' + c if c in '()<>\\&*_' else c for c in d)
        if how == 'escaped':
            return ''.join('\\' + c if c in PUNCT and c != '%' else c for c in d)
        return '<' + ''.join('\\' + c if c in '<>\\&' else c for c in d) + '>'

    def link(self, x, char, in_link):
        k, dest, title, kids = x
        bang = '!' if k == 'img' else ''
        body = self.inl(kids, char, in_link or k == 'a')
        ways = ['inline', 'full']
        if not any(c in body for c in '[]\n') and body.strip() and len(kids) == 1 and kids[0][0] == 't':
            ways += ['collapsed', 'shortcut']
        if k == 'a' and in_link:
            raise Skip
        how = self.choose(ways)
        if how == 'inline':
            gap = self.choose(['', ' ', '\n'])
            d = self.dest(dest) if dest or title else self.choose(['', '<>'])
            return '%s[%s](%s%s%s%s)' % (bang, body, gap, d, title and self.choose([' ', '\n', ' \t ']) + self.title(title), self.choose(['', ' ', '\n'] if d else ['']))
        label = 'ref %d' % len(self.defs) if how == 'full' else body
        if any(label.lower() == old.lower() for old, d, t in self.defs):
            raise Skip
        at = len(self.defs)
        self.defs.append((label, None, None))
        self.defs[at] = (label, self.dest(dest), title and self.title(title))
        used = self.choose([label, label.upper(), ' ' + label.replace(' ', '   ')]) if how == 'full' else label
        return '%s[%s]%s' % (bang, body, '[%s]' % used if how == 'full' else '[]' if how == 'collapsed' else '')

    # blocks -> list of (line, may be lazy)

    def blocks(self, blocks, tight=False, first=False, in_list=False):
        """first: the first block stands right after a list marker"""
        out = []
        prev = None
        for b in blocks:
            near = tight
            if prev is not None:
                if tight:
                    if not self.adjoin(prev, b):
                        raise Skip
                else:
                    n = self.choose([1, 2, 3, 0] if not in_list and self.adjoin(prev, b) else [1, 2, 3])
                    out += [('', False)] * n
                    near = n == 0
            out += self.block(b, prev, near, first and prev is None)
            prev = b
        return out

    def adjoin(self, a, b):
        """can b follow a without a blank line?"""
        if a[0] == b[0] == 'quote':
            return False
        while a[0] in ('quote', 'list'):
            kids = a[1] if a[0] == 'quote' else a[3][-1]
            if not kids:
                return False
            a = kids[-1]
        if a[0] == 'html':
            return False
        if a[0] == 'p':
            if b[0] == 'list':
                return b[1] in (None, 1) and bool(b[3][0])
            return b[0] != 'p'
        return True

    def indent(self, prev, first):
        if first or (prev is not None and prev[0] == 'list'):
            return ''
        return self.choose(['', ' ', '  ', '   '])

    def block(self, b, prev, near, first):
        k = b[0]
        near = near and prev is not None
        after_p = near and not self.ends_closed(prev)
        if k == 'p':
            lines = self.inl(b[1]).split('\n')
            if any(FENCE.match(x) for x in lines):
                raise Skip
            lines[0] = self.indent(prev, first) + lines[0]
            return [(x, i > 0) for i, x in enumerate(lines)]
        if k == 'h':
            return self.heading(b, prev, first, after_p)
        if k == 'hr':
            s = self.choose(['***', '___', '* * *', '-------', '_  _  _ ', '- - -', '*****\t'])
            if after_p and s[0] == '-' and s[1] != ' ':
                raise Skip
            return [(self.indent(prev, first) + s, False)]
        if k == 'code':
            return self.code_block(b, prev, first, after_p)
        if k == 'html':
            return [(x, False) for x in b[1].split('\n')]
        if k == 'quote':
            kids = self.blocks(b[1])
            mark = self.choose(['> ', '>'])
            ind = self.indent(prev, first)
            lazy = self.choose([False, True]) if any(z for x, z in kids) else False
            out = []
            for x, z in kids or [('', False)]:
                if lazy and z and x.strip():
                    out.append((x, True))
                elif not x:
                    out.append((ind + '>', False))
                else:
                    out.append((ind + ('> ' if x[:1] in ' \t' else mark) + x, False))
            return out
        return self.list(b, prev, first, after_p)

    def ends_closed(self, a):
        while a[0] in ('quote', 'list'):
            kids = a[1] if a[0] == 'quote' else a[3][-1]
            if not kids:
                return True
            a = kids[-1]
        return a[0] != 'p'

    def heading(self, b, prev, first, after_p):
        k, level, inl = b
        body = self.inl(inl)
        if any(FENCE.match(x) for x in body.split('\n')):
            raise Skip
        ways = []
        if '\n' not in body:
            ways.append('atx')
        if level <= 2 and body.strip() and not after_p:
            ways.append('setext')
        if not ways:
            raise Skip
        if self.choose(ways) == 'atx':
            close = self.choose(['', ' #', ' ' + '#' * level, ' ######## '])
            gap = self.choose([' ', '    ', '\t'])
            return [(self.indent(prev, first) + ('#' * level + gap + body + close if body else '#' * level + close), False)]
        under = self.choose(['===', '=', '======== ', ' ==', '   ='] if level == 1 else ['---', '-', '-------\t', '  --', '   -'])
        lines = body.split('\n')
        lines[0] = self.indent(prev, first) + lines[0]
        return [(x, False) for x in lines] + [(under, False)]

    def code_block(self, b, prev, first, after_p):
        k, info, text = b
        lines = text.split('\n')[:-1]
        ways = ['```', '~~~', '`````', '~~~~~~']
        if not info and lines and lines[0].strip(' ') and lines[-1].strip(' ') and not after_p and not (prev is not None and prev[0] in ('list', 'code')):
            ways.append('indented')
        how = self.choose(ways)
        if how == 'indented':
            return [('    ' + x if x else self.choose(['', '    ']), False) for x in lines]
        if how[0] == '`' and '`' in info or any(x.strip()[:3] == how[:3] and len(how) == 3 for x in lines):
            raise Skip
        ind = self.indent(prev, first)
        out = [(ind + how + (info and self.choose(['', ' ', '\t']) + info + self.choose(['', ' '])), False)]
        out += [(self.choose([ind, '']) + x if x and x[0] != ' ' else (ind + x if x else ''), False) for x in lines]
        close = self.choose(['', ' ', '  ', '   ']) + how + self.choose(['', how[0], how[0] * 4, '  '])
        return out + [(close, False)]

    def list(self, b, prev, first, after_p):
        k, start, is_tight, items = b
        bullets, delims = ['-', '+', '*'], ['.', ')']
        if start is None:
            c = self.choose([x for x in bullets if x != getattr(self, 'used', {}).get(id(prev))])
        else:
            c = self.choose([x for x in delims if x != getattr(self, 'used', {}).get(id(prev))])
        self.used = getattr(self, 'used', {})
        self.used[id(b)] = c
        ind = self.indent(prev, first)
        numbering = self.choose(['count', 'same', 'odd', 'zeros']) if start is not None else None
        out = []
        for i, kids in enumerate(items):
            if i:
                if not is_tight:
                    out += [('', False)] * self.choose([1, 2])
            if start is None:
                mark = c
            else:
                n = start if i == 0 else {'count': start + i, 'same': start, 'odd': 7 * i, 'zeros': start + i}[numbering]
                mark = ('00%d' if numbering == 'zeros' and not after_p else '%d') % n + c
            if len(mark) > 10:
                raise Skip
            if not kids:
                out.append((ind + mark + self.choose(['', ' ', '     ']), False))
                continue
            body = self.blocks(kids, is_tight, True, True)
            code_first = kids[0][0] == 'code' and body[0][0].startswith('    ')
            pad = self.choose([1, 2, 3, 4, 0] if not code_first else [1, 0])
            if pad == 0:
                if after_p and i == 0:
                    raise Skip
                pad = 1
                lines = [('', False)] + body
            else:
                lines = body
            width = len(mark) + pad
            lazy = self.choose([False, True]) if any(z for x, z in body) else False
            for j, (x, z) in enumerate(lines):
                if j == 0:
                    line = ind + mark + (' ' * pad + x if x else '')
                    if RULE.match(line):
                        raise Skip
                    out.append((line, z))
                elif lazy and z and x.strip():
                    out.append((x, True))
                else:
                    out.append((ind + ' ' * width + x if x else '', z))
        return out


def write(doc, choose):
    w = Writer(choose)
    lines = [x for x, z in w.blocks(doc)]
    text = '\n'.join(lines)
    if w.defs:
        text += '\n\n' + '\n'.join('[%s]:%s%s%s' % (label, w.choose([' ', '', '\n   ']), d, t and w.choose([' ', '\n', '\n  ']) + t) for label, d, t in w.defs)
    return text


def spellings(doc, bound, part=0, parts=1):
    """all documents written with at most `bound` deviations from the first answers: (schedule, text or None)

    part/parts: only those whose first deviation is at a question of that number modulo parts
    """
    # a schedule maps positions of questions to answers; the questions after a deviation may differ
    todo = [()]
    while todo:
        sched = todo.pop()
        answers = dict(sched)
        counts = []

        def choose(options):
            i = len(counts)
            counts.append(len(options))
            return options[answers.get(i, 0)]
        try:
            text = write(doc, choose)
        except Skip:
            text = None
        except IndexError:
            raise AssertionError((doc, sched))
        if sched or part == 0:
            yield sched, text
        if len(sched) < bound:
            last = sched[-1][0] if sched else -1
            for i in range(len(counts) - 1, last, -1):
                if not sched and i % parts != part:
                    continue
                for a in range(1, counts[i]):
                    todo.append(sched + ((i, a),))
