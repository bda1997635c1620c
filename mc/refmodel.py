"""Reference model: an independent, deliberately plain reading of the CommonMark 0.29 text.

No code is shared with /repo/commonmark.  A document is parsed into plain Python
objects (Block) and inline nodes (tuples), and rendered to HTML by `html`.

Conventions
  * A line is a str of "cells", one cell per column: a tab is '\\t' followed by PAD
    cells up to the next tab stop, so that an index into the line *is* a column.
  * Inline nodes: ('text', s) ('code', s) ('html', s) ('soft',) ('hard',)
    ('emph', kids) ('strong', kids) ('link', dest, title, kids) ('image', dest, title, kids)

Where the text of the specification leaves a choice open, the model takes the choice
made by the strategy of its appendix; those places are marked CHOICE and listed in
DESIGN.md.
"""
import functools
import html.entities
import re
import sys
import unicodedata

PAD = '\0'
SP = ' \t' + PAD
WS = ' \t\n\x0b\x0c\r'
ASCII_PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'
CONTROL = ''.join(map(chr, range(0x20))) + '\x7f'
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIGITS = '0123456789'
ALNUM = LETTERS + DIGITS
HEX = DIGITS + 'abcdefABCDEF'
URI_KEEP = frozenset(ALNUM + "_.-~" + ';/@:+?=&()%#*,')

BLOCK_TAGS = frozenset(
    'address article aside base basefont blockquote body caption center col colgroup dd '
    'details dialog dir div dl dt fieldset figcaption figure footer form frame frameset '
    'h1 h2 h3 h4 h5 h6 head header hr html iframe legend li link main menu menuitem nav '
    'noframes ol optgroup option p param section source summary table tbody td tfoot th '
    'thead title tr track ul'.split())


# ---------------------------------------------------------------- lines and cells

def split_lines(text):
    """Line endings are \\n, \\r\\n and \\r; a final line ending starts no new line."""
    lines, cur, i, n = [], [], 0, len(text)
    start = 0
    while i < n:
        c = text[i]
        if c == '\n' or c == '\r':
            lines.append(text[start:i])
            if c == '\r' and i + 1 < n and text[i + 1] == '\n':
                i += 1
            start = i + 1
        i += 1
    if start < n:
        lines.append(text[start:])
    return lines


def cells(line):
    line = line.replace('\0', '\ufffd')
    if '\t' not in line:
        return line
    out, col = [], 0
    for c in line:
        out.append(c)
        col += 1
        if c == '\t':
            while col % 4:
                out.append(PAD)
                col += 1
    return ''.join(out)


def uncells(s):
    """Text of the cells s; a tab cut in two leaves its remaining columns as spaces."""
    k = 0
    while k < len(s) and s[k] == PAD:
        k += 1
    if k == 0 and PAD not in s:
        return s
    return ' ' * k + s[k:].replace(PAD, '')


# ---------------------------------------------------------------- block structure

class Block(object):
    __slots__ = ('t', 'kids', 'lines', 'open', 'a', 'first', 'last', 'inl', 'ghost', 'col', 'end')

    def __init__(self, t, first, **a):
        self.t = t
        self.kids = []
        self.lines = []
        self.open = True
        self.a = a
        self.first = first      # line number of the first line
        self.last = first       # last line that gave it content
        self.end = first        # last line on which it was open
        self.col = 1            # column (in characters) of its first character
        self.inl = None


def is_thematic(s):
    s = s.replace(' ', '').replace('\t', '').replace(PAD, '')
    return len(s) >= 3 and s[0] in '*-_' and s == s[0] * len(s)


def atx(s):
    """s starts at the first non-space cell -> (level, raw content) or None"""
    k = 0
    while k < len(s) and s[k] == '#':
        k += 1
    if not 1 <= k <= 6 or (k < len(s) and s[k] not in SP):
        return None
    body = uncells(s[k:]).strip(' \t')
    # closing sequence
    j = len(body)
    while j > 0 and body[j - 1] == '#':
        j -= 1
    if j < len(body) and (j == 0 or body[j - 1] in ' \t'):
        body = body[:j]
    return k, body.strip(WS)    # CHOICE: the text says spaces only


def fence_open(s):
    c = s[0]
    if c not in '`~':
        return None
    k = 0
    while k < len(s) and s[k] == c:
        k += 1
    if k < 3 or (c == '`' and '`' in s[k:]):
        return None
    return c, k


def fence_close(s, c, k):
    j = 0
    while j < len(s) and s[j] == c:
        j += 1
    return j >= k and s[j:].strip(' ') == ''


def tag_name_end(s, i):
    """end of a tag name starting at i, or None"""
    if i >= len(s) or s[i] not in LETTERS:
        return None
    while i < len(s) and (s[i] in ALNUM or s[i] == '-'):
        i += 1
    return i


def skip_ws(s, i):
    while i < len(s) and s[i] in WS:
        i += 1
    return i


def open_tag_end(s, i):
    """s[i] == '<': end of a complete open tag or None"""
    j = tag_name_end(s, i + 1)
    if j is None:
        return None
    while True:
        k = skip_ws(s, j)
        if k > j and k < len(s) and (s[k] in LETTERS or s[k] in '_:'):
            k += 1
            while k < len(s) and (s[k] in ALNUM or s[k] in '_.:-'):
                k += 1
            j = k
            k = skip_ws(s, j)
            if k < len(s) and s[k] == '=':
                k = skip_ws(s, k + 1)
                if k >= len(s):
                    return None
                if s[k] in '\'"':
                    e = s.find(s[k], k + 1)
                    if e < 0:
                        return None
                    j = e + 1
                else:
                    e = k
                    while e < len(s) and s[e] not in '"\'=<>`' and s[e] not in WS:
                        e += 1
                    if e == k:
                        return None
                    j = e
            continue
        j = k
        break
    if s[j:j + 2] == '/>':
        return j + 2
    if s[j:j + 1] == '>':
        return j + 1
    return None


def close_tag_end(s, i):
    if s[i:i + 2] != '</':
        return None
    j = tag_name_end(s, i + 2)
    if j is None:
        return None
    j = skip_ws(s, j)
    return j + 1 if s[j:j + 1] == '>' else None


def html_start(s, para):
    """s starts at the first non-space cell, without PAD; kind 1..7 or 0"""
    if not s or s[0] != '<':
        return 0
    low = s.lower()
    for t in ('script', 'pre', 'style'):
        if low.startswith('<' + t):
            rest = low[1 + len(t):]
            if rest == '' or rest[0] in WS + '>':
                return 1
    if s.startswith('<!--'):
        return 2
    if s.startswith('<?'):
        return 3
    if s.startswith('<!') and len(s) > 2 and 'A' <= s[2] <= 'Z':
        return 4
    if s.startswith('<![CDATA['):
        return 5
    i = 2 if s.startswith('</') else 1
    j = i
    while j < len(s) and s[j] in ALNUM:
        j += 1
    if s[i:j].lower() in BLOCK_TAGS:
        rest = s[j:]
        if rest == '' or rest[0] in WS + '>' or rest.startswith('/>'):
            return 6
    if not para:
        e = open_tag_end(s, 0)
        if e is not None and s[1:tag_name_end(s, 1)].lower() in ('script', 'style', 'pre'):
            e = None
        if e is None:
            e = close_tag_end(s, 0)
        if e is not None and s[e:].strip(WS) == '':
            return 7
    return 0


def html_end(kind, s):
    low = s.lower()
    if kind == 1:
        return '</script>' in low or '</pre>' in low or '</style>' in low
    if kind == 2:
        return '-->' in s
    if kind == 3:
        return '?>' in s
    if kind == 4:
        return '>' in s
    if kind == 5:
        return ']]>' in s
    return False


def list_marker(s):
    """(type, char/delim, start, width) of the marker at the start of s, or None"""
    if s[0] in '-+*':
        m = ('bullet', s[0], None, 1)
    else:
        k = 0
        while k < len(s) and k < 10 and s[k] in DIGITS:
            k += 1
        if not 1 <= k <= 9 or k >= len(s) or s[k] not in '.)':
            return None
        m = ('ordered', s[k], int(s[:k]), k + 1)
    if m[3] < len(s) and s[m[3]] not in SP:
        return None
    return m


class Doc(object):
    """Block parser state; feed lines, then close."""

    def __init__(self):
        self.root = Block('document', 1)
        self.stack = [self.root]
        self.refs = {}
        self.n = 0
        self.blank_lines = {}      # line number -> stack depth at which it was seen blank

    # -- opening and closing
    def close_to(self, depth):
        while len(self.stack) > depth:
            self.close_block(self.stack.pop())

    def close_block(self, b):
        b.open = False
        t = b.t
        if t == 'paragraph':
            self.take_definitions(b)
            if ''.join(b.lines).strip(WS) == '' and b.a.get('defs'):
                b.t = 'definitions'
            b.a['content'] = '\n'.join(b.lines).strip(WS)
        elif t == 'code_block':
            if b.a['fence']:
                b.a['info'] = unescape(b.lines[0].strip(WS))
                b.a['literal'] = ''.join(x + '\n' for x in b.lines[1:])
            else:
                while b.lines and b.lines[-1].strip(' \t') == '':
                    b.lines.pop()
                b.a['literal'] = ''.join(x + '\n' for x in b.lines)
        elif t == 'html_block':
            lines = b.lines
            while lines and lines[-1].strip(' ') == '':
                lines = lines[:-1]
            b.a['literal'] = '\n'.join(lines)

    def take_definitions(self, b):
        s = '\n'.join(b.lines)
        took = False
        while s.startswith('['):
            d = definition(s)
            if d is None:
                break
            label, dest, title, end = d
            self.refs.setdefault(label, (dest, title))
            s = s[end:]
            took = True
        if took:
            b.a['defs'] = True
            b.lines = s.split('\n') if s else []
        return took

    def add(self, depth, t, p, **a):
        """new block inside stack[depth-1] from cell p, closing everything deeper"""
        self.close_to(depth)
        top = self.stack[-1]
        if top.t == 'list' and t != 'item':
            self.close_to(depth - 1)
            top = self.stack[-1]
        b = Block(t, self.n, **a)
        s = self.cells
        b.col = 1 + p - s.count(PAD, 0, p) - (s[p:p + 1] == PAD)
        top.kids.append(b)
        self.stack.append(b)
        self.touch(self.n, len(self.stack))
        return b

    # -- one line
    def line(self, text):
        self.n += 1
        before = list(self.stack)
        self.take_line(text)
        for b in self.stack:
            b.end = self.n
        for b in before:
            if not b.open and b.last == self.n:     # closed by its own last line
                b.end = self.n

    def take_line(self, text):
        n = self.n
        s = self.cells = cells(text)
        p = 0
        L = len(s)
        stack = self.stack
        depth = 1                   # number of stack entries matched so far
        while depth < len(stack):
            b = stack[depth]
            t = b.t
            q = p
            while q < L and s[q] in SP:
                q += 1
            blank = q >= L
            ind = q - p
            if t == 'block_quote':
                if ind > 3 or blank or s[q] != '>':
                    break
                p = q + 1
                if p < L and s[p] in SP:
                    p += 1
                self.touch(n, depth + 1)     # a line with its marker is not blank for it
            elif t == 'list':
                pass
            elif t == 'item':
                if blank:
                    if not b.kids:
                        break
                    p = p + b.a['width'] if ind >= b.a['width'] else q
                elif ind >= b.a['width']:
                    p += b.a['width']
                else:
                    break
            elif t == 'paragraph':
                if blank:
                    break
            elif t == 'code_block':
                if b.a['fence']:
                    c, k, off = b.a['fence']
                    if ind <= 3 and not blank and s[q] == c and fence_close(s[q:].replace(PAD, ''), c, k):
                        b.last = n
                        self.touch(n, depth + 1)
                        self.close_to(depth)
                        return
                    while off and p < L and s[p] in SP:
                        p += 1
                        off -= 1
                elif ind >= 4:
                    p += 4
                elif blank:
                    p = q
                else:
                    break
            elif t == 'html_block':
                if blank and b.a['kind'] >= 6:
                    break
            else:                   # headings and thematic breaks are one line
                break
            depth += 1

        cont = stack[depth - 1]
        lazy_ok = depth < len(stack) and stack[-1].t == 'paragraph'
        leaf = None
        if cont.t in ('code_block', 'html_block'):
            leaf = cont
        while leaf is None:
            q = p
            while q < L and s[q] in SP:
                q += 1
            blank = q >= L
            ind = q - p
            if blank:
                break
            in_para = cont.t == 'paragraph'
            if ind >= 4:
                if not (in_para or lazy_ok):
                    b = self.add(depth, 'code_block', p + 4, fence=None)
                    p += 4
                    leaf = b
                break
            r = s[q:]
            c = r[0]
            if c == '>':
                p = q + 1
                if p < L and s[p] in SP:
                    p += 1
                depth = self.enter(depth, in_para)
                self.add(depth, 'block_quote', q)
                depth = len(stack)
                cont = stack[-1]
                lazy_ok = False
                continue
            h = atx(r)
            if h:
                depth = self.enter(depth, in_para)
                b = self.add(depth, 'heading', q, level=h[0], content=h[1])
                self.touch(n, len(stack))
                self.close_to(len(stack) - 1)
                return
            f = fence_open(r.replace(PAD, ''))
            if f:
                depth = self.enter(depth, in_para)
                b = self.add(depth, 'code_block', q, fence=(f[0], f[1], ind))
                b.lines.append(uncells(s[q + f[1]:]))
                self.touch(n, len(stack))
                return
            k = html_start(uncells(r), in_para)
            if k:
                depth = self.enter(depth, in_para)
                leaf = self.add(depth, 'html_block', p, kind=k)
                break
            if in_para and c in '=-' and r.rstrip(SP) == c * len(r.rstrip(SP)):
                self.take_definitions(cont)
                if cont.lines:
                    cont.t = 'heading'
                    cont.a['level'] = 1 if c == '=' else 2
                    cont.a['content'] = '\n'.join(cont.lines).strip(WS)
                    self.touch(n, depth)
                    stack.pop()
                    cont.open = False
                    return
                # CHOICE: only definitions so far; the paragraph stays open
            if is_thematic(r):
                depth = self.enter(depth, in_para)
                self.add(depth, 'thematic_break', q)
                self.touch(n, len(stack))
                self.close_to(len(stack) - 1)
                return
            m = list_marker(r)
            if m:
                rest = r[m[3]:]
                rest_blank = rest.strip(SP) == ''
                # CHOICE: the restrictions on interrupting a paragraph apply to a paragraph
                # whose containers were all matched, not to lazy continuation lines
                if in_para and (rest_blank or (m[0] == 'ordered' and m[2] != 1)):
                    m = None
            if m:
                w = m[3]
                p = q + w
                sp = 0
                while p + sp < L and s[p + sp] in SP:
                    sp += 1
                if rest_blank or sp > 4:
                    width = ind + w + 1
                    p += 1 if p < L else 0
                else:
                    width = ind + w + sp
                    p += sp
                depth = self.enter(depth, in_para)
                if stack[depth - 1].t == 'list' and stack[depth - 1].a['mark'] == m[:2]:
                    self.close_to(depth)
                else:
                    if stack[depth - 1].t == 'list':
                        depth -= 1
                    self.add(depth, 'list', q, mark=m[:2], start=m[2])
                    depth = len(stack)
                self.add(depth, 'item', q, width=width)
                depth = len(stack)
                cont = stack[-1]
                lazy_ok = False
                continue
            break

        q = p
        while q < L and s[q] in SP:
            q += 1
        blank = q >= L
        if leaf is not None:
            leaf.lines.append(uncells(s[p:]))
            if not blank or (leaf.t == 'code_block' and leaf.a['fence']):
                self.touch(n, len(stack))
            if leaf.t == 'html_block' and html_end(leaf.a['kind'], uncells(s[p:])):
                self.close_to(len(stack) - 1)
            return
        if blank:
            self.close_to(depth)
            self.blank_lines[n] = True
            return
        if lazy_ok:
            para = stack[-1]
            para.lines.append(uncells(s[q:]))
            self.touch(n, len(stack))
            return
        if cont.t == 'paragraph':
            cont.lines.append(uncells(s[q:]))
            self.touch(n, depth)
            return
        self.add(depth, 'paragraph', q).lines.append(uncells(s[q:]))
        self.touch(n, len(stack))

    def enter(self, depth, in_para):
        """a new block begins in the container at `depth`: leave an open paragraph there"""
        if in_para:
            depth -= 1
        self.close_to(depth)
        return depth

    def touch(self, n, depth):
        for b in self.stack[:depth]:
            b.last = n

    def close(self):
        self.close_to(0)
        return self.root


def gap(a, b):
    """is there a blank line between the end of block a and the start of block b?"""
    return b.first - a.last > 1


def gap_at_end(b):
    """is there a blank line after the end of b that only definitions hide?"""
    while b.t in ('list', 'item') and b.kids:
        ks = b.kids
        j = len(ks) - 1
        blank = False
        while j > 0 and ks[j].t == 'definitions':
            blank = blank or gap(ks[j - 1], ks[j])
            j -= 1
        b = ks[j]
        if blank and b.t != 'definitions':
            return True
    return False


def blank_between(ks):
    """is there a blank line between two consecutive blocks of ks?

    CHOICE: definitions are no blocks; a blank line next to one lies between the blocks
    around it.
    """
    prev = None
    blank = False
    for k, b in enumerate(ks):
        if prev is not None:
            blank = blank or gap(ks[k - 1], b)
        if b.t != 'definitions':
            if prev is not None and (blank or gap_at_end(prev)):
                return True
            prev = b
            blank = False
    return False


def tight(lst):
    return not (blank_between(lst.kids) or any(blank_between(it.kids) for it in lst.kids))


# ---------------------------------------------------------------- small grammars

ENTITY_RE = re.compile('&(?:#[xX][0-9a-fA-F]{1,6}|#[0-9]{1,7}|[A-Za-z][A-Za-z0-9]{1,31});')


def entity(m):
    """the text a syntactically valid reference stands for"""
    body = m[1:-1]
    if body[0] == '#':
        num = int(body[2:], 16) if body[1] in 'xX' else int(body[1:])
        return NUMERIC(num)
    v = html.entities.html5.get(body + ';')
    if v is not None:
        return v
    return None


def NUMERIC(num):
    """the character; what is no Unicode scalar value, and zero, is U+FFFD"""
    if num == 0 or 0xd800 <= num <= 0xdfff or num > 0x10ffff:
        return '\ufffd'
    return chr(num)


def unescape(s):
    if '\\' not in s and '&' not in s:
        return s
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '\\' and i + 1 < n and s[i + 1] in ASCII_PUNCT:
            out.append(s[i + 1])
            i += 2
            continue
        if c == '&':
            m = ENTITY_RE.match(s, i)
            if m:
                v = entity(m.group())
                if v is not None:
                    out.append(v)
                    i = m.end()
                    continue
        out.append(c)
        i += 1
    return ''.join(out)


def uri(s):
    out = []
    for c in s:
        if c in URI_KEEP:
            out.append(c)
        else:
            if 0xd800 <= ord(c) <= 0xdfff:
                c = '\ufffd'
            out.extend('%%%02X' % b for b in c.encode('utf-8'))
    return ''.join(out)


def link_label(s, i):
    """end of the bracketed label starting at i ('['), or None; CHOICE: blank labels
    have the shape of a label (and match nothing)."""
    if s[i:i + 1] != '[':
        return None
    j = i + 1
    while j < len(s) and j - i <= 1000:
        c = s[j]
        if c == '[':
            return None
        if c == ']':
            return j + 1
        if c == '\\' and j + 1 < len(s):
            j += 1
        j += 1
    return None


def norm(label):
    """label without its brackets -> key"""
    return re.sub('[' + WS + ']+', ' ', label.strip(WS)).casefold()


def spnl(s, i):
    """optional spaces and tabs with at most one line ending"""
    while i < len(s) and s[i] in ' \t':
        i += 1
    if i < len(s) and s[i] == '\n':
        i += 1
        while i < len(s) and s[i] in ' \t':
            i += 1
    return i


def destination(s, i):
    """(url, end) or None"""
    n = len(s)
    if i < n and s[i] == '<':
        j = i + 1
        while j < n:
            c = s[j]
            if c == '>':
                return uri(unescape(s[i + 1:j])), j + 1
            if c in '<\n':
                return None
            if c == '\\':
                if j + 1 < n and s[j + 1] != '\n':
                    j += 2
                    continue
                return None
            j += 1
        return None
    depth, j = 0, i
    while j < n:
        c = s[j]
        if c == '\\' and j + 1 < n and s[j + 1] in ASCII_PUNCT:
            j += 2
            continue
        if c in WS or c in CONTROL:
            break
        if c == '(':
            depth += 1
        elif c == ')':
            if depth == 0:
                break
            depth -= 1
        j += 1
    if depth:
        return None
    return uri(unescape(s[i:j])), j


def title(s, i):
    """(title, end) or None"""
    if i >= len(s) or s[i] not in '"\'(':
        return None
    close = {'(': ')'}.get(s[i], s[i])
    j = i + 1
    while j < len(s):
        c = s[j]
        if c == '\\' and j + 1 < len(s) and s[j + 1] in ASCII_PUNCT:
            j += 2
            continue
        if c == close:
            return unescape(s[i + 1:j]), j + 1
        if close == ')' and c == '(':
            return None
        j += 1
    return None


def line_end(s, i):
    """index after an optional run of blanks and a line ending (or the end), or None"""
    while i < len(s) and s[i] in ' \t':
        i += 1
    if i >= len(s):
        return i
    return i + 1 if s[i] == '\n' else None


def definition(s):
    """(key, dest, title, end) of the definition s starts with, or None"""
    e = link_label(s, 0)
    if e is None or s[e:e + 1] != ':':
        return None
    key = norm(s[1:e - 1])
    if key == '':
        return None
    i = spnl(s, e + 1)
    d = destination(s, i)
    if d is None or d[1] == i:
        return None
    dest, i = d
    j = spnl(s, i)
    if j > i:
        t = title(s, j)
        if t:
            e = line_end(s, t[1])
            if e is not None:
                return key, dest, t[0], e
    e = line_end(s, i)
    if e is None:
        return None
    return key, dest, '', e


# ---------------------------------------------------------------- inlines

EMAIL_RE = re.compile(
    r"<([a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?"
    r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")


def autolink(s, i):
    """(destination, shown text, end) or None"""
    m = EMAIL_RE.match(s, i)
    if m:
        return uri('mailto:' + m.group(1)), m.group(1), m.end()
    j = i + 1
    if j >= len(s) or s[j] not in LETTERS:
        return None
    while j < len(s) and (s[j] in ALNUM or s[j] in '+.-'):
        j += 1
    if not 2 <= j - i - 1 <= 32 or s[j:j + 1] != ':':
        return None
    while j < len(s) and s[j] not in '<>' and s[j] not in CONTROL and s[j] != ' ':
        j += 1
    if s[j:j + 1] != '>':
        return None
    body = s[i + 1:j]
    return uri(body), body, j + 1


def raw_html(s, i):
    """end of the raw HTML construct starting at i ('<'), or None"""
    e = open_tag_end(s, i)
    if e is None:
        e = close_tag_end(s, i)
    if e is not None:
        return e
    if s.startswith('<!--', i):
        e = s.find('--', i + 4)
        if e < 0 or s[e:e + 3] != '-->':
            return None
        text = s[i + 4:e]
        if text.startswith('>') or text.startswith('->') or text.endswith('-'):
            return None
        return e + 3
    if s.startswith('<?', i):
        e = s.find('?>', i + 2)
        return None if e < 0 else e + 2
    if s[i:i + 9] == '<![CDATA[':
        e = s.find(']]>', i + 9)
        return None if e < 0 else e + 3
    if s.startswith('<!', i):
        j = i + 2
        while j < len(s) and 'A' <= s[j] <= 'Z':
            j += 1
        if j > i + 2 and s[j:j + 1] and s[j] in WS:
            e = s.find('>', j)
            return None if e < 0 else e + 1
    return None


class Delim(object):
    __slots__ = ('c', 'n', 'orig', 'op', 'cl')


class Bracket(object):
    __slots__ = ('at', 'image', 'active')


def is_uspace(c):
    return c in '\t\n\x0c\r ' or unicodedata.category(c) == 'Zs'


_punct_cache = {}


def is_punct(c):
    if c in ASCII_PUNCT:
        return True
    if c < '\x80':
        return False
    return unicodedata.category(c)[0] == 'P'


def flanking(before, after):
    bs, as_ = is_uspace(before), is_uspace(after)
    bp, ap = is_punct(before), is_punct(after)
    left = not as_ and (not ap or bs or bp)
    right = not bs and (not bp or as_ or ap)
    return left, right, bp, ap


def resolve(items, smart=False):
    """items: nodes and Delims -> nodes; emphasis by the spec's procedure, no shortcuts"""
    items = list(items)
    j = 0
    while j < len(items):
        cl = items[j]
        if type(cl) is not Delim or not cl.cl:
            j += 1
            continue
        i = j - 1
        while i >= 0:
            op = items[i]
            if type(op) is Delim and op.op and op.c == cl.c:
                if cl.c in '\'"' or not ((op.cl or cl.op) and (op.orig + cl.orig) % 3 == 0
                                         and not (op.orig % 3 == 0 and cl.orig % 3 == 0)):
                    break
            i -= 1
        if cl.c in '\'"':
            close = '\u2019' if cl.c == "'" else '\u201d'
            if i >= 0:
                items[i] = ('text', '\u2018' if cl.c == "'" else '\u201c')
                items[j] = ('text', close)
            elif not cl.op:
                items[j] = ('text', close)
            else:
                pass
            j += 1
            continue
        if i < 0:
            if not cl.op:
                items[j] = ('text', cl.c * cl.n)
            j += 1
            continue
        op = items[i]
        use = 2 if op.n >= 2 and cl.n >= 2 else 1
        inner = [plain(x) for x in items[i + 1:j]]
        rest = items[j + 1:]
        node = ('strong' if use == 2 else 'emph', inner)
        op.n -= use
        cl.n -= use
        new = items[:i] + ([op] if op.n else []) + [node]
        j = len(new)
        items = new + ([cl] if cl.n else []) + rest
    return [plain(x) for x in items]


def plain(x):
    if type(x) is Delim:
        if x.c == "'":
            return ('text', '\u2019')
        if x.c == '"':
            return ('text', '\u201c')
        return ('text', x.c * x.n)
    return x


def inlines(s, refs, smart=False):
    items = []
    brackets = []
    n = len(s)
    i = 0
    while i < n:
        c = s[i]
        if c == '\n':
            # spaces before the line ending: two or more make a hard break
            k = 0
            while i - k > 0 and s[i - k - 1] == ' ':
                k += 1
            hard = k >= 2
            if k and items and type(items[-1]) is tuple and items[-1][0] == 'text':
                items[-1] = ('text', items[-1][1][:-k])
            items.append(('hard',) if hard else ('soft',))
            i += 1
            while i < n and s[i] == ' ':
                i += 1
        elif c == '\\':
            if i + 1 < n and s[i + 1] == '\n':
                items.append(('hard',))
                i += 2
            elif i + 1 < n and s[i + 1] in ASCII_PUNCT:
                items.append(('text', s[i + 1]))
                i += 2
            else:
                items.append(('text', '\\'))
                i += 1
        elif c == '`':
            k = i
            while k < n and s[k] == '`':
                k += 1
            w = k - i
            e = k
            while e < n:
                e = s.find('`', e)
                if e < 0:
                    e = n
                    break
                f = e
                while f < n and s[f] == '`':
                    f += 1
                if f - e == w:
                    break
                e = f
            if e < n:
                body = s[k:e].replace('\n', ' ')
                if body.strip(' ') and body[0] == ' ' and body[-1] == ' ':
                    body = body[1:-1]
                items.append(('code', body))
                i = e + w
            else:
                items.append(('text', s[i:k]))
                i = k
        elif c in '*_' or (smart and c in '\'"'):
            k = i + 1
            if c in '*_':
                while k < n and s[k] == c:
                    k += 1
            left, right, bp, ap = flanking(s[i - 1] if i else '\n', s[k] if k < n else '\n')
            d = Delim()
            d.c, d.n, d.orig = c, k - i, k - i
            if c == '_':
                d.op = left and (not right or bp)
                d.cl = right and (not left or ap)
            elif c == '*':
                d.op, d.cl = left, right
            else:
                d.op, d.cl = left and not right, right
            items.append(d)
            i = k
        elif c == '[' or (c == '!' and s[i + 1:i + 2] == '['):
            b = Bracket()
            b.image = c == '!'
            b.active = True
            i += 2 if b.image else 1
            b.at = i
            items.append(b)
            brackets.append(b)
        elif c == ']':
            i += 1
            if not brackets:
                items.append(('text', ']'))
                continue
            b = brackets.pop()
            pos = next(k for k in range(len(items) - 1, -1, -1) if items[k] is b)
            literal = ('text', '![' if b.image else '[')
            if not b.active:
                items[pos] = literal
                items.append(('text', ']'))
                continue
            hit = link_tail(s, i, b.at, refs)
            if hit is None:
                items[pos] = literal
                items.append(('text', ']'))
                continue
            dest, ttl, i = hit
            kids = resolve([x for x in items[pos + 1:]], smart)
            items[pos:] = [('image' if b.image else 'link', dest, ttl, kids)]
            if not b.image:
                for o in brackets:
                    if not o.image:
                        o.active = False
        elif c == '<':
            a = autolink(s, i)
            if a:
                items.append(('link', a[0], '', [('text', a[1])]))
                i = a[2]
            else:
                e = raw_html(s, i)
                if e is not None:
                    items.append(('html', s[i:e]))
                    i = e
                else:
                    items.append(('text', '<'))
                    i += 1
        elif c == '&':
            m = ENTITY_RE.match(s, i)
            v = entity(m.group()) if m else None
            if v is not None:
                items.append(('text', v))
                i = m.end()
            else:
                items.append(('text', '&'))
                i += 1
        else:
            k = i + 1
            while k < n and s[k] not in '\n\\`*_[]!<&' and not (smart and s[k] in '\'"'):
                k += 1
            if smart:
                items.append(('text', smart_text(s[i:k])))
            else:
                items.append(('text', s[i:k]))
            i = k
    items = [('text', '![' if x.image else '[') if type(x) is Bracket else x for x in items]
    return resolve(items, smart)


def smart_text(t):
    t = t.replace('...', '\u2026')

    def dashes(m):
        k = len(m.group())
        if k % 3 == 0:
            em, en = k // 3, 0
        elif k % 2 == 0:
            em, en = 0, k // 2
        elif k % 3 == 2:
            em, en = (k - 2) // 3, 1
        else:
            em, en = (k - 4) // 3, 2
        return '\u2014' * em + '\u2013' * en
    return re.sub('--+', dashes, t)


def link_tail(s, i, at, refs):
    """what follows the ']' that ended at i (text began at `at`): (dest, title, end) or None"""
    n = len(s)
    if s[i:i + 1] == '(':
        j = spnl(s, i + 1)
        d = destination(s, j)
        if d is not None and not (d[1] == j and s[j:j + 1] != ')'):
            dest, j = d
            ttl = ''
            k = spnl(s, j)
            if k > j:
                t = title(s, k)
                if t:
                    ttl, k = t
                    k = spnl(s, k)
            if s[k:k + 1] == ')':
                return dest, ttl, k + 1
    e = link_label(s, i)
    if e is not None and e - i > 2:
        hit = refs.get(norm(s[i + 1:e - 1]))
        return None if hit is None else (hit[0], hit[1], e)
    # (a text of more than 999 characters is no link label)
    hit = refs.get(norm(s[at:i - 1])) if i - 1 - at <= 999 else None
    if hit is None:
        return None
    return hit[0], hit[1], (e if e is not None else i)


# ---------------------------------------------------------------- whole documents

def parse(text, smart=False):
    d = Doc()
    for ln in split_lines(text):
        d.line(ln)
    root = d.close()
    finish(root, d.refs, smart)
    return root


def finish(b, refs, smart):
    if b.t in ('paragraph', 'heading'):
        b.inl = inlines(b.a['content'], refs, smart)
    for k in b.kids:
        finish(k, refs, smart)


ESC = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def alt(nodes, out):
    """CHOICE: a hard break is a line ending, unless one is there already"""
    for x in nodes:
        t = x[0]
        if t in ('text', 'code', 'html'):
            out.append(esc(x[1]))
        elif t == 'soft' or t == 'hard' and not (out and out[-1].endswith('\n')):
            out.append('\n')
        elif t != 'hard':
            alt(x[-1], out)


def inline_html(nodes, out):
    for x in nodes:
        t = x[0]
        if t == 'text':
            out.append(esc(x[1]))
        elif t == 'code':
            out.append('<code>' + esc(x[1]) + '</code>')
        elif t == 'html':
            out.append(x[1])
        elif t == 'soft':
            out.append('\n')
        elif t == 'hard':
            out.append('<br />\n')
        elif t == 'emph':
            out.append('<em>')
            inline_html(x[1], out)
            out.append('</em>')
        elif t == 'strong':
            out.append('<strong>')
            inline_html(x[1], out)
            out.append('</strong>')
        elif t == 'link':
            out.append('<a href="' + esc(x[1]) + '"')
            if x[2]:
                out.append(' title="' + esc(x[2]) + '"')
            out.append('>')
            inline_html(x[3], out)
            out.append('</a>')
        else:
            out.append('<img src="' + esc(x[1]) + '" alt="')
            alt(x[3], out)
            out.append('"')
            if x[2]:
                out.append(' title="' + esc(x[2]) + '"')
            out.append(' />')


def block_html(b, out, is_tight):
    """blocks are separated by exactly one newline wherever one is not already there"""
    t = b.t

    def cr():
        if out and out[-1] != '\n':
            out.append('\n')
    if t == 'document':
        for k in b.kids:
            block_html(k, out, False)
    elif t == 'definitions':
        pass
    elif t == 'paragraph':
        if is_tight:
            inline_html(b.inl, out)
        else:
            cr()
            out.append('<p>')
            inline_html(b.inl, out)
            out.append('</p>')
            out.append('\n')
    elif t == 'heading':
        cr()
        out.append('<h%d>' % b.a['level'])
        inline_html(b.inl, out)
        out.append('</h%d>' % b.a['level'])
        out.append('\n')
    elif t == 'thematic_break':
        cr()
        out.append('<hr />')
        out.append('\n')
    elif t == 'code_block':
        cr()
        out.append('<pre><code')
        words = b.a.get('info', '').split()
        if words:
            out.append(' class="language-' + esc(words[0]) + '"')
        out.append('>' + esc(b.a['literal']) + '</code></pre>')
        out.append('\n')
    elif t == 'html_block':
        cr()
        out.append(b.a['literal'])
        out.append('\n')
    elif t == 'block_quote':
        cr()
        out.append('<blockquote>')
        out.append('\n')
        for k in b.kids:
            block_html(k, out, False)
        cr()
        out.append('</blockquote>')
        out.append('\n')
    elif t == 'list':
        cr()
        if b.a['mark'][0] == 'bullet':
            name, start = 'ul', ''
        else:
            name = 'ol'
            start = '' if b.a['start'] == 1 else ' start="%d"' % b.a['start']
        out.append('<' + name + start + '>')
        out.append('\n')
        tg = tight(b)
        for k in b.kids:
            out.append('<li>')
            for g in k.kids:
                block_html(g, out, tg)
            out.append('</li>')
            out.append('\n')
        out.append('</' + name + '>')
        out.append('\n')


def html_of(root):
    out = []
    block_html(root, out, False)
    return ''.join(out)


def deep(f):
    """the model may recurse as deeply as the input nests; the code under test may not"""
    @functools.wraps(f)
    def g(*args, **kw):
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(200000)
        try:
            return f(*args, **kw)
        finally:
            sys.setrecursionlimit(limit)
    return g


@deep
def to_html(text, smart=False):
    return html_of(parse(text, smart))
