"""A strict recogniser for the HTML this renderer may produce, written from the documentation."""
import html as stdhtml
import re
import urllib.parse

ENT = re.compile('&(?:amp|lt|gt|quot);')
BAD = re.compile('[<>"]|&(?!(?:amp|lt|gt|quot);)')
TAG = re.compile(r'<(/?)([a-z][a-z0-9]*)((?: [a-z-]+="[^"]*")*)( /)?>')
ATTR = re.compile(r' ([a-z-]+)="([^"]*)"')
BLOCKS = {'p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'blockquote', 'ul', 'ol', 'pre', 'hr'}
INLINE = {'em', 'strong', 'a', 'code', 'br', 'img'}
VOID = {'hr', 'br', 'img'}
ATTRS = {'a': {'href', 'title'}, 'img': {'src', 'alt', 'title'}, 'ol': {'start'}, 'code': {'class'}}
POS = re.compile(r'^\d+:\d+-\d+:\d+$')
OMIT = '<!-- raw HTML omitted -->'


class Malformed(Exception):
    pass


def tokens(html):
    """[('text', s) | ('open', name, attrs) | ('close', name) | ('void', name, attrs) | ('omit',)]"""
    out = []
    i = 0
    while i < len(html):
        if html[i] != '<':
            j = html.find('<', i)
            j = len(html) if j < 0 else j
            s = html[i:j]
            m = BAD.search(s)
            if m:
                raise Malformed('unescaped %r in content %r' % (m.group(), s))
            out.append(('text', s))
            i = j
            continue
        if html.startswith(OMIT, i):
            out.append(('omit',))
            i += len(OMIT)
            continue
        m = TAG.match(html, i)
        if not m:
            raise Malformed('no tag at %r' % html[i:i + 40])
        close, name, attrs, void = m.groups()
        at = []
        for a, v in ATTR.findall(attrs):
            b = BAD.search(v)
            if b:
                raise Malformed('unescaped %r in attribute %s=%r' % (b.group(), a, v))
            at.append((a, v))
        if len({a for a, _ in at}) != len(at):
            raise Malformed('repeated attribute in %r' % m.group())
        if close:
            if at or void:
                raise Malformed('end tag %r' % m.group())
            out.append(('close', name))
        elif void:
            out.append(('void', name, at))
        else:
            out.append(('open', name, at))
        i = m.end()
    return out


def autolink(toks, i):
    """is the <a> at i as an autolink gives it?  CommonMark leaves these in the text of a link"""
    attrs = dict(toks[i][2])
    text = [t[1] for t in toks[i + 1:i + 2] if t[0] == 'text'] + ['']
    return list(attrs) == ['href'] and looks_alike(stdhtml.unescape(attrs['href']), stdhtml.unescape(text[0])) and toks[i + 2][:2] == ('close', 'a')


def looks_alike(dest, text):
    quoted = urllib.parse.quote(text, safe=";/?:@&=+$,-_.!~*'()#%")
    return urllib.parse.unquote(dest) in [urllib.parse.unquote(x) for x in (quoted, 'mailto:' + quoted)]


def check(html, sourcepos=False, safe=False):
    """raise Malformed unless html is a well-formed nesting of the documented elements"""
    stack = ['body']
    toks = tokens(html)
    for i, t in enumerate(toks):
        parent = stack[-1]
        if t[0] == 'text':
            if t[1].strip('\n') and parent in ('body', 'blockquote', 'ul', 'ol', 'pre'):
                raise Malformed('text %r in %s' % (t[1], parent))
            continue
        if t[0] == 'omit':
            if not safe or parent in ('ul', 'ol', 'pre', 'code'):
                raise Malformed('comment in %s' % parent)
            continue
        name = t[1]
        if t[0] == 'close':
            if stack[-1] != name:
                raise Malformed('</%s> closes <%s>' % (name, stack[-1]))
            stack.pop()
            continue
        if name not in BLOCKS and name not in INLINE and name != 'li':
            raise Malformed('unknown element %s' % name)
        if (name in VOID) != (t[0] == 'void'):
            raise Malformed('%s as %s' % (name, t[0]))
        if name == 'li':
            ok = parent in ('ul', 'ol')
        elif name in BLOCKS:
            ok = parent in ('body', 'blockquote', 'li')
        elif name == 'code':
            ok = parent == 'pre' or parent in ('p', 'li', 'em', 'strong', 'a') or parent[0] == 'h'
        else:
            ok = parent in ('p', 'li', 'em', 'strong', 'a') or (parent[0] == 'h' and parent != 'hr')
        if not ok:
            raise Malformed('<%s> in <%s>' % (name, parent))
        if name == 'a' and 'a' in stack and not autolink(toks, i):
            raise Malformed('<a> in <a>')
        for a, v in t[2]:
            if a == 'data-sourcepos' and sourcepos and (name in BLOCKS or name == 'li' or (name == 'code' and parent == 'pre')) and POS.match(v):
                continue
            if a not in ATTRS.get(name, ()):
                raise Malformed('attribute %s of <%s>' % (a, name))
            if a == 'start' and not re.match(r'^(0|[1-9][0-9]{0,8})$', v):
                raise Malformed('start=%r' % v)
            if a == 'class' and (parent != 'pre' or not v.startswith('language-')):
                raise Malformed('class=%r in %s' % (v, parent))
        names = [a for a, _ in t[2]]
        if name == 'img' and ('src' not in names or 'alt' not in names):
            raise Malformed('<img> with %s' % names)
        if name == 'a' and 'href' not in names and not safe:
            raise Malformed('<a> without destination')
        if t[0] == 'open':
            stack.append(name)
    if len(stack) > 1:
        raise Malformed('unclosed <%s>' % stack[-1])
    return toks
