"""Words are opaque: in every document a word can be replaced by any other, and only the word changes."""
import json
import re
import urllib.parse

import commonmark
import docs
import harvest
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('templates hold a word in every place that takes text; each is run with a plain word and with every word of a list (keywords, names of tags, schemes and node types, numbers, letters of other alphabets, letters that change length with '
        'case, very long words); the outputs, plain and smart, HTML with every option, JSON and reStructuredText, must be those of the plain word with the word replaced (percent-encoded in destinations); outcome = the HTML of the template')
ASSUMPTIONS = ['documents and words outside the enumerated spaces behave like those within']

# the plain words; they occur nowhere else
W, D = 'Wqw', 'Dqd'
WORDS = ['a', 'Z', 'x1', '0', '1', '10', '007', '123456789', '1234567890123', 'None', 'True', 'False', 'null', 'nan', 'inf', 'document', 'text', 'item', 'list', 'paragraph', 'image', 'link', 'softbreak', 'self', 'html', 'div', 'pre', 'script', 'style', 'p', 'br', 'CDATA',
         'http', 'https', 'javascript', 'mailto', 'data', 'file', 'www', 'amp', 'lt', 'quot', 'copy', 'nbsp', 'AElig', 'language', 'code', 'class', 'href', 'n', 't', 'r', 'u0041', 'x41', 'U', 'safe', 'smart', 'bullet', 'ordered', 'period', 'paren',
         '\xe9', '\xdf', '\u1e9e', '\xc5', 'e\u0301', '\u0130', '\u0131', '\u017f', '\u212a', '\u03a3\u03c2', '\ufb03', '\u6f22\u5b57', '\uff41', '\U0001d4b3', '\u0663', '\u2167', '\xaa', '\xb5', '\u05d0', '\u0e01', '\U00020000', '\u0345', '\u1f88', '\u01c5',
         'a' * 63, 'b' * 64, 'c' * 65, 'd' * 255, 'e' * 256, 'f' * 257, 'g' * 480, '1' * 400, '\xe9' * 300]
# words that programs are tempted to treat in a way of their own
VOCABULARY = '''tis twas em til cause bout round neath gainst ve ll re s d m nt aint cant dont wont its 90s 2nd 3rd 1st th nth vs etc eg ie al cf No no pp Mr Dr St Jr PhD OK ok TODO FIXME XXX NOTE WARNING TIP toc TOC table Table begin end
html head title base link meta body article section nav aside h1 h2 h3 h4 h5 h6 header footer address hr blockquote ol ul li dl dt dd figure figcaption main center a strong small cite q dfn abbr ruby rt rp time var samp kbd sub sup i b u mark bdi bdo span wbr ins del
picture source img iframe embed object param video audio track map area svg math caption colgroup col tbody thead tfoot tr td th form label input button select datalist optgroup option textarea output progress meter fieldset legend details summary dialog menu menuitem
noscript template slot canvas frame frameset noframes basefont dir font isindex applet marquee xmp listing plaintext plain search hgroup textarea script SCRIPT Script ftp ftps sftp ssh git svn irc ircs xmpp sip sips tel sms geo urn uuid about blob cid chrome view view-source
ws wss gopher telnet news nntp ldap ldaps magnet bitcoin tag doi file FILE localhost com org net example mailto MAILTO JavaScript VBScript Data data livescript mocha jar feed apos gt AMP LT QUOT reg ndash mdash hellip lsquo rsquo ldquo rdquo zwj shy
php xml XML DOCTYPE doctype ENTITY ELEMENT cdata Cdata py python Python python3 pycon js javascript json yaml yml toml ini sh bash console cpp c cc cs java rb go rs sql tex latex math mermaid diff patch raw text plain txt md markdown rst none None nohighlight
document block_quote list item paragraph heading code_block html_block html_inline thematic_break emph strong code image softbreak linebreak custom_inline custom_block hardbreak bullet ordered tight loose period start delimiter padding literal title info destination
string_content children type list_data walker parent nxt prv first_child root entering True False true false null undefined nan NaN Infinity inf e1 1e5 0x1f 0b1 0o7 1_000 ii iv ix xi II IV aa AA ab q0 x0 x1F u1F u00e9 N'''.split()
# and the words of the code itself
VOCABULARY = sorted(set(w for w in VOCABULARY + harvest.words() if w.isalnum() and w not in WORDS))
LONG = ['h' * n for n in (1023, 1024, 1025, 4095, 4096, 4097, 20000, 70000)]


def outputs(doc):
    ast, smart = parse(doc), parse(doc, smart=True)
    return [render(ast), render(smart, safe=True, softbreak='<br />'), commonmark.ReStructuredTextRenderer().render(ast), commonmark.dumpJSON(ast), commonmark.dumpJSON(smart)]


LINES = re.compile(r'^( *)([=\-~^"\'`#*.:_+])\2*$', re.M)
GOLD = {}


def swap(template):
    """lengths of heading lines follow those of the text"""
    out = outputs(template)
    return out[:2] + [LINES.sub(r'\1\2', out[2])] + out[3:]


def matches(want, got, word, quoted):
    """got is want with each D replaced by the word or its percent-encoding (text that only looks like a destination stays)"""
    if got == want.replace(D, quoted):
        return True
    either = '(?:%s|%s)' % (re.escape(word), re.escape(quoted))
    return re.match(either.join(re.escape(x) for x in want.split(D)) + r'\Z', got) is not None


def replaced(item):
    template, word = item
    if template not in GOLD:
        if len(GOLD) > 2000:
            GOLD.clear()
        GOLD[template] = swap(template)
    quoted = urllib.parse.quote(word.encode('utf-8'))
    got = swap(template.replace(W, word).replace(D, word))
    for i, (a, b) in enumerate(zip(GOLD[template], got)):
        w = json.dumps(word)[1:-1] if i > 2 else word
        want = a.replace(W, w)
        if i == 2:
            want = LINES.sub(r'\1\2', want)
            b = LINES.sub(r'\1\2', b)
        if not matches(want, b, w, quoted):
            return '%r with %r for %s, output %d\n  expected %r\n  got      %r' % (template, word[:80], W, i, want[:2000], b[:2000]), None
    return None, (len(word) > 1, GOLD[template][0])


BLOCKS = ['W', '  W', '> W', '- W', '7) W', '    W', '\tW', '# W', '## W ##', '```W', '~~~ W y', '```', '', 'W\n===', '[W]: /D "W"', '[W]', '*W* **W**', '<!-- W -->', '<div W="W">', '- - W', '>     W', 'W\\\nW', 'W  \nW', '***']
INL = ['W', ' ', '*', '**', '_', '`W`', '[W](D)', '[W](<D> "W")', '![W](D \'W\')', '[W]', '[W][]', '![W][W]', '<http://D>', '<b k="W">', '<a-b k=W l>', '&amp;', '\\*', '\n', '"', '--', "'", '<!-- W -->', '[x](D (W))', '<W1@D1.x>'][:-1]
PLACED = ['*W*', '_W_', 'x*W*y', '*a*W', 'W*a*', '_a_W', '"W"', "'W'", "x'W", "W's", '"W', 'W--W', 'W...W', '`W`', '``W`W``', '[W]\n\n[W]: D', '[W][]\n\n[W]: <D> "W"', '![x][W]\n\n[W]: D (W)', '[x [W]][W]\n\n[ W ]: D', '[W\nW]\n\n[W W]: D',
          '<http:D>', '<https://D/D?D#D>', '<a href="W">', '<!X W>', '<?W?>', '<!-- W W -->', '<![CDATA[W]]>', '&W', '&W W;', '&#W W', '\\W', '\\\\W', '![W *W* [W](D)](D "W")', '![![W](D "W")](D)', '[W](D\'D\')', '[W](D "W" W)',
          '<div>\nW\n</div>\n\nW', '<!-- W\n\nW -->', '<script>\nW\n\n</script>', '```W W\nW\n```', '~~~ W\n~~~ W', '- W\n- W\n\n  W', '1. W\n   W\n2. W', '> W\nW\n> - W\nW', '    W\n\n    W', 'W\n---', '# W #W', '#W', '-W', '*W', '+W', '_W', '=W', '~W', '>W', '`W', '[W', '!W', '(W)', '{W}', '|W|', '@W', '$W', '%W%', '^W', '%s W', '{0} W', '{W}']


def put(t):
    return re.sub(r'(?<![A-Za-z])D(?![A-Za-z])', D, re.sub(r'(?<![A-Za-z])W(?![A-Za-z])', W, t))


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    blocks = [put(t) for t in BLOCKS]
    inl = [put(t) for t in INL]
    placed = [put(t) for t in PLACED]
    words = WORDS

    def listed(space):
        return [space.item(i) for i in range(space.size)]
    return [
        Exploration('blocks', Slots(listed(Product(blocks, 2, sep='\n')), words, join=tuple), replaced),
        Exploration('three blocks', Slots(listed(Product(blocks, 3, lo=3, sep='\n')), words[::9] if q else words, join=tuple), replaced),
        Exploration('inlines', Slots(listed(Product(inl, 2)), words, join=tuple), replaced),
        Exploration('three inlines', Slots(listed(Product(inl, 3, lo=3)), words[4::9] if q else words, join=tuple), replaced),
        Exploration('placed', Slots(placed, WORDS, join=tuple), replaced),
        Exploration('placed, vocabulary', Slots(placed, VOCABULARY, join=tuple), replaced),
        Exploration('blocks, vocabulary', Slots(listed(Product(blocks, 1)), VOCABULARY, join=tuple), replaced),
        Exploration('inlines, vocabulary', Slots(listed(Product(inl, 1 + d)), VOCABULARY, join=tuple), replaced),
        Exploration('placed, long', Slots([p for p in placed if '[' not in p], LONG, join=tuple), replaced),
        Exploration('placed in containers', Slots([docs.inside(p, c) for p in placed for c in ([('> ', '> ')], [('- ', '  ')], [('1. ', '   '), ('>', '>')])], words, join=tuple), replaced),
    ]


run = runner.make(plan)
