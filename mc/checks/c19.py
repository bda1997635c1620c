"""Dumps: the tree rebuilt from the JSON records, and the AST listing read record by record, for every document."""
import json
import re

import commonmark
import docs
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('the JSON dump is parsed by a strict reader and replayed as enter/leave records into a tree, which must have the nodes, '
        'nesting, and textual data of the real tree; the AST listing is read chunk by chunk against the walk: same nodes, same '
        'order, every textual datum present verbatim; outcome = the data')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within',
               'an absent key or an empty entry stands for an empty value; heading levels are no textual data and are in neither dump']

DATA = ('literal', 'title', 'info', 'destination')
LABEL = re.compile(r'\t*(?:-> )?([A-Z][A-Za-z ]*|\[[a-z_]+\])(?: ?= |: ?)')


def facts(node):
    d = {k: getattr(node, k) or '' for k in DATA}
    d['type'] = node.t
    d['list_data'] = dict(node.list_data or {})
    return d


def noconst(x):
    raise Bad('JSON constant %s' % x)


def no_duplicates(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Bad('key %r twice' % k)
        d[k] = v
    return d


def replay(text):
    """records -> list of (facts, entering)"""
    recs = json.loads(text, parse_constant=noconst, object_pairs_hook=no_duplicates)
    if not isinstance(recs, list) or not recs:
        raise Bad('not a list of records')
    ev = []
    for i, r in enumerate(recs):
        ev.append((r, i == 0))
        for c in r.get('children', ()):
            ev.append((c, True))
            if c.get('children'):
                raise Bad('a nested record has children')
    return ev


def json_ok(doc, ast):
    text = commonmark.dumpJSON(ast)
    events = list(ast.walker())
    got = replay(text)
    if len(got) != len(events):
        raise Bad('JSON has %d records, the walk %d events' % (len(got), len(events)))
    stack = []
    for (r, entering), (n, e) in zip(got, events):
        want = facts(n)
        if entering != e:
            raise Bad('JSON: %s %s' % ('entering' if entering else 'leaving', r))
        have = {k: r.get(k, '') for k in DATA}
        have['type'] = r.get('type')
        have['list_data'] = r.get('list_data', {})
        if have != want:
            raise Bad('JSON record\n  expected %r\n  got      %r' % (want, have))
        # the structure follows from the records alone
        if 'children' in r:
            if entering:
                stack.append(want['type'])
            elif not stack or stack.pop() != want['type']:
                raise Bad('JSON records do not nest at %r' % r)
    if stack:
        raise Bad('JSON leaves %r open' % stack)


NAMES = {'Literal': 'literal', 'Title': 'title', 'Info': 'info', 'Destination': 'destination'}
LISTS = {'[type]': 'type', '[bullet_char]': 'bullet_char', '[start]': 'start', '[delimiter]': 'delimiter', '[padding]': 'padding', '[marker_offset]': 'marker_offset'}
HEAD = re.compile(r'\t*(?:-> )?\[([a-z_]+)\]\n')


def listing_ok(doc, ast):
    text = ast_listing(ast)
    pos = 0
    for n in [ast] + [n for n, e in ast.walker()]:
        m = HEAD.match(text, pos)
        if not m or m.group(1) != n.t:
            raise Bad('AST listing: expected [%s], found %r' % (n.t, text[pos:pos + 60]))
        pos = m.end()
        want = facts(n)
        seen = {}
        while True:
            m = LABEL.match(text, pos)
            if not m:
                raise Bad('AST listing of %r: unexpected %r' % (n, text[pos:pos + 60]))
            name = m.group(1)
            pos = m.end()
            if name == 'Children':
                pos = text.index('\n', pos - 1) + 1
                break
            if name in NAMES:
                value = want[NAMES[name]]
                if text.startswith(value + '\n', pos):
                    pos += len(value) + 1
                    seen[NAMES[name]] = value
                    continue
                raise Bad('AST listing of %r: %s is %r, not %r' % (n, name, text[pos:pos + 60], value))
            if name in LISTS:
                value = str(want['list_data'].get(LISTS[name]))
                if not text.startswith(value + '\n', pos):
                    raise Bad('AST listing of %r: %s is %r, not %r' % (n, name, text[pos:pos + 20], value))
                seen[LISTS[name]] = value
            if name == 'String content':
                value = n.string_content or ''
                if not text.startswith(value + '\n', pos):
                    raise Bad('AST listing of %r: string content is %r' % (n, text[pos:pos + 60]))
                pos += len(value) + 1
                continue
            pos = text.index('\n', max(pos - 1, 0)) + 1
        for k in DATA:
            if want[k] and k not in seen:
                raise Bad('AST listing of %r lacks its %s %r' % (n, k, want[k]))
        for k, v in want['list_data'].items():
            if k != 'tight' and v and k not in seen:
                raise Bad('AST listing of %r lacks %s %r' % (n, k, v))
    if pos != len(text):
        raise Bad('AST listing continues with %r' % text[pos:pos + 60])


def dumped(doc):
    for smart in (False, True):
        ast = parse(doc, smart=smart)
        try:
            json_ok(doc, ast)
            listing_ok(doc, ast)
        except Bad as e:
            return '%r%s: %s' % (doc, ' (smart)' if smart else '', e), None
        except ValueError as e:
            return '%r%s: %s: %s' % (doc, ' (smart)' if smart else '', type(e).__name__, e), None
    return None, tuple(repr(sorted(facts(n).items(), key=str)) for n, e in ast.walker() if e and n is not ast) or None


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    point = (list(range(0, 0x300)) + [0x2028, 0x2029, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff]) if q else range(0, 0x110000)
    values = ['a', '', '"', '\\\\', '&quot;', '\\"', '[text]', '-> [text]', '\t', 'Children:', 'Literal: x', '{}', '}', '\\u0041', '&#0;', '&#10;', '\xe9', '\U0001f600', '\ud800', "'", '</script>', '\x7f', '\x1b', '&#9;-> [text]&#10;']
    places = ['%s', '`%s`', '# %s', '[a](<%s>)', '[a](b "%s")', '![%s](<%s> \'%s\')', '```%s\n%s\n```', '    %s', '<!--%s-->\n', 'x <b c="%s">', '> %s', '- %s', '1. a\n\n   %s', '[%s]\n\n[%s]: <%s> (%s)', '%s\n===', '~~~ %s %s\n%s\n%s', '<http:%s>']
    return [
        Exploration('values in every place', Slots(places, values, join=lambda t: t[0].replace('%s', t[1])), dumped),
        Exploration('every character', Slots(list(point), [docs.EVERYWHERE], join=lambda t: t[1].replace('{c}', chr(t[0]))), dumped, chunk=50),
        Exploration('list data', Slots(['', ' ', '  ', '   '], ['-', '+', '*', '0.', '1.', '1)', '7.', '123456789)', '003.'], [' ', '  ', '    ', '     ', '\t', '\n  ', ''], ['a', '- b', '1. c', '    d', ''], ['', '\n- x', '\n\n1) y', '\n+ z\n\n  w']), dumped),
        Exploration('lines', docs.lines(3 + d), dumped),
        Exploration('lines of HTML', docs.tag_lines(3 + d), dumped),
        Exploration('inline texts in every place', docs.placed(docs.FEW_PARTS if q else docs.PARTS), dumped),
        Exploration('escapes spelled', Slots(docs.PLACES, ['\\' * n + x for n in (0, 1, 2, 3, 4) for x in ('u0000', 'u00e9', 'ud83d', 'ud83d\\ude00', 'U0001f600', 'n', 't', '"', '\\"', '/', 'x00', '0', 'N{DASH}', '&quot;', '&#92;', '\\')] + [
            'null', 'true', '{', '}', '[]', '{}', '"literal": "x"', '-> [text]', '\t-> Title: x', ', ', ': ', '\x7f', '\x1b[0m', '%s', '{0}', '\u2028', '\u2029', '\U0001f600', '</script>', 'NaN', '1e5'], join=lambda t: t[0].replace('%s', t[1])), dumped),
        Exploration('texts of several blocks', docs.several(2, docs.FEW_PARTS if q else docs.PARTS), dumped),
        Exploration('inlines', docs.inlines(3 + d), dumped),
        Exploration('nested blocks', docs.nested(2, pairs=not q), dumped),
        Exploration('sequences of blocks', docs.blocks(3 + d), dumped),
        Exploration('written documents', docs.written(1, 1 if q else 2), dumped),
        Exploration('characters', Product(docs.SPECIAL, 2 + d), dumped),
        Exploration('repetition', docs.pumps([2, 3, 9, 40]), dumped),
        Exploration('lengths', docs.lengths(()), dumped, chunk=40),
        Exploration('texts mentioned in the code', docs.mentioned_places(), dumped),
    ]


run = runner.make(plan)
