"""Crash points: every call is interrupted at every line it executes, and everything must work as if it had never been made."""
import contextlib
import io
import itertools
import os
import sys

import commonmark
import docs
import engine
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('each call (parse, render as HTML or reStructuredText, dump as JSON or as a listing, convenience function) on shared objects is interrupted by an exception raised at every line of the package it executes, '
        'one execution per line; afterwards the same parser, renderers and tree, and fresh ones, must give the results of fresh objects for that document and for probes; outcome = the line of code interrupted')
ASSUMPTIONS = ['interrupts between the bytecodes of one line have the effect of one before or after it', 'documents outside the enumerated spaces behave like those within',
               'a tree whose parsing or editing was interrupted is not used any more']
HERE = os.path.join(os.path.abspath(engine.REPO), 'commonmark') + os.sep


class Interrupt(KeyboardInterrupt):
    pass


class Full(MemoryError):
    pass


KINDS = {'interrupt': Interrupt, 'memory': Full}


class Injector(object):
    """counts the lines of the package executed, and raises at line number `at`"""

    def __init__(self, at=None, kind=Interrupt):
        self.n = 0
        self.at = at
        self.kind = kind
        self.where = None

    def trace(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(HERE) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.at:
                self.where = '%s:%d' % (frame.f_code.co_filename[len(HERE):], frame.f_lineno)
                sys.settrace(None)
                raise self.kind()
        return self.line

    def run(self, f):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return f()
        finally:
            sys.settrace(old)


OPTIONS = {'safe': True, 'sourcepos': True, 'softbreak': '<br />'}
PROBES = ['w](x) y* [r] ![s]\n[t] "a" *b* `c`\n\n- a\n\n  b\n- ![x *y*](z)\n\n> f\n```\ng', '[r]: /p "q"\n\n[r] <b> **d**\ne']

LIGHT = ['> ![x *y*](z)\n\n[r]']


def make():
    return {'P': commonmark.Parser(), 'S': commonmark.Parser({'smart': True}), 'H': commonmark.HtmlRenderer(), 'X': commonmark.HtmlRenderer(dict(OPTIONS)), 'R': commonmark.ReStructuredTextRenderer()}


class Redirected(Exception):
    pass


def listing(ast):
    with contextlib.redirect_stdout(io.StringIO()) as buf:
        try:
            commonmark.dumpAST(ast)
        finally:
            if sys.stdout is not buf:
                raise Redirected('standard output is another stream after dumpAST')
    return buf.getvalue()


def results(env, doc):
    """what the objects give for the document"""
    plain, smart = env['P'].parse(doc), env['S'].parse(doc)
    return of_tree(env, plain) + of_tree(env, smart)


def of_tree(env, ast):
    top = ast.first_child
    return [env['H'].render(ast), env['X'].render(ast), env['R'].render(ast), commonmark.dumpJSON(ast), listing(ast),
            env['H'].render(top) + env['R'].render(top) + commonmark.dumpJSON(top) if top else '']


CALLS = {
    'parse': lambda env, ast, doc: env['P'].parse(doc), 'parse smart': lambda env, ast, doc: env['S'].parse(doc),
    'html': lambda env, ast, doc: env['H'].render(ast), 'html, options': lambda env, ast, doc: env['X'].render(ast), 'rst': lambda env, ast, doc: env['R'].render(ast),
    'json': lambda env, ast, doc: commonmark.dumpJSON(ast), 'ast': lambda env, ast, doc: listing(ast), 'commonmark': lambda env, ast, doc: commonmark.commonmark(doc), 'make': lambda env, ast, doc: make(),
    'part, html': lambda env, ast, doc: env['H'].render(ast.last_child), 'part, rst': lambda env, ast, doc: env['R'].render(ast.last_child), 'part, json': lambda env, ast, doc: commonmark.dumpJSON(ast.last_child), 'part, ast': lambda env, ast, doc: listing(ast.last_child)}
GOLD = {}


def gold(doc):
    if doc not in GOLD:
        GOLD[doc] = results(make(), doc)
    return GOLD[doc]


def length(call, doc):
    env = make()
    ast = commonmark.Parser().parse(doc)
    i = Injector()
    i.run(lambda: CALLS[call](env, ast, doc))
    return i.n


def check(env, ast, doc, said, probes=PROBES[:1]):
    for d in probes + [doc]:
        got = results(env, d)
        if got != gold(d):
            return '%s: then the same objects give for %r another result\n  fresh %r\n  here  %r' % (said, d, [w for w, g in zip(gold(d), got) if w != g][:1], [g for w, g in zip(gold(d), got) if w != g][:1])
    if ast is not None:
        got = of_tree(env, ast)
        if got != gold(doc)[:6]:
            return '%s: then the tree gives other results\n  before %r\n  after  %r' % (said, [w for w, g in zip(gold(doc), got) if w != g][:1], [g for w, g in zip(gold(doc), got) if w != g][:1])
    if probes is LIGHT:
        return None
    d = PROBES[1]
    if results(make(), d) != gold(d):
        return '%s: then fresh objects give another result for %r' % (said, d)
    return None


def interrupted(item):
    call, doc, at, kind = item
    for d in [doc] + PROBES:
        gold(d)
    env = make()
    ast = commonmark.Parser().parse(doc)
    i = Injector(at, KINDS[kind])
    try:
        got = i.run(lambda: CALLS[call](env, ast, doc))
    except KINDS[kind]:
        pass
    else:
        if i.where is None:
            return None, 'beyond the end'
        if call == 'make' or call.startswith('parse'):
            pass
        elif call.startswith('part') and got != CALLS[call](make(), commonmark.Parser().parse(doc), doc) or not call.startswith('part') and got != {'html': gold(doc)[0], 'html, options': gold(doc)[1], 'rst': gold(doc)[2], 'json': gold(doc)[3], 'ast': gold(doc)[4], 'commonmark': gold(doc)[0]}[call]:
            return '%s of %r: %s at line event %d (%s) was swallowed and the result is wrong: %r' % (call, doc, kind, at, i.where, got), None
    return check(env, ast, doc, '%s of %r: %s at line event %d (%s)' % (call, doc, kind, at, i.where)), i.where


def twice(item):
    """two interrupted calls one after the other"""
    (one, doc1, k1), (two, doc2, k2) = item
    env = make()
    gold(doc1), gold(doc2), gold(LIGHT[0])
    said = []
    for call, doc, at in (one, doc1, k1), (two, doc2, k2):
        ast = commonmark.Parser().parse(doc)
        i = Injector(at)
        try:
            i.run(lambda: CALLS[call](env, ast, doc))
        except Interrupt:
            pass
        said.append('%s of %r interrupted at line event %d (%s)' % (call, doc, at, i.where))
    return check(env, ast, doc2, ', '.join(said), LIGHT), i.where


WORD = 'Www00000'
UNSEEN = ['[Www00000]: /Www00000&amp; "&lt;Www00000\\""\n\n![Www00000 [www00000]][Www00000] &copy; <b Www00000="&amp;"> `Www00000`', '```Www00000&amp;\\*\nWww00000 <\n```\n\n# Www00000 *Www00000*\n\n- "Www00000 -- \'Www00000...\n  <http://Www00000>',
          '[a](Www00000%20\xe9&auml; (Www00000\\&amp;)) <div Www00000>\n\n    Www00000 &amp;\n\n<!-- Www00000 <&>"']


def unseen(item):
    """the same with words this process has never met before (tables of what was met are filled by the interrupted call)"""
    call, template, at, _ = item
    word = 'Www%x%04x' % (sorted(CALLS).index(call), at)
    doc = template.replace(WORD, word).replace(WORD.lower(), word.lower())
    env = make()
    ast = commonmark.Parser().parse(template)
    if not call.startswith(('parse', 'commonmark')):
        for n, e in ast.walker():
            for k in 'literal', 'info', 'title', 'destination':
                if getattr(n, k):
                    setattr(n, k, getattr(n, k).replace(WORD, word))
    i = Injector(at)
    try:
        i.run(lambda: CALLS[call](env, ast, doc))
    except Interrupt:
        pass
    for objects, said in (env, 'the same'), (make(), 'fresh'):
        want = [x.replace(WORD, word).replace(WORD.lower(), word.lower()) for x in gold(template)]
        got = results(objects, doc)
        if got != want:
            return '%s of %r interrupted at line event %d (%s): then %s objects give\n  expected %r\n  got      %r' % (
                call, doc, at, i.where, said, [w for w, g in zip(want, got) if w != g][:1], [g for w, g in zip(want, got) if w != g][:1]), None
    return None, i.where


class Points(engine.Space):
    """every (call, document, line event)"""

    def __init__(self, calls, documents, kinds=('interrupt',)):
        self.parts = [(c, d, length(c, d), k) for c in calls for d in documents for k in kinds]
        self.ends = list(itertools.accumulate(p[2] for p in self.parts))
        self.size = self.ends[-1]
        self.about = '%d calls x %d documents x %d kinds of exception, every line executed' % (len(calls), len(documents), len(kinds))

    def item(self, i):
        import bisect
        k = bisect.bisect_right(self.ends, i)
        c, d, n, kind = self.parts[k]
        return c, d, i - (self.ends[k] - n) + 1, kind


class Pairs(engine.Space):
    def __init__(self, *steps, every=True):
        self.pairs = [(a, b) for a in steps for b in steps if every or a == b]
        self.lengths = {s: length(*s) for s in steps}
        self.sizes = [self.lengths[a] * self.lengths[b] for a, b in self.pairs]
        self.ends = list(itertools.accumulate(self.sizes))
        self.size = self.ends[-1]
        self.about = '%d pairs of calls, every pair of lines executed' % len(self.pairs)

    def item(self, i):
        import bisect
        k = bisect.bisect_right(self.ends, i)
        i -= self.ends[k] - self.sizes[k]
        a, b = self.pairs[k]
        n = self.lengths[b]
        return a + (i // n + 1,), b + (i % n + 1,)


TREES = ['![a *b* ![c](d)](u "t") <b>\ne', '> - ```x\n>   code\n>\n> f', '1. a\n\n   b\n2. *c **d***\n   - e', '# h `i`\n\n<div>\nj\n</div>\n\n***', '[r]: /u "t"\n\n[r] [s](file:x) <yy:z>\\\n"k" &amp; -- ...', '![[a](b)\\\nc `d` <e>](f)', '']
TEXTS = TREES + ['[r]: /u\n[s]: <v> "w\nx"\n\n[S] [r][s] [t', '**a *b _c [d ![e `f', '- a\n  - b\n\n    c\nd\n===', '[a](b "c") ![d](<e> \'f\')', '~~~ g\nh', '\ta\n\t\n\tb\n>\tc', 'a\0b\r\nc  \nd', '<!-- i', '[x][y]\n\n[y]: z\n[x', '*[a*](b*)* _c_', 'd\n---\n\n10) e\n11) f', '&#x41;&foo;\\*<b c="d">']


def plan(tier):
    q = tier == 'quick'
    more = [docs.EVERYWHERE.replace('{c}', c) for c in ('a', '*', '"')]
    out = ['html', 'html, options', 'rst', 'json', 'ast']
    return [
        Exploration('interrupted parsing', Points(['parse'], TEXTS), interrupted),
        Exploration('interrupted smart parsing', Points(['parse smart'], TREES[3:6] if q else TEXTS), interrupted),
        Exploration('interrupted output', Points(out, TREES), interrupted),
        Exploration('words not met before', Points(['parse', 'parse smart', 'html', 'html, options', 'rst', 'json', 'ast', 'commonmark'], UNSEEN), unseen),
        Exploration('interrupted output of a part', Points(['part, html', 'part, rst', 'part, json', 'part, ast'], [t for t in TREES if t]), interrupted),
        Exploration('no memory', Points(['parse'] + out, TREES[:4] if q else TEXTS, ['memory']), interrupted),
        Exploration('interrupted function and construction', Points(['commonmark', 'make'], TREES[:3] if q else TEXTS), interrupted),
        Exploration('two interrupts', Pairs(('html', '![](b)'), ('rst', 'a'), every=False) if q else Pairs(('parse', '*a'), ('parse', '[b'), ('html', '![a](b)'), ('rst', '> a'), ('json', '- a'), ('ast', 'a')), twice),
    ] + ([] if q else [
        Exploration('lines', Points(['parse', 'rst', 'html'], docs.LINES), interrupted), Exploration('inlines', Points(['parse smart', 'html'], ['a %s b %s c' % (i, i) for i in docs.INLINES]), interrupted),
        Exploration('leaf blocks in containers', Points(['parse', 'rst'], ['> - ' + l.replace('\n', '\n>   ') for l in docs.LEAVES[:20]]), interrupted),
        Exploration('every construct', Points(['html', 'rst'], more), interrupted)])


run = runner.make(plan)
