"""Call histories: after every enumerated history of calls each result is the one a fresh interpreter gives."""
import itertools
import os
import pickle

import commonmark
import docs
import engine
from lib import *

LEVEL = 'model_checking'
RULE = ('state = history of calls on shared parsers and renderers; transition = one more call (parse and render, convenience function, dumps, '
        'constructing or altering another instance, or a call that raises); the result of every call must equal the one '
        'obtained by fresh objects in a process of its own; nothing is merged: every history up to the depth is executed')
ASSUMPTIONS = ['longer histories are compositions of the enumerated ones']

DOCS = ['[r]: /u "t"\n\n[r] *a*', '[r] ![r] [s]', '> - ```x\n>   code', '![a *b* ![c](d)](u "t") <b>', '# h', '-\ta\n\n\tb', '"a" -- \'b\'...', '<div>\n*x*', '', '1. a\n\n   b\n2. c\n\n\n',
        '**a *b _c [d ![e', '[R]: /v\n\n[r]\\\nx  \ny', '- a\n  - > b', 'a\0\r\nb\r&amp;', '[x](javascript:y)', '<!-- a']
MORE = ['```\na\n\n', '    a\n\n    b', '*', '[a](b', '`', '&#0;', '7) a', '***', '> a\nb', '[s]: /w']
PARSERS = {'P': {}, 'S': {'smart': True}}
RENDERERS = {'H': {}, 'F': {'safe': True}, 'X': {'sourcepos': True, 'softbreak': '<br />'}}


def fresh():
    """objects shared by one history"""
    env = {k: commonmark.Parser(dict(v)) if v else commonmark.Parser() for k, v in PARSERS.items()}
    env.update({k: commonmark.HtmlRenderer(dict(v)) if v else commonmark.HtmlRenderer() for k, v in RENDERERS.items()})
    env['R'] = commonmark.ReStructuredTextRenderer()
    env['kept'] = {}
    return env


def out(env, ast, how):
    if how in env:
        return env[how].render(ast)
    if how == 'json':
        return commonmark.dumpJSON(ast)
    return ast_listing(ast)


def broken(doc, t, attr, value):
    ast = commonmark.Parser().parse(doc)
    for n, e in ast.walker():
        if n.t == t:
            setattr(n, attr, value)
    return ast


def raises(f, *args):
    try:
        f(*args)
    except Exception as e:
        return type(e).__name__
    return 'returned'


def other_instances(env):
    """other objects with other options, made, altered and used"""
    p = commonmark.Parser()
    p.options['smart'] = True
    h = commonmark.HtmlRenderer()
    h.options['safe'] = True
    h.options['softbreak'] = ' '
    a = h.render(p.parse('"x"\n<b>'))
    p2 = commonmark.Parser({'smart': True})
    h2 = commonmark.HtmlRenderer({'safe': True, 'sourcepos': True, 'softbreak': '!'})
    r2 = commonmark.ReStructuredTextRenderer('.')
    ast = p2.parse('[r]: /other\n\n[r] "y"\nz <i>\n\n> ```\n> a')
    return a, h2.render(ast), r2.render(ast)


BAD = {
    'parse None': lambda env: raises(env['P'].parse, None) + raises(env['S'].parse, 7),
    'parse bytes': lambda env: raises(env['P'].parse, b'[r]: /z\n\na'),
    'render None': lambda env: raises(env['H'].render, None) + raises(env['R'].render, 'x') + raises(env['X'].render, 5),
    'render broken image': lambda env: raises(env['H'].render, broken('![a *b*](u)', 'text', 'literal', 5)) + raises(env['R'].render, broken('![a *b*](u)', 'text', 'literal', 5)),
    'render broken nested image': lambda env: raises(env['F'].render, broken('![a ![b](c)](u)', 'text', 'literal', ())) + raises(env['X'].render, broken('![a *b*](u)', 'text', 'literal', 5)),
    'render broken quote': lambda env: raises(env['R'].render, broken('> - > a', 'text', 'literal', 5)) + raises(env['H'].render, broken('> - > a', 'text', 'literal', 5)),
    'render broken item': lambda env: raises(env['R'].render, broken('1. - a\n- b', 'item', 'list_data', None)) + raises(env['H'].render, broken('- a', 'list', 'list_data', None)),
    'wrong format': lambda env: raises(commonmark.commonmark, '[r]: /q\n\n"a"', 'bad'),
    'dump None': lambda env: raises(commonmark.dumpJSON, None) + raises(commonmark.dumpAST, None),
}


def do(env, op):
    kind = op[0]
    if kind == 'pr':                    # parse with, render with, document
        _, p, r, d = op
        return out(env, env[p].parse(d), r)
    if kind == 'cm':                    # convenience function
        return commonmark.commonmark(op[2], op[1])
    if kind == 'bad':
        return BAD[op[1]](env)
    if kind == 'others':
        return other_instances(env)
    if kind == 'keep':                  # parse now, render later
        env['kept'][op[1:]] = env[op[1]].parse(op[2])
        return None
    raise AssertionError(op)


def golden(ops):
    """the result of each operation alone, each in a process of its own"""
    res = {}
    for op in ops:
        if op in res:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                data = pickle.dumps(engine.judge_one(lambda o: (None, do(fresh(), o)), op))
                while data:
                    data = data[os.write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        msg, val = pickle.loads(data)
        res[op] = (msg, val)
    return res


GOLD = {}


def judge_history(ops):
    env = fresh()
    last = None
    for i, op in enumerate(ops):
        want = GOLD[op]
        if want[0] is not None:
            return '%r alone: %s' % (op, want[0]), None
        try:
            got = do(env, op)
        except Exception as e:
            return 'history %r: call %d raised %s: %s' % (ops, i, type(e).__name__, e), None
        if got != want[1]:
            return 'history %r: call %d differs\n  alone %r\n  here  %r' % (ops, i, want[1], got), None
        last = got
    # trees kept from earlier in the history render as if just parsed
    for (p, d), ast in env['kept'].items():
        for how in ('H', 'R', 'json', 'ast'):
            want = GOLD[('pr', p, how, d)]
            got = out(env, ast, how)
            if got != want[1]:
                return 'history %r: tree of %r kept, %s\n  alone %r\n  here  %r' % (ops, d, how, want[1], got), None
    return None, (last if isinstance(last, str) else repr(ops[-1]))


class History(engine.Space):
    def __init__(self, *choices, **kw):
        self.s = Slots(*choices, join=tuple)
        self.size = self.s.size
        self.about = 'histories of %s calls' % ' x '.join(str(len(c)) for c in choices)

    def item(self, i):
        return self.s.item(i)


PROBES = ['[r] ![s]\n[t]', '"a" *b* **c**', '- a\n\n  b\n- c', '# d <b>\n    e', '![x *y*](z)', '> f\n```\ng']


def any_document(doc):
    """any document, then a probe on the same objects"""
    env = fresh()
    for p, hs in (('P', ('H', 'R', 'X')), ('S', ('F',))):
        ast = env[p].parse(doc)
        for h in hs:
            env[h].render(ast)
    for probe in PROBES:
        for p, h in (('P', 'H'), ('P', 'R'), ('P', 'X'), ('S', 'F')):
            want = GOLD[('pr', p, h, probe)]
            got = out(env, env[p].parse(probe), h)
            if got != want[1]:
                return 'after %r, %r by %s and %s\n  alone %r\n  here  %r' % (doc, probe, p, h, want[1], got), None
    # and the document itself again, on used objects
    if env['H'].render(env['P'].parse(doc)) != html(doc):
        return '%r: a used parser and renderer give another result than fresh ones' % doc, None
    return None, doc[:8]


def many_times(item):
    """one call after another, all the same (with a second one in between)"""
    op, other, n = item
    env = fresh()
    for i in range(n):
        for o in (op, other) if other else (op,):
            want = GOLD[o]
            if want[0] is not None:
                return '%r alone: %s' % (o, want[0]), None
            got = do(env, o)
            if got != want[1]:
                return '%r repeated, call %d differs\n  alone %r\n  here  %r' % (o, i, want[1], got), None
    return None, (op, other)


UNMATCHED = '"a \'b *c _d [e ![f `g <h &i; **j\n\n[k]: /l\n\n[k] \\* -- ... "m" \'n\' [o](p "q") ![r](s) `t`  \n*u*\n\n- v\n\n1. w\n\n> x\n\n# y\n\n    z\n\n```a b\n```\n\n<b>\n\n***\n'
LONGEST = [('pr', 'S', 'F', PROBES[1]), ('pr', 'P', 'H', PROBES[0]), ('pr', 'P', 'R', PROBES[2]), ('pr', 'S', 'X', PROBES[4]), ('cm', 'html', DOCS[0]), ('cm', 'rst', DOCS[6]), ('cm', 'json', DOCS[4]),
           ('pr', 'S', 'json', DOCS[5]), ('pr', 'P', 'ast', DOCS[3]), ('pr', 'S', 'X', UNMATCHED), ('pr', 'P', 'H', UNMATCHED), ('pr', 'P', 'R', UNMATCHED), ('cm', 'html', UNMATCHED)]
OPTION = [{}, {'smart': True}, {'safe': True}, {'sourcepos': True}, {'softbreak': '<br />'}, {'softbreak': ''}, {'smart': True, 'safe': True, 'sourcepos': True, 'softbreak': ' '}, {'smart': False, 'safe': False}, {'other': 1}]


def shared_options(item):
    """one options object given to several instances"""
    o, d, order = item
    o = dict(o)
    before = dict(o)
    made = []
    for k in order:
        made.append(commonmark.Parser(o) if k == 'p' else commonmark.HtmlRenderer(o))
        if o != before:
            return 'constructing with %r changed it to %r' % (before, o), None
    want = None
    for p in [x for x in made if isinstance(x, commonmark.Parser)] or [commonmark.Parser(dict(before))]:
        for h in [x for x in made if isinstance(x, commonmark.HtmlRenderer)] or [commonmark.HtmlRenderer(dict(before))]:
            got = h.render(p.parse(d))
            if o != before:
                return 'use with %r changed it to %r' % (before, o), None
            if want is None:
                want = commonmark.HtmlRenderer(dict(before)).render(commonmark.Parser(dict(before)).parse(d))
            if got != want:
                return 'options %r shared by %s, %r\n  own %r\n  got %r' % (before, order, d, want, got), None
    if d in GOLD and commonmark.commonmark(d) != GOLD[d]:
        return 'default instance after options %r, %r\n  expected %r\n  got %r' % (before, d, GOLD[d], commonmark.commonmark(d)), None
    return None, (tuple(sorted(before)), want)


def operations(docs_, parsers='PS', renderers=('H', 'F', 'X', 'R', 'json', 'ast')):
    return [('pr', p, r, d) for d in docs_ for p in parsers for r in renderers]


def plan(tier):
    q = tier == 'quick'
    bad = [('bad', k) for k in BAD] + [('others',)]
    conv = [('cm', f, d) for d in DOCS[:8] for f in ('html', 'json', 'rst')]
    keep = [('keep', p, d) for p in 'PS' for d in DOCS]
    all_ops = operations(DOCS + ([] if q else MORE)) + conv + bad + keep
    few = [('pr', 'P', 'H', d) for d in DOCS[:12]] + [('pr', 'P', 'R', d) for d in (DOCS[2], DOCS[3], DOCS[4], DOCS[9], DOCS[12])] + [
        ('pr', 'S', 'X', d) for d in (DOCS[0], DOCS[6], DOCS[3])] + [('pr', 'P', 'F', DOCS[14]), ('pr', 'P', 'json', DOCS[9]), ('pr', 'S', 'ast', DOCS[0]), ('cm', 'html', DOCS[1]), ('keep', 'P', DOCS[0]), ('keep', 'P', DOCS[2]), ('keep', 'S', DOCS[11])] + bad
    least = few[:8] + few[12:16] + few[17:18] + [f for f in few if f[0] == 'keep'] + [('bad', 'parse None'), ('bad', 'render broken image'), ('bad', 'render broken quote'), ('others',)]
    probes = operations(PROBES)
    need = all_ops + few + probes + LONGEST + [('pr', p, how, d) for p in 'PS' for d in DOCS for how in ('H', 'R', 'json', 'ast')]
    GOLD.clear()
    GOLD.update(golden(need))
    for d in DOCS:
        GOLD[d] = GOLD[('pr', 'P', 'H', d)][1]
    dd = 0 if q else 1
    return [
        Exploration('histories of 2', History(all_ops, all_ops), judge_history),
        Exploration('histories of 3', History(few, few, few), judge_history),
        Exploration('histories of 4', History(*[least] * 4), judge_history) if q else Exploration('histories of 5', History(*[least[:14] + least[-4:]] * 5), judge_history),
        Exploration('repeated calls', Slots([o for o in all_ops if o[0] != 'keep'], [None], [600 if q else 5000], join=tuple), many_times, chunk=1, limit=200),
        Exploration('repeated calls, two in turn', Slots([o for o in few if o[0] != 'keep'], [o for o in few if o[0] != 'keep'], [40 if q else 200], join=tuple), many_times, chunk=4, limit=60),
        Exploration('repeated calls, longest', Slots(LONGEST, [None], [4000 if q else 40000], join=tuple), many_times, chunk=1, limit=200),
        Exploration('shared options', Slots(OPTION, DOCS, [''.join(t) for n in (1, 2, 3) for t in itertools.product('ph', repeat=n)], join=tuple), shared_options),
        Exploration('any lines before', docs.lines(2 + dd), any_document),
        Exploration('any inlines before', docs.inlines(2 + dd), any_document),
        Exploration('any characters before', Product(docs.SPECIAL, 2 + dd), any_document),
        Exploration('any nesting before', docs.nested(1 + dd), any_document),
        Exploration('any document before', docs.written(0, 1 if q else 2), any_document),
        Exploration('any repetition before', docs.pumps([3, 9, 40], wraps=[('', '')]), any_document),
    ]


def run(tier, result, deadline):
    p = plan(tier)
    engine.explore(p, result, deadline)
    result.extra['states'] = result.evaluations
    result.extra['transitions'] = sum(s['evaluated'] * (4 if 'of 4' in s['name'] else 5 if 'of 5' in s['name'] else 3 if 'of 3' in s['name'] else 2 if 'of 2' in s['name'] else 1) for s in result.spaces)
    result.extra['traces'] = result.evaluations
