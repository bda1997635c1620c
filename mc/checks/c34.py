"""Environment: the same outputs under every interpreter option, hash seed, locale, directory, import order and thread."""
from html.entities import html5
import json
import os
import subprocess
import sys

import digest
import docs
import engine
from lib import *
import runner

LEVEL = 'exploration'
RULE = ('every document is parsed and rendered (HTML without and with all options, reStructuredText, JSON, AST listing) in this process and in a child process under each '
        'configuration: hash seeds, optimisation levels, warning and bytes checks, development and isolated mode, locales and encodings, other directories, an empty environment, '
        'other orders of import, a second thread, tracing, aggressive garbage collection, and the code path of older Python versions; the digests must be equal; outcome = the digests of a group of documents')
ASSUMPTIONS = ['documents outside the enumerated spaces behave like those within', 'one Python version (3.12) is installed; the branch for Python 3.3 and older is taken by giving sys.version_info that value before the import',
               'the command line tool reads and writes in the encoding of the locale, by design; only the library is covered here']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') and not k.startswith('LC_')}
OLD = 'import sys, json, html, html.entities, unicodedata, urllib.parse, re, contextlib, io, hashlib\nold = sys.version_info\nsys.version_info = (3, 3, 0, "final", 0)\nimport commonmark\nsys.version_info = old\n'
THREAD = ('import threading\nrun0 = run\ndef run(job, put):\n    t = threading.Thread(target=run0, args=(job, put))\n    t.start()\n    t.join()\n')
EACH = ('import digest, threading\ndef run(job, put):\n    for d in job["docs"]:\n        t = threading.Thread(target=lambda: put([digest.of(d)]))\n        t.start()\n        t.join()\n')
FORK = ('import digest, os, json\nrun0 = run\ndef run(job, put):\n    r, w = os.pipe()\n    if not os.fork():\n        run0(job, lambda x: os.write(w, json.dumps(x).encode("ascii")))\n        os._exit(0)\n'
        '    os.close(w)\n    put(json.loads(open(r, "rb").read().decode("ascii")))\n    os.wait()\n')


def env(name, args=(), cwd=None, prelude='', clear=False, **kw):
    return (name, tuple(args), cwd, prelude, clear, tuple(sorted(kw.items())))


ENVS = [env('hash seed %s' % s, PYTHONHASHSEED=s) for s in ('0', '1', '2', '3', '77', '4294967295', 'random')] + [
    env('-O', ['-O']), env('-OO', ['-OO']), env('-W always', ['-W', 'always']), env('-bb', ['-bb']), env('-X dev', ['-X', 'dev']), env('-I', ['-I']), env('-S -E', ['-S', '-E']),
    env('-X int_max_str_digits', ['-X', 'int_max_str_digits=640']), env('C locale', ['-X', 'utf8=0'], LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='ascii'),
    env('POSIX, latin-1', ['-X', 'utf8=0'], LC_ALL='POSIX', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='latin-1:replace'), env('missing locale', LC_ALL='tr_TR.UTF-8', LANG='tr_TR.UTF-8', TZ='Asia/Kathmandu'),
    env('UTF-8 mode', ['-X', 'utf8=1'], LC_ALL='C.UTF-8'), env('from /', cwd='/'), env('empty environment', clear=True),
    env('inlines first', prelude='import commonmark.inlines, commonmark.blocks, commonmark.common'), env('dump first', prelude='import commonmark.dump, commonmark.normalize_reference, commonmark.entitytrans'),
    env('renderers first', prelude='import commonmark.render.rst, commonmark.render.html, commonmark.render.renderer, commonmark.node, commonmark.main, commonmark.cmark'),
    env('imported twice', prelude='import commonmark, sys\nfor k in [k for k in sys.modules if k.split(".")[0] == "commonmark"]:\n    del sys.modules[k]\nimport commonmark'),
   
    env('second thread', prelude='import digest\n' + THREAD), env('imported in a thread', prelude=THREAD), env('a thread for each document', prelude=EACH), env('after a fork', prelude=FORK),
    env('traced', prelude='import sys\nsys.settrace(lambda f, e, a: None)'), env('no gc', prelude='import gc\ngc.disable()'), env('much gc', prelude='import gc\ngc.set_threshold(50)'),
    env('locale set', prelude='import locale\nlocale.setlocale(locale.LC_ALL, "C")', LC_ALL='C.UTF-8'), env('older Python', prelude=OLD), env('recursion limit', prelude='import sys\nsys.setrecursionlimit(5000)'),
    env('arguments', prelude='import sys\nsys.argv[1:] = ["-a", "x", "--smart"]', COMMONMARK='1', DEBUG='1', SOURCE_DATE_EPOCH='0', NO_COLOR='1', CI='true', HOME='/nonexistent', TMPDIR='/nonexistent')]


def one(listed):
    name, args, cwd, prelude, clear, extra = listed[1]
    group = listed[0]
    want = base(tuple(group))
    e = {} if clear else dict(BASE)
    e.update(extra)
    job = json.dumps({'repo': os.path.abspath(engine.REPO), 'here': HERE, 'prelude': prelude, 'docs': list(group)})
    p = subprocess.run([sys.executable] + list(args) + [os.path.join(HERE, 'envrun.py')], input=job.encode('ascii'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, timeout=300)
    if p.returncode:
        return 'configuration %r: exit %d, %s' % (name, p.returncode, p.stderr.decode('utf-8', 'replace')[-800:]), None
    got = json.loads(p.stdout.decode('ascii'))
    assert os.path.dirname(os.path.dirname(got['where'])) == os.path.abspath(engine.REPO), got['where']
    if got['digests'] != want:
        bad = [d for d, a, b in zip(group, want, got['digests']) if a != b]
        return 'configuration %r: the outputs differ for %d of %d documents, first %r' % (name, len(bad), len(group), bad[0]), None
    return None, tuple(want)


last = (None, None)


def base(group):
    global last
    if last[0] != group:
        last = (group, [digest.of(d) for d in group])
    return last[1]


def groups(space, n):
    items = space if isinstance(space, list) else [space.item(i) for i in range(space.size)]
    return [items[i:i + n] for i in range(0, len(items), n)]


NAMES = sorted(html5)


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    refs = ['[&%s &%s](<&%s> "&%s") &%s' % (n, n, n, n, n.lower()) for n in NAMES] + ['&#%d; &#x%x; a' % (n, n) for n in list(range(0, 0x120)) + list(range(0x2000, 0x2080)) + [0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x10ffff, 0x110000, 9999999]]
    fam = [
        ('lines', docs.lines(2 + d), 160), ('few lines', docs.lines(3 + d, docs.FEW_LINES), 250), ('inlines', docs.inlines(2 + d), 170), ('few inlines', docs.inlines(3 + d, docs.FEW_INLINES), 400),
        ('characters', Product(docs.CHARS, 2, wraps=[('', ''), ('a', 'a')]), 400), ('nested blocks', docs.nested(1 + d), 200),
        ('odd text', Slots(docs.PLACES, docs.ODD, join=lambda t: t[0].replace('%s', t[1])), 400), ('character references', refs, 300),
        ('many definitions', Slots(['[%s]: /%d "t"'], [1, 3, 40], ['', 'x', '\u00e9', '\u0130'], join=lambda t: '\n'.join('[%s]: /%d' % (t[2] + 'l%d' % i, i) for i in range(t[1])) + '\n\n' + ' '.join('[%s]' % (t[2] + 'L%d' % i) for i in range(t[1]))), 3),
        ('written documents', docs.written(0, 1) if q else docs.written(1, 2), 110), ('repeated fragments', docs.pumps([3, 12]), 100),
    ]
    return [Exploration(name, Slots(groups(space, n), ENVS, join=tuple, about='%s, %d configurations' % (getattr(space, 'about', 'listed'), len(ENVS))), one, chunk=len(ENVS)) for name, space, n in fam]


run = runner.make(plan)
