"""cmark: the whole matrix of inputs, outputs and formats in real processes, and many documents in forked ones."""
import gc
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
import time

import commonmark
import docs
import engine
from lib import *

LEVEL = 'exploration'
RULE = ('each case runs the entry point of cmark in a process of its own with real files or pipes and compares standard output, the output '
        'file and the exit status with what the library gives for the text; every combination of input, output and format is run for '
        'every core document, and every error case with every combination; outcome = status, output')
ASSUMPTIONS = ['input is UTF-8 in a UTF-8 locale', '-a prints the listing on standard output whatever -o says, as its help text does',
               '-a and -aj together are left open']

BIG = ''.join('%d. *a%d* [b](c "d")\n\n   > e `f`\n\n' % (i % 999, i) for i in range(400)) + '[r]: /u\n'
CORE = ['', 'a', 'a\n', '# a\n\nb *c*\n', '- a\n- b\n\n  c\n', '> a\r\n> b\r\n', 'a\rb\r\rc', '```x\n<y>\n```', '[r]\n\n[r]: /u "t"', 'h\xe9 \u6f22 \U0001f600 &copy;\n', 'a\0b', '<b>&\n\n<div>\n', '\n\n', '\ufeff# a\n', '"q" -- \'r\'...', '    a\tb\n\n\n', 'a  \nb\\\nc',
        '\x0c\x0b\x1c\x85\u2028a\nb', BIG, '%s {} $x `%d`', 'a' * 70000, '![a](b)', '-a', '-o x', '1\n' * 3000]
ENV = dict(os.environ, LC_ALL='C.UTF-8', PYTHONPATH=engine.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
for k in ('PYTHONPYCACHEPREFIX', 'PYTHONUTF8'):
    ENV.pop(k, None)
PROG = [sys.executable, '-c', 'import sys; from commonmark.cmark import main; sys.exit(main())']
INPUTS = ['file', 'stdin', 'dash']
OUTPUTS = ['stdout', 'file', 'bare -o', 'file first', 'old file', '-o -']
FORMATS = [(), ('-a',), ('-aj',)]


def library(doc, fmt):
    text = doc.replace('\r\n', '\n').replace('\r', '\n')
    ast = commonmark.Parser().parse(text)
    if fmt == ('-a',):
        return ast_listing(ast)
    if fmt == ('-aj',):
        return commonmark.dumpJSON(ast)
    return commonmark.HtmlRenderer().render(ast)


def command(d, inp, outp, fmt):
    args = list(fmt)
    src = os.path.join(d, 'in.md')
    dst = os.path.join(d, 'out')
    pos = {'file': [src], 'stdin': [], 'dash': ['-']}[inp]
    if outp in ('file', 'old file'):
        args = pos + args + ['-o', dst]
    elif outp == 'file first':
        args = ['-o', dst] + args + pos
    elif outp == 'bare -o':
        args = pos + args + ['-o']
    elif outp == '-o -':
        args = args + ['-o', '-'] + pos
    else:
        args = pos + args
    return args, src, dst


def judge_output(what, doc, inp, outp, fmt, status, stdout, written):
    want = library(doc, fmt).encode('utf-8')
    if status != 0:
        return '%s: exit status %r' % (what, status)
    to_file = outp in ('file', 'file first', 'old file') and fmt != ('-a',)
    if to_file:
        if written != want:
            return '%s: the output file has %r, the library gives %r' % (what, written and written[:300], want[:300])
        if stdout:
            return '%s: %r on standard output as well' % (what, stdout[:300])
    elif stdout != want:
        return '%s: standard output %r, the library gives %r' % (what, stdout[:300], want[:300])


def read(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except OSError:
        return None


def in_process(item):
    """a real process"""
    doc, inp, outp, fmt = item
    d = tempfile.mkdtemp(prefix='mc-c21-')
    try:
        args, src, dst = command(d, inp, outp, fmt)
        data = doc.encode('utf-8')
        with open(src, 'wb') as f:
            f.write(data)
        if outp == 'old file':
            with open(dst, 'wb') as f:
                f.write(b'old content\n' * 20000)
        p = subprocess.run(PROG + args, input=b'' if inp == 'file' else data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=d, timeout=60)
        what = 'cmark %s <- %r' % (' '.join(args).replace(d + '/', ''), doc[:200])
        m = judge_output(what, doc, inp, outp, fmt, p.returncode, p.stdout, read(dst))
        if m is None and p.stderr:
            m = '%s: %r on standard error' % (what, p.stderr[-400:])
        if m is None and read(src) != data:
            m = '%s: the input file was changed' % what
        return m, (p.returncode, p.stdout[:50], outp, fmt)
    finally:
        shutil.rmtree(d)


def errors(item):
    kind, inp, outp, fmt = item
    d = tempfile.mkdtemp(prefix='mc-c21-')
    try:
        args, src, dst = command(d, inp, outp, fmt)
        with open(src, 'wb') as f:
            f.write(b'# a\n')
        if kind == 'missing input':
            if inp != 'file':
                return None, None
            os.remove(src)
        elif kind == 'directory as input':
            if inp != 'file':
                return None, None
            os.remove(src)
            os.mkdir(src)
        elif kind == 'unwritable output':
            if 'file' not in outp or fmt == ('-a',):
                return None, None
            args = [a if a != dst else os.path.join(d, 'no', 'such', 'dir') for a in args]
        elif kind == 'two inputs':
            if inp != 'file':
                return None, None
            args = [src] + args if outp in ('stdout', 'file', 'bare -o', 'old file') else args + [src]
        else:
            args = [kind] + args if inp != 'stdin' else args + [kind]
        p = subprocess.run(PROG + args, input=b'# a\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=d, timeout=60)
        what = 'cmark %s (%s)' % (' '.join(args).replace(d + '/', ''), kind)
        if p.returncode == 0:
            return '%s: exit status 0' % what, None
        if p.stdout:
            return '%s: %r on standard output' % (what, p.stdout[:300]), None
        if not p.stderr:
            return '%s: no message' % what, None
        return None, (p.returncode, kind)
    finally:
        shutil.rmtree(d)


def help_text(item):
    p = subprocess.run(PROG + [item], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=60)
    if p.returncode != 0 or b'usage' not in p.stdout.lower():
        return 'cmark %s: status %d, output %r' % (item, p.returncode, p.stdout[:100]), None
    return None, item


def forked(item):
    """the entry point in a forked child, with its descriptors on real files"""
    doc, inp, outp, fmt = item
    try:
        data = doc.encode('utf-8')
    except UnicodeEncodeError:
        return None, None
    d = tempfile.mkdtemp(prefix='mc-c21-')
    try:
        args, src, dst = command(d, inp, outp, fmt)
        with open(src, 'wb') as f:
            f.write(data)
        std = os.path.join(d, 'stdout')
        pid = os.fork()
        if not pid:
            status = 99
            try:
                fd = os.open(src, os.O_RDONLY)
                os.dup2(fd, 0)
                fd = os.open(std, os.O_WRONLY | os.O_CREAT, 0o600)
                os.dup2(fd, 1)
                sys.stdin = open(0, 'r', encoding='utf-8', closefd=False)
                sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
                sys.argv = ['cmark'] + args
                from commonmark.cmark import main
                try:
                    status = main() or 0
                except SystemExit as e:
                    status = e.code or 0
                gc.collect()
                sys.stdout.flush()
            finally:
                os._exit(status if isinstance(status, int) else 98)
        _, st = os.waitpid(pid, 0)
        status = os.waitstatus_to_exitcode(st)
        out = read(std)
        what = 'cmark %s <- %r' % (' '.join(args).replace(d + '/', ''), doc[:200])
        return judge_output(what, doc, inp, outp, fmt, status, out, read(dst)), out
    finally:
        shutil.rmtree(d)


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    combos = list(itertools.product(INPUTS, OUTPUTS, FORMATS))
    ways = [('file', 'stdout', ()), ('stdin', 'file', ()), ('stdin', 'stdout', ('-aj',)), ('file', 'stdout', ('-a',))] + ([] if q else [('file', 'file', ('-aj',)), ('stdin', 'bare -o', ()), ('dash', '-o -', ('-aj',))])
    tup = lambda t: (t[0],) + t[1]
    return [
        Exploration('matrix of real processes', Slots(CORE[:9] if q else CORE, combos, join=tup), in_process, chunk=8),
        Exploration('core documents', Slots(CORE, [('file', 'stdout', ()), ('stdin', 'file', ()), ('stdin', 'stdout', ('-aj',)), ('file', 'file', ('-aj',)), ('stdin', 'stdout', ('-a',))], join=tup), in_process, chunk=4),
        Exploration('errors', Slots(['missing input', 'directory as input', 'unwritable output', 'two inputs', '-x', '--nosuch', '-z=1', '--html'], combos, join=tup), errors, chunk=8),
        Exploration('help', Listed(['-h', '--help']), help_text),
        Exploration('lines, forked', Slots([docs.lines(2 + d).item(i) for i in range(docs.lines(2 + d).size)], ways, join=tup), forked),
        Exploration('inlines, forked', Slots([docs.inlines(2).item(i) for i in range(docs.inlines(2).size)], ways, join=tup), forked),
        Exploration('characters, forked', Slots(docs.CHARS + [a + b for a in docs.CHARS for b in ('\n', '\n\n', '\na\n', '\r', '\r\n', 'a')] + [docs.EVERYWHERE.replace('{c}', chr(i)) for i in list(range(0x400)) + [0x2028, 0xfeff, 0xffff, 0x1f600]], ways, join=tup), forked),
    ]


def run(tier, result, deadline):
    engine.explore(plan(tier), result, deadline)
