"""Documents as lines, their top-level blocks, and definitions written in front of them (checks C38, C39)."""
import functools
import json
import re

import commonmark
from lib import *

LINE = re.compile(r'\r\n|\n|\r')
LABEL = re.compile(r'\[((?:[^\[\]\\]|\\.)+)\]:', re.S)


def lines_of(doc):
    lines = LINE.split(doc)
    return lines[:-1] if lines[-1] == '' else lines


@functools.lru_cache(4096)
def front(doc):
    """definitions of everything that might be a label there: what comes later defines nothing new"""
    out = ''
    for m in LABEL.findall(doc):
        d = '[%s]: /def "%d"\n' % (m, len(out))
        if parse(d + '\n').first_child is None:
            out += d
    return out + '\n'


def top(ast):
    n = ast.first_child
    while n is not None:
        yield n
        n = n.nxt


def positions(n, shift, ends):
    return [(k.t, tuple((l - shift, c) for l, c in k.sourcepos[:1 if k.t in ends else 2])) for k, e in n.walker() if e and k.sourcepos]


def picture(n, shift, ends=()):
    """everything about a block, its lines counted from another one; but where blocks of some types end"""
    return json.loads(commonmark.dumpJSON(n)), positions(n, shift, ends), render(n)


def short(pic):
    return pic[2], pic[1]
