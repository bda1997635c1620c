"""Emphasis: every arrangement of delimiter runs and contexts, code against the reference model."""
import docs
from lib import *
import runner

LEVEL = 'model_checking'
RULE = ('every token sequence up to the stated length is parsed by the code and by the '
        'reference model (emphasis by exhaustive backward search, no search bounds); the HTML '
        'must be equal; outcome = the HTML')
ASSUMPTIONS = ['inline strings outside the token alphabets behave like those within']

RUNS = ['*', '_', '**', '__']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('runs and text', Product(['a', ' ', '*', '_'], 8 + d), conform),
        Exploration('runs of both kinds', Product(
            ['*', '**', '***', '_', '__', '___', 'a', ' '], 5 + d), conform),
        Exploration('flanking', Product(
            ['*', '**', '_', '__', 'a', ' ', '.', '\n', '\xa0', '\u2014'], 4 + d,
            wraps=[('', ''), ('a', 'a'), ('.', 'b')]), conform),
        Exploration('runs between words', Product(
            ['*a', '**a', '***a', 'a*', 'a**', 'a***', '_a', 'a_', '__a', 'a__', ' '],
            4 + d), conform),
        Exploration('rule of three', Slots(
            ['*' * i for i in range(1, 8)] + ['_' * i for i in range(1, 5)], ['a', 'a ', ' a', '"a"'],
            ['*' * i for i in range(1, 8)] + ['_' * i for i in range(1, 5)], ['b', ' b', 'b ', '(b)'],
            ['*' * i for i in range(1, 8)] + ['_' * i for i in range(1, 5)], ['', 'c', ' ', '*']),
            conform),
        Exploration('brackets', Product(
            ['*', '**', '_', '[', ']', '](u)', '![', 'a'], 5 + d), conform),
        Exploration('precedence', Product(
            ['*', '**', '_', '`', '<a>', '<bb:c>', '\\', 'a', '&amp;', '<a b="'], 4 + d), conform),
        Exploration('across lines', Product(
            ['*', '**', '_', 'a', ' ', '\n', '> ', '- '], 5 + d), conform),
        Exploration('repeated', pumped(
            ['*', '_', 'a*', '*a', '*a*', 'a**b', '*a ', '_a', '*a_', '**a*', '*a**b', '*_', 'a*b_c',
             '***a', 'a***', '*a* ', '[*', '*]', '*[', 'a_ '],
            list(range(2, 24)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200],
            [('', ''), ('a', 'a'), ('*', '*'), ('**x', '**'), ('_', 'a_')]), conform),
        Exploration('long runs', Slots(
            ['*' * i for i in range(1, 25)], ['a'], ['*' * i for i in range(1, 25)], ['', 'b', ' *c*', '**']),
            conform),
        Exploration('inline texts in every place', docs.placed(), conform),
        Exploration('inlines of several blocks', docs.several(2), conform),
        Exploration('inlines of three blocks', docs.several(3, docs.FEW_PARTS if q else docs.PARTS, docs.BREAKS[:1] if q else docs.BREAKS[:2]), conform),
        Exploration('flanking at references and escapes', Product(['*', '**', '_', 'a', ' ', '&nbsp;', '&amp;', '&#42;', '\\*', '&#32;', '\\_', '&Tab;', '&eacute;', '&#x2014;', '`b`', '\\'], 4 + d, wraps=[('', '')] if q else [('', ''), ('x', 'y')]), conform),
        Exploration('beside other inlines', Slots(['', 'a', ' ', '.'], ['*', '_', '**', '__'], docs.PARTS, ['*', '_', '**', '__'], ['', 'a', ' ', '.'], join=lambda t: ''.join(t) + docs.REFS), conform),
        Exploration('runs after other inlines', Slots(docs.PARTS, ['*', '_', '**'], ['a', '.', ' '], ['*', '_', '**'], docs.PARTS, join=lambda t: ''.join(t) + docs.REFS), conform),
        Exploration('lengths', docs.lengths(of=['*', '_']), conform, chunk=40),
    ]


run = runner.make(plan)
