"""Smart punctuation: exhaustive strings with the option on (against the model) and off (against itself)."""
import docs
from lib import *
import runner

LEVEL = 'model_checking'
RULE = ('with smart=True the HTML must equal that of the reference model; and undoing the substitutions '
        'in the smart output must give the output without the option; outcome = the HTML')
ASSUMPTIONS = ['strings outside the token alphabets behave like those within',
               'quotes follow the delimiter algorithm of commonmark.js, from which this option comes: the '
               'specification says nothing about it']

Q = ['"', "'", '--', '---', '...', 'a']


def undo(doc):
    """the option changes only quotes, dashes and dots"""
    on, off = html(doc, smart=True), html(doc)
    back = (on.replace('\u2026', '...').replace('\u2018', "'").replace('\u2019', "'")
            .replace('\u201c', '&quot;').replace('\u201d', '&quot;'))
    # dashes: compare with every run of hyphens in both reduced to one mark
    import re
    squash = lambda s: re.sub('[-\u2013\u2014]+', '-', s)
    # an em dash stands for three hyphens, an en dash for two
    hyph = re.sub('\u2014', '---', re.sub('\u2013', '--', back))
    if hyph != off:
        return differ(doc, off, on, 'plain', 'smart'), None
    return None, on if on != off else None


CTX = ['%s', '*%s*', '**a%s**b', '# %s', '> %s', '- %s', '[%s](u)', '![%s](u)', '`%s`', '    %s', '```\n%s\n```', '<a b="%s">', "<a b='%s'>", '<!-- %s -->', '<aa:%s>', '[a](%s)', '[a](<u%s>)', '[a](u "%s")',
       "[a](u '%s')", '[a](u (%s))', '[%s]\n\n[%s]: u', '[a]\n\n[a]: u%s', "[a]\n\n[a]: u (%s)", '<div>\n%s\n</div>', 'a%sb', '(%s)', '<b>%s</b>', 'a\n%s\nb', '%s\n===', '[%s', '%s](u)', '*%s', '```%s\na', '&amp;%s;', 'a `%s', '&quot;%s&quot;']

# words and numbers of which typographers are fond
WORDS = '''tis Tis twas em til cause bout round n s t re ve ll d m 90s 1990s 80 2nd 5 6 1/2 0.5 a A I O o' rock nor all cept fraid neath gainst tween cos coz Cause un cello flu phone til' Twere twere twould twill tain't
d'un l'eau qu'il J' c'est été à naïve ß Мир 中 א ا « „ ’ – … % $5 €5 ° # @a /a a/b a-b a_b (c) [d] {e} x=1 1-2 -1 +1 i.e. e.g. etc. U.S. ... .. . , ; : ! ? !? a. a, a; a: a! a?'''.split()


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('quotes', Product(['"', "'", 'a', ' ', '.', '('], 6 + d), conform_smart),
        Exploration('quotes and emphasis', Product(['"', "'", '*', '_', '**', 'a', ' ', '-'], 5 + d), conform_smart),
        Exploration('quotes and constructs', Product(['"', "'", '[', '](u)', '`', '<b>', '\\', 'a', ' ', '&quot;', '--', '...', '\n'], 4 + d), conform_smart),
        Exploration('quotes in context', Product(['"', "'", 'a', ' ', '\n', '1', '\u2014', '\xa0', '\u00e9', '-', ',', '\u201c'], 4 + d), conform_smart),
        Exploration('dashes and dots', Product(['-', '--', '.', 'a', ' ', '\\', '&', '*', '\n'], 5 + d, wraps=[('a', '')]), conform_smart),
        Exploration('hyphen runs', Slots(['a', 'a ', '"', '*b* ', '\\', '&#45;', '<b>', '`c`', '_'], range(1, 200), ['', 'b', ' b', '\\', '.', '\n-', '>', '\u2014']
                                         , join=lambda t: t[0] + '-' * t[1] + t[2]), conform_smart),
        Exploration('dot runs', Slots(['a', 'a ', '"', '', '*', '\\', '1', '<b>'], range(1, 60), ['', 'b', ' b', '\\', '-', '\n.', '"', '*'], join=lambda t: t[0] + '.' * t[1] + t[2]), conform_smart),
        Exploration('where it applies', Slots(CTX, [''.join(x) for n in range(1, 4) for x in __import__('itertools').product(Q, repeat=n)], join=lambda t: t[0].replace('%s', t[1])), conform_smart),
        Exploration('nothing else changes', Slots(CTX, [''.join(x) for n in range(1, 4) for x in __import__('itertools').product(Q + ['*', ' '], repeat=n)], join=lambda t: t[0].replace('%s', t[1])), undo),
        Exploration('nothing else changes, blocks', Product(['a', '"b', "c'", '--', '---', '...', '', '- d', '    "e"', '> \'f', '```', '<p a="b">', '# "', '[r]: /u "t"', "1. 'x'"], 4, sep='\n', lo=1), undo),
        Exploration('escapes', Slots(['', 'a', '"', '*'], ['\\', '\\\\', '&#39;', '&quot;', '&#45;', '&#46;', '&hyphen;'], ['"', "'", '--', '-', '...', '..', '.', '---', '\\-', '\\.', "\\'", '\\"'], ['', 'a', '"', "'", '-', '.', '*'],
                                     ['', 'b', ' "c" ', "'d'"]), conform_smart),
        Exploration('repeated', pumped(['"', "'", '"a', "'a", '"a"', "'a' ", '"\'', '"a\'', "a'", '"*', '("', "b'c", '-- ', '... ', '["', '"a" ', '"_'], list(range(2, 24)) + [31, 32, 33, 64, 100, 128],
                                       [('', ''), ('a', 'a'), ('*', '*'), ('"', '"'), ("'", "x'"), ('[', '](u)')]), conform_smart),
        Exploration('in every place', Slots(docs.PLACES + ['<%s@b.c>', '<a%s@b>', '<aa:%s>', '<b %s>', '</b%s>', '<!-- %s -->', 'x <!A %s>', 'x <?%s?>', 'x <![CDATA[%s]]>', '&%s;', '[a](<b%s>)', '[a]: %s', '[a]: /u (%s)\n\n[a] ![a]', '[%s]: /u\n\n[%s] [x][%s]'],
                                            [a + x + b for x in ('--', '---', '----', '...', '"', "'", '"a"', "'a'", '..', '-') for a in ('', 'a', ' ', 'a ') for b in ('', 'b', ' b')], join=lambda t: t[0].replace('%s', t[1])), conform_smart),
        Exploration('inline texts in every place', docs.placed(), conform_smart),
        Exploration('inlines of several blocks', docs.several(2), conform_smart),
        Exploration('inlines of three blocks', docs.several(3, docs.FEW_PARTS if q else docs.PARTS, docs.BREAKS[:1] if q else docs.BREAKS[:2]), conform_smart),
        Exploration('words beside quotes', Slots(['', 'a ', 'a', '(', '*'], ["'", '"', "''", '"\'', "\\'", '...', '--', '---'], WORDS, ['', ' b', "'", '"', " b'", '...', '--', '.']), conform_smart),
        Exploration('words around', Slots(WORDS, ["'", '"', '...', '--', ' -- ', " '", "' ", '-'], WORDS[::5] if q else WORDS), conform_smart),
        Exploration('lengths', docs.lengths(of=['"', "'", '--', '..']), conform_smart, chunk=40),
        Exploration('inlines mentioned in the code', docs.mentioned_inlines(('', 'a', '"', '\'b ', ' -'), ('', 'b', '"', ' \'', '.')), conform_smart),
    ]


run = runner.make(plan)
