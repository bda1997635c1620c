"""Inline links and images: exhaustive inline strings, code against the reference model."""
import docs
from lib import *
import runner

LEVEL = 'model_checking'
RULE = ('every token sequence up to the stated length is parsed by the code and by the reference '
        'model of the link grammar; the HTML must be equal; outcome = the HTML')
ASSUMPTIONS = ['inline strings outside the token alphabets behave like those within']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('brackets and parentheses', Product(
            ['[', ']', '(', ')', '!', 'a', '*'], 6 + d, wraps=[('', ''), ('', '\n\n[a]: /r')]), conform),
        Exploration('link tail', Product(
            ['(', ')', '<', '>', '"', 'u', ' ', '\\', "'", '\n'], 4 + d, wraps=[('[a](', ')'), ('[a]', ''), ('![a](u', '')]), conform),
        Exploration('destination in pointed brackets', Product(
            ['<', '>', 'u', ' ', '\\', '\n', '(', ')', '&amp;', '\t'], 4 + d, wraps=[('[a](<', '>)'), ('[a](', ')')]), conform),
        Exploration('destination', Product(
            ['(', ')', 'u', '\\', '*', '&quot;', '%20', '\u00e9', '<', '['], 4 + d, wraps=[('[a](', ')'), ('![a](u', ' "t")')]), conform),
        Exploration('destination characters', Slots(
            ['[a](%s)', '[a](b%sc)', '[a](<%s>)', '![a](b%s "t")', '[a](\\%s)', '[a](%s%s)', '[a](&#%d;)', '[a](b%s'],
            [chr(i) for i in list(range(1, 0x180)) + [0x2000, 0x2028, 0x3000, 0xfeff, 0xfffd, 0xffff, 0x1f600, 0x10ffff, 0xd800, 0xdfff]],
            join=lambda t: t[0].replace('%s', t[1]).replace('%d', str(ord(t[1])))), conform),
        Exploration('title', Product(
            ['"', "'", '(', ')', '\\', 't', '\n', ' ', '&quot;'], 4 + d, wraps=[('[a](u ', ')'), ('[a](u "', '")'), ("[a](u '", "')"), ('[a](u (', '))')]), conform),
        Exploration('around destination and title', Slots(
            ['', ' ', '\t', '\n', ' \n ', '\n\n', '\xa0', '  ', '\x0b', '\x0c'], ['u', '<u v>', '', '<>', '<u'],
            ['', ' ', '\t', '\n', '\n \t', '\n\n', '\xa0', '  \n', '\x0c'], ['"t"', "'t'", '(t)', '', '"t', '"t"v', '(t(v))', '"t" "v"', '"t\nv"', '"t\n\nv"'],
            ['', ' ', '\n', '\t\n', '\n\n', '\xa0', ' x'], [')', '', '))', ') b', ')('],
            join=lambda t: '[a](' + ''.join(t)), conform),
        Exploration('text of a link', Product(
            ['[', ']', '`', '*', '<b>', '\\', 'a', '](u)', '<bb:', '!['], 4 + d, wraps=[('[', '](v)'), ('![', '](v)'), ('[x', '')]), conform),
        Exploration('links in links', Product(
            ['[', '![', 'a', '](u)', '](v "t")', '[r]', '][r]', '*'], 5 + d, wraps=[('', '\n\n[r]: /r')]), conform),
        Exploration('autolinks and code before links', Product(
            ['[a', '](u)', '`', '<bb:c', '>', '<d e="', '"', '](', ')'], 4 + d), conform),
        Exploration('incomplete then reference', Slots(
            ['', '!', '*', '['], ['[r]', '[r][]', '[a][r]', '[r][a]', '[*r*]', '[r\n]'], ['(', '(u', '(u "t', '(<u', '(u v)', '(\n\n)', '( )', '(u "t")', '((', '()', '[]', '[', '[r](u)', '(u\\)', ' (u)', '\n(u)'],
            ['', ')', '*', ']', ']()', ' b'], ['\n\n[r]: /r', '\n\n[r]: /r\n[a]: /a'] ), conform),
        Exploration('image descriptions', Product(
            ['*a*', '`b`', '[c](u)', '![d](v)', '<i>', '&amp;', '\\*', '\n', '  \n', '<ee:f>', '"', '[r]', '**'], 3 + d,
            wraps=[('![', '](w)'), ('![', '](w "t")\n\n[r]: /r'), ('[![', '](w)](x)')]), conform),
        Exploration('nesting of parentheses', Slots(
            list(range(0, 70)), list(range(0, 70)), ['', 'u'], [' "t"', ''],
            join=lambda t: '[a](' + '(' * t[0] + t[2] + ')' * t[1] + t[3] + ')'), conform),
        Exploration('repeated', pumped(
            ['[', ']', '![', '[a](', '(', ')', '[a]', '](u)', '[a](u)', '<', '\\', '[a](u) ', '![a](', '\\[', '\\]', '"', '[]', '[a](<', '[a](u "', '[*', '![', '!'],
            list(range(2, 22)) + [31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200],
            [('', ''), ('[', '](u)'), ('a', 'a'), ('[a](u', ')'), ('', '](u)'), ('[x](y)', '[z](w)'), ('', 'a](u)')]), conform),
        Exploration('long destinations', Slots(
            [1, 2, 100, 255, 256, 257, 998, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4096], ['u', '\\(', '()', '&amp;', '\u00e9', '*', '%'], ['[a](%s)', '[a](<%s>)', '[a](u "%s")', "[a](u '%s')", '[%s](u)', '![%s](u)', '[a](u (%s))'],
            join=lambda t: t[2].replace('%s', t[1] * t[0])), conform),
        Exploration('inline texts in every place', docs.placed(), conform),
        Exploration('inlines of several blocks', docs.several(2), conform),
        Exploration('inlines of three blocks', docs.several(3, docs.FEW_PARTS if q else docs.PARTS, docs.BREAKS[:1] if q else docs.BREAKS[:2]), conform),
        Exploration('lengths', docs.lengths(of=['](', '[']), conform, chunk=40),
        Exploration('inlines mentioned in the code', docs.mentioned_inlines(), conform),
        Exploration('texts mentioned in the code', docs.mentioned_places(), conform),
    ]


run = runner.make(plan)
