"""Code spans, raw HTML, autolinks, line breaks: exhaustive inline strings, code against the reference model."""
import docs
from lib import *
import runner

LEVEL = 'model_checking'
RULE = ('every token sequence up to the stated length is parsed by the code and by the reference '
        'model of these inline constructs; the HTML must be equal; outcome = the HTML')
ASSUMPTIONS = ['inline strings outside the token alphabets behave like those within']

LABEL = ['a', 'A0', 'a-b', 'a-', '-a', 'a_b', '', 'a' * 61, 'a' * 62, 'a' * 63, 'a' * 64, '1', 'a' + '-' * 61 + 'b', 'a' + '-' * 62 + 'b', '\u00e9']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('backticks', Product(['`', '``', '```', 'a', ' ', '\n', '\\', '*'], 5 + d, wraps=[('a ', ''), ('', ' b')]), conform),
        Exploration('backtick run lengths', Slots(
            list(range(1, 9)), ['a', ' a ', '  ', ' `` ', 'a`b', '\n', ' a', 'a\nb', '   a ', '\u00a0', ' \u00a0 ', ' \t ', '\t', ' \t', '&amp;', '<b>', '\\', ' \n '], list(range(0, 9)), ['', 'b', ' *c*'], list(range(0, 9)),
            join=lambda t: 'x' + '`' * t[0] + t[1] + '`' * t[2] + t[3] + '`' * t[4]), conform),
        Exploration('blanks in code spans', Product([' ', '\t', '\xa0', '\u2003', '\n', '\x0b', '\x0c', 'a', '\x85', '&nbsp;', '\\'], 3 + d, lo=1, wraps=[('`', '`'), ('b``', '``'), ('*`', '`*'), ('` ', ' `')]), conform),
        Exploration('precedence', Product(
            ['`', '*', '[', '](u)', '<a ', '>', '<bb:', '"', 'a', '\\', '&lt;'], 4 + d), conform),
        Exploration('characters of a tag', Product(
            ['<', '>', '/', 'a', ' ', '=', '"', "'", '\n', '-', '!'], 5 + d, wraps=[('x<', '>')] if q else [('x<', '>'), ('', '')]), conform),
        Exploration('tag parts', Slots(
            ['<', '</', '< ', '\\<'], ['a', 'A1', 'a-', 'a:b', '1a', '', 'a_b', 'a.b'], ['', ' ', '\n', '\t', ' \n ', '\xa0', '\x0c'],
            ['', 'b', 'b=c', 'b = c', 'b="c"', "b='c'", 'b="c', 'b=c"', 'b=', '=c', 'b="c"d', 'b="c" d=e', ':b', '_b', '1b', 'b.c-d:e_f', 'b="\nc"', 'b=c`', "b=c'", 'b=<', 'b="<>"', "b='\"'", 'b\n=\nc', '*b*', 'b="*"', 'b=*c*',
             'b="`"', 'b="&amp;"', 'b=c/', 'b="c" b="c"', 'b b', '\u00e9', 'b=\u00e9'],
            ['', ' ', '/', ' /', '/ ', '\n', ' \n/'], ['>', '', '> *x*'], join=lambda t: 'p ' + ''.join(t)), conform),
        Exploration('comments', Product(['-', '>', '<!--', '-->', 'a', '!', '<', ' ', '\n'], 4 + d, wraps=[('x<!--', ''), ('x<!', '-->'), ('x <!--a', '-->')]), conform),
        Exploration('instructions, declarations, CDATA', Product(
            ['<?', '?>', '?', '>', '<!A', '<![CDATA[', ']]>', ']', ' ', 'a', '\n', '*'], 3 + d, lo=1, wraps=[('x', ''), ('x<?', '?>'), ('x<![CDATA[', ']]>'), ('x<!', '>'), ('x<!ELEM ', '>'), ('x<!', '*a* b>')]), conform),
        Exploration('autolinks', Product(
            ['<', '>', 'a', ':', '@', '.', ' ', '-', 'bc', '/'], 5 + d, wraps=[('<', '>')] if q else [('<', '>'), ('', '')]), conform),
        Exploration('URI autolinks', Slots(
            ['a', 'ab', 'http', 'HTTP', 'a+b', 'a.b', 'a-b', 'a1', '1a', '+ab', 'a_b', 'a' * 31, 'a' * 32, 'a' * 33, 'mailto', 'javascript', '\u00e9a', 'aa\u00e9', ''], [':', '', ' :', '::', ':/'],
            ['', 'x', '//x.y/z', 'x y', 'x<y', 'x\ny', 'x\ty', '\\*', '*x*', '&amp;', '%20', '"', '[', ']', '\u00e9', '`', '\x7f', '\x80', '\xa0', '\x01', '\\>', 'x@y.z', '{}|^', "'", '\U0001f600'], ['>', '', ' >', '>>'],
            join=lambda t: 'a <' + ''.join(t) + ' b'), conform),
        Exploration('e-mail autolinks', Union(Slots(
            ['a', "a.!#$%&'*+/=?^_`{|}~-", 'A0', '.', '..', '', 'a\\+', 'a b', '"a"', 'a(', 'a,', '\u00e9', 'a:', 'a@', '-'], ['@'], LABEL, ['', '.'], LABEL, ['>', '.>', '..>', '-x>', ' >', '']
            , join=lambda t: '<' + ''.join(t)), Slots(LABEL, LABEL, LABEL, join=lambda t: '<x@' + '.'.join(t) + '>')), conform),
        Exploration('line breaks', Slots(
            ['a', '*a*', '`a', '', '# a', '<a', '[x', 'a&#32;', 'a\\', 'a  ', '![a', '> a', '- a', 'a\t', 'a\xa0', '`a`', '</a>', '<a b="'],
            ['\n', ' \n', '  \n', '   \n', '\t\n', ' \t\n', '  \t\n', '\\\n', '\\\\\n', '\\ \n', '     \n', '\xa0\xa0\n', '  ', '\\', '\\\\\\\n', '  \r\n', '\\\r'],
            ['b', ' b', '   b', '\tb', '*b*', '`', '](u)', '', '>', '> b', '  \nc', '\\\nc', '">', '=', '# b', '       b', '\xa0b']), conform),
        Exploration('line break characters', Product(['a', ' ', '  ', '\\', '\n', '\t', '`', '*', '<b ', '>'], 4 + d, wraps=[('a', 'b'), ('# ', ''), ('a', '\n===')]), conform),
        Exploration('repeated', pumped(
            ['`', '``', '` ', '`a', '<', '<a>', '<a ', '>', '<!--', '-', '<?', '<![CDATA[', ']]>', '\\', '  \n', '\\\n', 'a\n', '<bb:c>', '<d@e>', '"', '\\`', '``a`', '<!A ', ' a="b"', " a='", '<a b="', ']', '?>', 'a.', '@'],
            list(range(2, 22)) + [31, 32, 33, 64, 79, 80, 81, 100, 128, 200], [('', ''), ('`', '`'), ('x<a', '>'), ('a `', 'b'), ('x<!--', '-->'), ('<mm:', '>'), ('*', '*'), ('<x@y.', 'z>')]), conform),
        Exploration('inline texts in every place', docs.placed(), conform),
        Exploration('inlines of several blocks', docs.several(2), conform),
        Exploration('inlines of three blocks', docs.several(3, docs.FEW_PARTS if q else docs.PARTS, docs.BREAKS[:1] if q else docs.BREAKS[:2]), conform),
        Exploration('lengths', docs.lengths(of=['`', '<', '\\', '\n']), conform, chunk=40),
        Exploration('inlines mentioned in the code', docs.mentioned_inlines(), conform),
        Exploration('texts mentioned in the code', docs.mentioned_places(), conform),
    ]


run = runner.make(plan)
