"""Leaf blocks: exhaustive line families for every kind of leaf block, code against the model."""
import engine
import statespace
import docs
from lib import *

LEVEL = 'model_checking'
RULE = ('breadth-first search of the reference model over leaf-block lines, every (state, line, '
        'suffix) run on the code; exhaustive families per leaf block (geometry of headings, '
        'fences, rules, the seven HTML conditions with every block tag and near misses); the '
        'HTML must equal that of the model; outcome = the HTML')
ASSUMPTIONS = ['line shapes outside the alphabets behave like those within']

LINES = ['', 'a', '    a', '  a', '# a', '#', '###### a ##', '---', '***', '===', '```', '~~~', '````', '``` x',
         '  ```', '    ```', '~~~~', '<div>', '</div>', '<pre>', '</pre>', '<!--', '-->', '<?', '?>', '<!A', '>', '<x>',
         '</x>', '<![CDATA[', ']]>', '      a', '> a', '> ```', '> <pre>', '- a', '- ```', '  b', '   ', '\t', '     ',
         '<script>', '- <pre>', '> # a', '>     a', '<style> </style>', '-', '=', '`` ` ``', '  ===', '    ---']
SUFFIXES = [(), ('a',), ('', 'a'), ('    a',), ('', '    a'), ('---',), ('```', 'a'), ('', '', '      b', '', 'c'),
            ('> a',), ('  a',), ('===',), ('-->', '*a*'), ('</pre>', '*a*')]

TAGS = sorted(refmodel.BLOCK_TAGS)
NEAR = ['source', 'sourc', 'h0', 'h7', 'h10', 'h', 'search', 'textarea', 'video', 'span', 'b', 'a', 'i', 'del', 'em',
        'pre', 'script', 'style', 'prex', 'preview', 'scripts', 'styles', 'div1', 'div-x', 'xdiv', 'dl1', 'tdx', 'trx', 'pa',
        'lin', 'links', 'mains', 'asid', 'button', 'template', 'code', 'svg', 'math', 'meta', 'noscript', 'center1',
        'option1', 'bodyx', 'headers', 'ht', 'htm', 'htmlx', 'optgroups', 'x_y', 'x:y', '1a', '']


def quoted(d):
    return '\n'.join('> ' + x for x in d.split('\n'))


def item(d):
    return '- ' + '\n'.join('  ' + x if x else x for x in d.split('\n')).lstrip(' ')


def contained(space):
    return Union(space, Mapped(space, quoted), Mapped(space, item), Mapped(space, lambda d: quoted(item(d))),
                 about=space.about + ', at top level, quoted, in an item and in a quoted item')


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    conf = statespace.Conformance(LINES, 3 if q else 5, 2 if q else 3, SUFFIXES)
    fences = ['```', '~~~', '````', '~~~~~']
    return [
        Exploration('reachable states x lines', conf, conform),
        Exploration('line sequences in containers', contained(Product(
            ['', 'a', '    a', '# a', '---', '```', '<div>', '<x>', '> a', '===', '<!-- ', '-->', '- a', '      b', '  c', '~~~', '#', '</pre>', '<pre', '<!A'],
            3, sep='\n')), conform),
        Exploration('line sequences', Product(
            ['', 'a', '    a', '# a', '---', '```', '<div>', '<x>', '> a', '===', '<!-- ', '-->', '- a', '      b'],
            4 + d, sep='\n'), conform),
        Exploration('ATX geometry', Slots(
            ['', ' ', '   ', '    ', 'p\n', 'p\n    ', '\\'], ['#' * i for i in range(1, 9)] + ['##\\##', '\uff03'],
            ['', ' ', '  ', '\t', '\xa0', '      '], ['', 'a', '*a*', '#', 'a\\', 'a b', '\\#', 'a`#`', '<a#>'],
            ['', ' ', ' #', ' ##  ', '#', ' # b', ' \\#', ' #\\', '\t#', ' ########', ' #\t', '\xa0#', '# #', ' ## #', '  ', '\n---']),
            conform),
        Exploration('setext geometry', Slots(
            ['a', '*a\nb*', '   a', 'a  ', 'a\\', '> a', '- a', '# a', '    a', '', '`a', '[r]: /u', '[r]: /u\na', '<a', 'a\n', '1. a'],
            ['', ' ', '  ', '   ', '    ', '> ', '\t', '     '], ['=', '-', '==', '--', '===', '---', '=' * 40, '-' * 40, '=-', '= =', '- -', '- - -', '+', '__'],
            ['', ' ', '  ', '\t', ' a', '=', '-', '\xa0'], ['', '\nb', '\n\nb', '\n===', '\n    b']), conform),
        Exploration('thematic breaks', Union(
            Product(['*', '-', '_', ' ', '\t'], 6 + d),
            Slots(['', '   ', '    ', 'p\n', '- ', '> ', 'p\n   '], ['***', '---', '___', '- - -', '* * *', '_  _  _', '**', '--', '*-*', '+++', '*' * 50, '* *\t*', '--- a', '---a', '***-'],
                  ['', ' ', '\t', '\n', '\na', '\n---', '\n- a'])), conform),
        Exploration('code fences', contained(Slots(
            ['', ' ', '   ', '    ', 'p\n'], fences + ['``', '~~', '``~', '`' * 12],
            ['', 'x', ' x y', ' x`', '~', '  x  ', ' `'], ['\n', '\na\n', '\n  a\n\n\tb\n', '\n```a\n'],
            ['', ' ', '   ', '    ', '\t'], fences + ['``', '', '`' * 13], ['', ' ', '\t', ' x', '\nz'])), conform),
        Exploration('fence content', Product(
            ['```', '~~~', '``` ', '  ```', '   ', '', 'a', '    b', ' c', '````'], 3 + d, sep='\n',
            wraps=[('```\n', ''), ('  ```\n', '\n  ```\nx'), ('> ```\n> ', '\ny'), ('- ~~~\n  ', '\n  ~~~')]), conform),
        Exploration('info strings', Slots(
            ['```', '~~~', '> ```', '- ~~~'], ['', ' ', '  ', '\t'],
            ['a', 'a b', 'a\tb', '&amp;', '\\*', '*a*', '<a>', '"', "'", '&quot;a', 'a&#32;b', '\\', '&lt;', 'a~', '~a', 'a`', '{.x #y}',
             '\xa0', 'c++', '&copy', '\u00e9', 'a\\ b', '&#9;', '&#32;', '&nbsp;', '&#32;a', '&#10;', '&#0;', '\\\\', 'language-a', 'language-', 'lang-b', 'x-language-y'], ['', ' ', '\t', '  z'], ['\n', '\nx\n```', '\nx\n~~~\ny']), conform),
        Exploration('indented code', Product(
            ['    a', '', '      b', '  ', '    ', '     ', 'c', '   d', '\te', '     \t'], 4 + d, sep='\n',
            wraps=[('', ''), ('p\n', ''), ('p\n\n', '\nq'), ('- i\n\n  ', '')]), conform),
        Exploration('HTML block tags', Slots(
            ['', 'p\n', '   ', '    '], ['<', '</'], [f(t) for t in TAGS for f in (str.lower, str.upper)] + NEAR,
            ['', '>', '/>', ' ', ' a', '\t', '/', '/ >', '.', '>*b*', ' x="y">'], ['\n*a*', '\n\n*a*']), conform),
        Exploration('HTML block conditions', Slots(
            ['', ' ', '   ', '    ', 'p\n', '> ', '- '],
            ['<pre', '<script', '<style', '<PRE>', '<Script>', '</pre', '</script>', '<pre/>', '<!-', '<!--', '<!---->', '<?', '<!A', '<!a', '<!-A', '<!1',
             '<![CDATA[', '<![cdata[', '<![CDATA', '<x>', '<x />', '</x>', '</x >', '<x', '<x y', '<x y=z>', "<x y='z'>", '<x y="z" w>', '</x y>', '<x> ',
             '<x>a', '<x><y>', '<xx:y>', '<a@b.c>', '<div', '<div>', '< div>', '<div\t', '<x y="', '<x\ty=1>', '<>', '<-x>'],
            ['', '>', ' b', '-->', '?>', ']]>', '</pre>', '</style>', '</SCRIPT>', ' \t'],
            ['\n*a*', '\n\n*a*', '\n-->\n*a*', '\n?>*b*\n*a*', '\n>\n*a*', '\n]]>\n\n*a*', '\n</script>\n*a*', '\n</pre >\n*a*', '\n </PRE>x\n*a*', '']), conform),
        Exploration('HTML end conditions', contained(Product(
            ['<pre>', '</pre>', '<script>', '</style>', '<!--', '-->', '<?', '?>', '<!X', '>', '<![CDATA[', ']]>', '<div>', '<x>', '', '*a*', '- ?>'],
            3 + d, sep='\n')), conform),
        Exploration('interruption', Slots(
            ['a', '# a', '    a', '```', '```\n```', '<div>', '<x>', '<!-- -->', '***', 'a\n===', '> a', '- a', '', '[r]: /u', '<pre>', '`a', '|a|'],
            ['\n', '\n\n', '\n> ', '\n  ', '\n    '],
            ['b', '# b', '#b', '    b', '```', '~~~ x', '<div>', '<x>', '<pre>', '<!-- b', '<?b', '<!B', '<![CDATA[', '***', '---', '- b', '===', '> b', '', '1. b'],
            ['\n', '\n\n'], ['c', '# c', '    c', '---', '</div>', '```', '', '===']), conform),
        Exploration('repeated', pumped(
            ['# a\n', '    a\n', '\n', '---\n', 'a\n', '```\n', '<div>\n', '<!-- -->\n', 'a\n===\n', '    a\n\n', '#', '=', '-', '`', '~', ' ', '***\n', '<pre>\n', '*', '#\n', '    ', '<x>\n\n'],
            list(range(1, 20)) + [31, 32, 33, 64, 100, 128, 200],
            [('', ''), ('a\n', ''), ('', 'a'), ('```\n', '\n```'), ('# ', '\n'), ('    ', '\n    b'), ('<div>\n', '\nz'), ('> ', ''), ('- ', '\n  c')]), conform),
        Exploration('lengths', docs.lengths(of=['#', '```', '~~~', '=', '---', '***', '    ', '<', '\n']), conform, chunk=40),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), conform),
    ]


def run(tier, result, deadline):
    p = plan(tier)
    c = p[0].space
    engine.explore(p, result, deadline)
    result.extra['states'] = c.states
    result.extra['transitions'] = c.transitions
    result.extra['traces'] = result.evaluations
    result.extra['frontier_at_depth_limit'] = c.open
    result.extra['distinct_outputs'] = len(result.outcomes)
