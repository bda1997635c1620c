"""Container blocks: state-space conformance of the block structure with the reference model."""
import docs
import harvest
import engine
import statespace
from lib import *

LEVEL = 'model_checking'
RULE = ('breadth-first search of the reference model of block structure; every (state, line, '
        'suffix) is run on the code and the HTML compared with the model; further exhaustive '
        'families enumerate marker geometry, interruption, tightness and pumped nesting; '
        'outcome = the HTML')
ASSUMPTIONS = ['line shapes outside the alphabets behave like those within',
               'two histories with the same canonical model state have the same future '
               '(checked against the code for every transition with every suffix)']

LINES = ['', 'a', '> a', '>', '>> a', '- a', '-', '  a', '    a', '- - a', '* a', '1. a', '2) a',
         '1) a', '   b', '> - a', '- > a', '+', '   - a', '      a', '---', '```', '10. a',
         '> > - a', '1.', '  - a', ' > a', '# a', '    - a', '>   a', '-  a', '-     a', '<div>',
         '  ', '>> ', '- # a', '***', '===', '0. a', '  ```', '>  - a', '> ```', '     > a']
SUFFIXES = [(), ('a',), ('', 'a'), ('  a',), ('', '  a'), ('- a',), ('', '- a'), ('> a',),
            ('', '> a'), ('    a',), ('   a',), ('1. a',), ('', '', 'a'), ('>', '> a'),
            ('', '    a'), ('* b', ''), ('', '      a')]
SMALL = ['', 'a', '> a', '>', '- a', '-', '  a', '    a', '1. a', '* a', '  - a', '> - a', '2. a',
         '   a', '---', '> > a', '1)', '```']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    conf = statespace.Conformance(LINES, 4 if q else 5, 3 if q else 4, SUFFIXES if not q else SUFFIXES[:13])
    return [
        Exploration('reachable states x lines', conf, conform),
        Exploration('line sequences', Product(SMALL, 4 + d, sep='\n'), conform),
        Exploration('characters', Product(
            ['>', '-', ' ', 'a', '\n', '1.', '*'], 6 + d), conform),
        Exploration('tight and loose', Product(
            ['- a', '', '  b', '  - c', '    d', '  > q', '  ```\n  x\n\n  ```', '-', '    - e', '  [r]: /u'],
            5 + d, lo=2, sep='\n'), conform),
        Exploration('marker geometry', Slots(
            ['', ' ', '   ', '    '], ['-', '1.', '12)', '*', '123456789.', '>'],
            ['', ' ', '  ', '    ', '     ', '      ', '\t'], ['a', '', '- b', '> b'],
            ['\n', '\n\n', '\n\n\n'],
            [' ' * i for i in range(0, 9)] + ['           '], ['b', '- c', '']), conform),
        Exploration('list markers', Slots(
            ['', 'p\n', 'p\n\n', '- x\n', '1. x\n', '9) x\n', '> p\n'],
            ['0', '1', '2', '00', '01', '007', '9', '10', '11', '99', '123', '999999999', '1000000000',
             '000000001', '0000000001', '0123456789', '12345678', '-1', '+1', '1a', 'a', '\u0661', '-', '+', '*',
             '--', '\u2022', '1.1'],
            ['.', ')', ':', '', '. ', ') ', '.)', ' .', '-'], ['', ' ', '  a', ' a', 'a', '\ta', '\n  a', '\n\n  a',
                                                    '\n a', '\na']), conform),
        Exploration('neighbouring lists', Slots(
            ['- a', '* a', '+ a', '1. a', '1) a', '2. a', '-', '1.'], ['\n', '\n\n', '\n\n\n', '\n<!-- -->\n', '\np\n'],
            ['- b', '* b', '+ b', '1. b', '5) b', ' - b', '  - b', '   - b', '    - b', '> b', '-', '3.'],
            ['\n', '\n\n'],
            ['- c', '* c', '1. c', '2) c', ' - c', '  - c', '    - c', 'c', '  c', '   c', '']), conform),
        Exploration('lazy continuation', Slots(
            ['> ', '- ', '> > ', '> - ', '- > ', '1. > ', '> 1. ', '- - ', '> > > '],
            ['a', '# a', '```', '    a', '<div>', '', '---', '[r]: /u', 'a\n> b'],
            ['\n', '\n> ', '\n> > '],
            ['b', '    b', '- b', '> b', '```', '---', '===', '# b', '1. b', '2. b', '<div>', '<x>', '[s]: /v', '', '-',
             '    - b', '  b'],
            ['', '\nc', '\n\nc']), conform),
        Exploration('lazy indentation', Slots(
            ['> ', '- ', '> > ', '> - ', '- > ', '1. > ', '- - ', '> 1. - ', ''], ['a', 'a\n> b', '# a', '    a', '```'],
            ['\n', '\n> ', '\n  ', '\n> > ', '\n\n'],
            [' ' * i for i in range(0, 34)] + [' ' * i + '\t' * j for i in range(0, 4) for j in range(1, 6)] + ['\t \t', '\t  a', ' ' * 40, ' ' * 64, ' ' * 80, ' ' * 100],
            ['b', '- b', '# b', '> b', '1. b', '```', '===']), conform),
        Exploration('what interrupts a paragraph', Slots(
            ['', '> ', '- ', '1. ', '> - '], ['a\n', 'a\nb\n', '[r]: /u\n', 'a  \n', '`a\n'], ['', '> ', '  ', '   ', '> > ',
             '    '],
            ['- b', '* b', '+', '-', '1. b', '2. b', '1) b', '0. b', '1.', '01. b', '> b', '>', '# b', '#', '```', '~~~',
             '---', '***', '===', '<div>', '<pre>', '<!-- b', '<x>', '</x>', '    b', '-b', '1.b', '#b', '- - -', '`` `', '10. b',
             '- \n', '11. b'], ['', '\nc']), conform),
        Exploration('pumped', pumped(
            ['> ', '- ', '1. ', '>', '* - ', '> - ', '>\t', '-\t'], list(range(1, 41)) + [60, 99],
            [('', ''), ('', 'a'), ('', 'a\nb'), ('', 'a\n\nb'), ('', '- a\n> b'), ('a\n', 'b'), ('', '```\nx'), ('', '# a\n> b'),
             ('', 'a\n\n' + '  ' * 12 + 'b')]), conform),
        Exploration('long lists', pumped(
            ['- a\n', '- a\n\n', '1. a\n', '> a\n', '> a\n\n', '-\n', '- a\n  b\n', '- a\n* b\n', '- a\n\n  b\n', '>\n', '\n',
             '1. a\n   - b\n', '> - a\n', '- > a\n\n', '2. a\n\n\n'],
            list(range(1, 34)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257],
            [('', ''), ('', 'z'), ('- x\n', '\n- y'), ('> q\n', '> r\n'), ('p\n\n', '\nq'), ('1. x\n\n', '\n   y')]), conform),
        Exploration('leaving containers', docs.leaving(3 if q else 4), conform),
        Exploration('sequences of blocks', docs.blocks(3 + d), conform),
        Exploration('sequences of blocks in containers', docs.blocks(3, path=[('> ', '> '), ('- ', '  ')]), conform),
        Exploration('deep items', Slots(
            list(range(1, 9)), ['- ', '1. ', '* '], ['\n', '\n\n'], list(range(0, 26)), ['b', '- b', '> b', '1. b'],
            join=lambda t: t[1] * t[0] + 'a' + t[2] + ' ' * t[3] + t[4]), conform),
        Exploration('lengths', docs.lengths(of=['- ', '> ', '>', '1. ', '. a', ') a']), conform, chunk=40),
        Exploration('lengths in containers', docs.lengths((), paths=[(('> ', '> '),), (('- ', '  '),), (('1. ', '   '), ('> ', '> '))]), conform, chunk=40),
        Exploration('list numbers', Slots(['%d. a', 'x\n%d. a', '%d) a\n%d) b', '> %d. a\n> %d. b', '- %d) a\n\n  %d. b'], list(range(1100)) + [n for n in harvest.numbers(999999999) if n >= 1100] + [10 ** k for k in range(4, 10)] + [10 ** k - 1 for k in range(4, 11)], join=lambda t: t[0].replace('%d', str(t[1]))), conform),
        Exploration('lines mentioned in the code', docs.mentioned_lines(), conform),
    ]


def run(tier, result, deadline):
    p = plan(tier)
    c = p[0].space
    ok = engine.explore(p, result, deadline)
    result.extra['states'] = c.states
    result.extra['transitions'] = c.transitions
    result.extra['traces'] = result.evaluations
    result.extra['frontier_at_depth_limit'] = c.open
    result.extra['distinct_outputs'] = len(result.outcomes)
