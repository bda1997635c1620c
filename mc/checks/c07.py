"""References: definitions in every place and form, code against the reference model."""
import docs
from lib import *
import runner

LEVEL = 'model_checking'
RULE = ('every definition form, placement, label pair and use up to the stated bounds is parsed by '
        'the code and by the reference model; the HTML must be equal; outcome = the HTML')
ASSUMPTIONS = ['labels and documents outside the alphabets behave like those within']

USE = '\n\n[r] ![r] [r][] [x][r]'
CASES = ['a', 'A', '\u00e9', '\u00c9', '\u0430', '\u0410', '\u00df', 'ss', 'SS', '\u1e9e', '\u03c3', '\u03c2', '\u03a3', 'I', 'i', '\u0130', '\u0131', '\u017f', 's',
         '\u212a', 'k', '\ufb03', 'ffi', '\u01c4', '\u01c5', '\u01c6', '\u0390', '\u1fd3', '\u13a0', '\uab70', '\U00010400', '\U00010428', '\u03b9', '\u0345', '1', '*', '&amp;',
         '&', '\\*', '!', '`a`', '<b>']

# definitions with little in them, or the same as others
SAME = ['[r]: /u', '[r]: <>', '[R]: <> "t"', '[r]: /v "t"', '[r]: /u ""', "[ r ]: <> ''", '[r]: # (t)', '[r]: 0', '[r]:', '[r]: /u "t', '[s]: <>', '[r]: <&#32;>', '[r]: &#32;', '[r]: <> x']


def plan(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [
        Exploration('definition and use', Product(
            ['[r]: /u', '[r]: /v', '[r]', '', 'a', '> [r]: /w', '- [r]: /x', '# [r]', '===', '"t"', '> [r]', '    [r]: /y', '---'],
            4 + d, sep='\n'), conform),
        Exploration('characters of a definition', Product(
            ['[', ']', ':', ' ', 'r', '\n', '<', '>', '"', '/'], 4 + d, wraps=[('[r]:', USE), ('[', ']: /u\n\n[r]'), ('[r]: /u', USE), ('[r]: /u "', USE)]), conform),
        Exploration('parts of a definition', Slots(
            ['', '   ', '    ', 'a\n', '> ', '- ', '# ', '*', '\t'], ['[r]:', '[r] :', '[r]', '[ r ]:', '[R]:', '[r\n]:', '[]:', '[[r]:', '[r]]:', '[\\r]:', '![r]:', '[r]::'],
            ['', ' ', '\n', ' \n  ', '\t', '\n\n', '\xa0'], ['/u', '<u v>', '<>', '', '<u', 'u(', '/u\\*', 'u v', '<u>v', '"'],
            ['', ' ', '\n', '\n    ', '\t', '\n\n', ' \n'],
            ['', '"t"', "'t'", '(t)', '"t', '"t" x', '"t\nv"', '"t\n\nv"', '(t))', "'t\\''", '"t"\t', 'x', '""']),
            lambda s: conform(s + USE)),
        Exploration('after a definition', Slots(
            ['[r]: /u', "[r]: /u 't'", '[r]:\n/u', '[r]: /u\n"t"', '[r]: /u "t', '[r]: <u>', '[r]: /u\n[s]: /v', '[r]: /u\n"t" x'],
            ['\n', '\n\n', ' ', '\n   ', '\t\n'],
            ['b', '[s]: /w', '# b', '===', '---', '- b', '1. b', '> b', '    b', '```', '<div>', '<x>', '"t"', '(t)', '"t" c', '[r]: /z', '', '[s', ':', '***', '2. b', '-', '=', '"b\nc" d'],
            ['', '\nc', '\n===', '\n[s]']), lambda s: conform(s + '\n\n[r] [s]')),
        Exploration('containers', Slots(
            ['', '> ', '- ', '1. ', '> - ', '- > ', '> > ', '- - '], ['[r]: /u', '[r]: /u "t"', '[r]:', 'a\n[r]: /u', '[r]: /u\n[s]: /v'],
            ['\n', '\n> ', '\n  ', '\n\n', '\n>\n> ', '\n\n  ', '\n    '], ['/w', '"t"', '[s]: /w', 'b [r]', '[r]: /z', '', '- [r]', '---', '"t" c'],
            ['', '\n\n[r] [s]', '\n\n> [r]\n\n- [s]', '\n\n# [r][] ![s]']), conform),
        Exploration('use', Product(
            ['[', ']', 'r', '!', '(', ' ', '[s]', '\\', '*', '\n'], 4 + d, wraps=[('', '\n\n[r]: /u\n[s]: /v "t"'), ('[r][', '\n\n[r]: /u\n[s]: /v'), ('[a', ']\n\n[ar]: /u\n[s]: /v')]), conform),
        Exploration('kinds of reference', Product(
            ['[r]', '[s]', '[]', '[n]', '![', ']', '[', '(u)', '()', ':', ' ', '*'], 4 + d, lo=1, wraps=[('', '\n\n[r]: /u\n[s]: /v')]), conform),
        Exploration('markup in labels', Slots(
            ['[%s]', '[%s][]', '[x][%s]', '![%s]', '[%s][r]', '[%s](', '[[%s]]'], ['*r*', '`r`', '<r>', 'r&amp;', 'r\\]', 'r\\[', 'r]', '[r', '[r]', '![r]', 'r\\', '\\\\', 'a`]`', '<a b="]">', '*r', 'r*',
                                                                               'r\nr', 'r  r', ' r', 'r ', '\\r', '&#114;', '', ' ', '<bb:c]>', '[r](u)', '!r', 'r\\\n'],
            ['*r*', '`r`', '<r>', 'r&amp;', 'r\\]', 'r\\[', 'r', '[r]', '\\\\', 'r r', 'a`]`', '*r', 'r*', 'r&', '\\r', '&#114;', 'x'],
            ['*', '', '`'], join=lambda t: t[0].replace('%s', t[1]) + t[3] + '\n\n[' + t[2] + ']: /u\n[r]: /v'), conform),
        Exploration('matching of labels', Slots(
            CASES, CASES, ['%s', 'x%s', '%sx', ' %s ', '%s  y'], ['[%s]', '[z][%s]', '[%s][]'],
            join=lambda t: t[3].replace('%s', t[2].replace('%s', t[0])) + '\n\n[' + t[2].replace('%s', t[1]) + ']: /u'), conform),
        Exploration('white space in labels', Slots(
            ['a', '', ' a', 'a '], ['', ' ', '  ', '\n', '\t', ' \n ', '\xa0', '\x0b', '\x0c', '\u2003', '\n\t'], ['b', ''], ['', ' ', '  ', '\n', '\t', '\xa0', '\x0c', '\u2003'], [']', '][]'],
            ['a', '', ' a'], join=lambda t: '[%s%s%s%s\n\n[%s%s%s]: /u\n[b]: /v\n[a]: /w' % (t[0], t[1], t[2], t[4], t[5], t[3], t[2])), conform),
        Exploration('first definition wins', Slots(
            [''.join(x) for n in range(1, 5) for x in __import__('itertools').product('rRs', repeat=n)], ['\n', '\n\n'], ['top', 'quote', 'item', 'after'],
            join=lambda t: place([('[%s]: /%d' % (c, i)) for i, c in enumerate(t[0])], t[1], t[2])), conform),
        Exploration('definitions of one label', Slots(SAME, ['\n', '\n\n', '\n\n> ', '\n\n- ', '\n\na\n\n'], SAME, ['\n', '\n\n'], SAME if not q else SAME[::3] + ['x'], ['[r] ![r][R] [a][r]', '> # [r][]'],
                                                      join=lambda t: ''.join(t[:5]) + '\n\n' + t[5]), conform),
        Exploration('long uses of short labels', Slots(
            [0, 1, 500, 990, 994, 995, 996, 997, 998, 999, 1000, 1001, 2000], [' ', '\n', '\t ', ' \n'], ['[%s]', '[%s][]', '[x][%s]', '![%s]', '![%s][]', '[%s][r]', '[%s](/v)', '[%s](/v', '*[%s]*', '[%s][x', '[[%s]]'], ['a%sb', 'a%s', '%sb', '\\]%sb'],
            join=lambda t: t[2].replace('%s', t[3].replace('%s', (t[1] * t[0])[:t[0]])) + '\n\n[a b]: /u\n[a]: /w\n[b]: /x\n[\\] b]: /y\n[r]: /r'), conform),
        Exploration('long labels', Slots(
            [1, 2, 10, 500, 997, 998, 999, 1000, 1001, 1002, 1500], ['a', '\\]', 'a ', '\u00e9', ' ', '&amp;', '\n', '`'], ['[%s]', '[x][%s]', '![%s][]', '[%s'], [0, 1, -1],
            join=lambda t: t[2].replace('%s', 'a' + (t[1] * t[0])[:max(t[0] + t[3], 0)] + 'b') + '\n\n[a' + (t[1] * t[0])[:max(t[0] + t[3], 0)] + 'b]: /u'), conform),
        Exploration('many definitions', Slots(
            list(range(1, 40)) + [64, 100, 128, 256, 257], [0, 1, -1], ['[r%d]: /%d\n', '[r%d]: /%d\n\n', '> [r%d]: /%d\n', '[r%d]: /%d "t"\n', '- [r%d]: /%d\n\n'],
            join=lambda t: ''.join(t[2] % (i, i) for i in range(t[0])) + '\n[r0] [r%d] [r%d] [r%d]\n' % (t[0] + t[1], t[0] // 2, t[0])), conform),
        Exploration('repeated', pumped(
            ['[r]', '[r][', '[', '[r] ', ']', '[r]: /u\n', '[r][r]', '![r]', '[][', '[r]\n', '\\[', '[r]:', '[a][r]', '*[r]', '[r](', '[[r]', '[r]]', '[a\n'],
            list(range(2, 22)) + [31, 32, 33, 64, 100, 128],
            [('', '\n\n[r]: /u'), ('[r]: /u\n\n', ''), ('[r]: /u\n', ''), ('[', ']\n\n[r]: /u'), ('# ', '\n\n[r]: /u')]), conform),
        Exploration('inline texts in every place', docs.placed(), conform),
        Exploration('inlines of several blocks', docs.several(2), conform),
        Exploration('inlines of three blocks', docs.several(3, docs.FEW_PARTS if q else docs.PARTS, docs.BREAKS[:1] if q else docs.BREAKS[:2]), conform),
        Exploration('lengths', docs.lengths(of=[']:', ')[']), conform, chunk=40),
    ]


def place(defs, sep, where):
    if where == 'quote':
        t = sep.join('> ' + d for d in defs)
    elif where == 'item':
        t = sep.join('- ' + d for d in defs)
    else:
        t = sep.join(defs)
    use = '[r] [R] [s]'
    return use + '\n\n' + t if where == 'after' else t + '\n\n' + use


run = runner.make(plan)
