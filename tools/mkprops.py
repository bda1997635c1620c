"""Writes properties.jsonl from the table below (run by hand when a property changes)."""
import json, os
B='commonmark/blocks.py'; I='commonmark/inlines.py'; N='commonmark/node.py'; C='commonmark/common.py'
H='commonmark/render/html.py'; R='commonmark/render/rst.py'; RR='commonmark/render/renderer.py'
D='commonmark/dump.py'; M='commonmark/main.py'; X='commonmark/cmark.py'; NR='commonmark/normalize_reference.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,spec=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))

p('C01','Every string is accepted',
 'Parsing any Unicode string succeeds, and rendering the result as HTML (with any combination of the documented options), as reStructuredText, as JSON or as an AST listing succeeds too: no input makes any of these raise an exception or fail to return.',
 ['inputs','configurations'],'every str (unpaired surrogates and control characters included) x output format x options',
 'The examples cover 649 documents; the two random-text tests do not run here. A crash needs one particular neighbourhood of constructs (a character reference before a line ending, a heading without text).',
 [B,I,C,H,R,D,M],[('Parser.parse',B),('InlineParser.parseInline',I),('Renderer.render',RR),('prepare, dumpAST',D)],['commonmark.commonmark','Parser.parse','HtmlRenderer.render','ReStructuredTextRenderer.render','dumpJSON','dumpAST'])

p('C02','Container blocks follow the specification',
 'For every document the nesting of block quotes, lists and list items in the HTML output is the one CommonMark 0.29 prescribes, including lazy continuation lines, item indentation, empty items, which markers start a new list, list start numbers, what may interrupt a paragraph, and which lists are tight.',
 ['inputs'],'every sequence of lines built from container markers, indentation, blank lines and text',
 'spec.txt samples about a hundred container documents of 2-6 lines; the container rules interact across lines and nesting levels.',
 [B],[('Parser.incorporate_line',B),('BlockQuote/Item/List.continue_',B),('parse_list_marker, lists_match, ends_with_blank_line, List.finalize',B)],['commonmark.commonmark'])

p('C03','Leaf blocks follow the specification',
 'For every document the leaf blocks in the HTML output - thematic breaks, ATX and setext headings, indented and fenced code blocks with their info strings, the seven kinds of HTML block, paragraphs - begin, end, interrupt one another and keep their content exactly as CommonMark 0.29 prescribes, at top level and inside containers.',
 ['inputs'],'every sequence of lines over the markers, indentations, fence lengths and HTML start/end conditions',
 'Each start condition, end condition and precedence rule is sampled once or twice; their pairwise and in-container combinations are not.',
 [B,C],[('BlockStarts.*',B),('CodeBlock/HtmlBlock/Paragraph/Heading/ThematicBreak',B),('reHtmlBlockOpen/Close, reCodeFence, reSetextHeadingLine, reThematicBreak',B)],['commonmark.commonmark'])

p('C04','Tabs behave as four-column tab stops',
 'Where white space determines block structure a tab counts as the spaces up to the next multiple-of-four column, even when a marker or an enclosing container uses up only part of it, and a tab that is part of content is passed through unchanged: a document and the one with structural tabs written as spaces have the same structure.',
 ['inputs'],'every placement of tabs among markers, indentation and content on lines of nested containers',
 'Eleven examples use a tab; partially consumed tabs depend on column arithmetic across nested containers.',
 [B],[('Parser.advance_offset, find_next_nonspace, add_line',B),('parse_list_marker',B)],['commonmark.commonmark'])

p('C05','Emphasis is resolved as specified',
 'For every arrangement of * and _ delimiter runs with text, spaces, punctuation and brackets around them, the emphasis and strong emphasis in the output are the ones the CommonMark 0.29 rules determine (flanking, rule of three, nearest opener, nesting and overlap), and delimiters not used stay as text.',
 ['inputs'],'every inline string of delimiter runs and context characters',
 'About 130 examples cover a quadratic-free stack algorithm whose search bounds and stack edits depend on the whole history of runs.',
 [I],[('InlineParser.scanDelims, handleDelim, processEmphasis, removeDelimiter*',I)],['commonmark.commonmark'])

p('C06','Inline links and images are recognised as specified',
 'For every inline string, links and images written [text](destination "title") are recognised exactly when CommonMark 0.29 says so, with the destination and title it prescribes, with bracketed links never nested in one another, and with anything that is not a complete link left as text.',
 ['inputs'],'every inline string over brackets, parentheses, angle brackets, quotes, backslashes, white space and text',
 'Delimiter bookkeeping, rewinding after a failed tail and deactivation of outer openers depend on arrangements the examples only sample.',
 [I,C],[('parseOpenBracket, parseBang, parseCloseBracket, parseLinkDestination, parseLinkTitle',I),('normalize_uri, unescape_string',C)],['commonmark.commonmark'])

p('C07','Reference definitions and reference links match as specified',
 'Link reference definitions are recognised, and removed from the visible text, exactly where CommonMark 0.29 allows them, wherever in the document they stand; full, collapsed and shortcut reference links and images use the first definition whose label matches after case folding and white space collapsing, and everything else stays as text.',
 ['inputs'],'every document made of definition fragments (labels, destinations, titles, line breaks), placements in containers, and references to them',
 'Definition parsing has several rewind points (title on the next line, junk after the title, several definitions in a row); the examples take each once.',
 [I,B,NR],[('InlineParser.parseReference, parseLinkLabel, parseCloseBracket',I),('Paragraph.finalize, BlockStarts.setext_heading',B),('normalize_reference',NR)],['commonmark.commonmark'])

p('C08','Code spans, raw HTML, autolinks and line breaks follow the spec',
 'For every inline string, code spans, autolinks, raw HTML constructs and hard and soft line breaks are recognised exactly as CommonMark 0.29 prescribes, take precedence over emphasis and links as it prescribes, and reproduce their content exactly.',
 ['inputs'],'every inline string over backticks, angle brackets, tag fragments, comment and instruction delimiters, spaces, backslashes, newlines, mixed with emphasis and brackets',
 'The regular expressions and the left-to-right precedence have far more combinations than the ninety-odd examples.',
 [I,C],[('parseBackticks, parseAutolink, parseHtmlTag, parseNewline, parseBackslash',I),('reHtmlTag and its parts',C)],['commonmark.commonmark'])

p('C09','Escapes and character references decode as specified',
 'A backslash before an ASCII punctuation character, every HTML5 named character reference and every decimal or hexadecimal reference yields its character in text, link destinations, titles and info strings, without ever taking part in Markdown structure; anything else with that shape stays as written, and code spans, code blocks, autolinks and raw HTML are left untouched.',
 ['inputs'],'every ASCII escape, every named reference and near miss, every numeric reference of 1-7 digits / 1-6 hex digits, in every context',
 'There are 2125 named and over ten million numeric references; the examples use about fifteen.',
 [C,I],[('ENTITY, reEntityOrEscapedChar, unescape_char, unescape_string, HTMLunescape',C),('parseEntity, parseBackslash',I)],['commonmark.commonmark'])

p('C10','HTML output is well formed and text is escaped',
 'For every document without raw HTML the HTML output is a well-formed nesting of the documented CommonMark elements in which <, >, & and " from the source appear only escaped, in attribute values as well as in content, image descriptions included; with raw HTML, removing the verbatim raw pieces leaves output with the same guarantee.',
 ['inputs','configurations'],'every document x renderer options',
 'Escaping and nesting are global properties of the output; the tests compare whole strings for fixed inputs.',
 [H,C],[('HtmlRenderer.tag, lit, out, image, attrs',H),('escape_xml',C)],['HtmlRenderer.render'])

p('C11','Safe mode lets no raw HTML or script URL through',
 'With the safe option no raw HTML from the source reaches the output - an omission comment stands in its place - and no link or image gets a destination with a javascript:, vbscript:, file: or non-image data: scheme, however the scheme is spelled, while everything else renders as without the option.',
 ['inputs','configurations'],'every document; every spelling (case, escapes, character references, definitions, autolinks) of a scheme',
 'No test turns the option on.',
 [H],[('potentially_unsafe, reUnsafeProtocol, reSafeDataProtocol',H),('HtmlRenderer.link, image, html_inline, html_block',H)],['HtmlRenderer(options={"safe": True}).render'])

p('C12','The parse tree is structurally sound',
 'Parsing any text yields a tree whose parent, first/last child and sibling links agree with one another, whose nodes nest as CommonMark allows (items only in lists, lists only of items, leaf blocks without block children, inlines only in paragraphs, headings and inline containers), with every block closed; walking it enters every container once and leaves it once, and visits every leaf once, in document order.',
 ['inputs'],'every document',
 'Tests look at rendered output; a broken back link or an open block does not show there.',
 [B,I,N],[('Parser.add_child, finalize, parse',B),('Node.append_child, unlink, insert_after',N),('NodeWalker.__next__',N)],['Parser.parse','Node.walker'])

p('C13','Source positions locate every block',
 'Every block of a parsed document carries a source position whose start is the line and column where the block begins in the source and whose end is not before its start and not beyond the document; children lie within the lines of their parents, siblings follow one another without sharing a line, and the text of a paragraph, heading or code block comes from the lines it claims.',
 ['inputs'],'every document',
 'No test reads a source position.',
 [B,H],[('Parser.add_child, finalize, close_unmatched_blocks',B),('HtmlRenderer.attrs',H)],['Node.sourcepos','HtmlRenderer(options={"sourcepos": True}).render'])

p('C14','Tree editing and walking keep the tree consistent',
 'After any sequence of appending, prepending, inserting before or after, and unlinking nodes, every node has the parent, children order and siblings of the corresponding ordered tree; a walk visits exactly that tree in document order, can be resumed at any node, and merging adjacent text nodes preserves the text and leaves no two text siblings adjacent.',
 ['histories'],'every sequence of editing operations over a small set of nodes, and every walk with resumption points',
 'The tests call the walker on a single node and the merge on one document; insertion operations are not tested at all.',
 [N],[('Node.append_child, prepend_child, insert_after, insert_before, unlink, normalize',N),('NodeWalker.__next__, nxt, resume_at',N)],['Node','NodeWalker'])

p('C15','Results do not depend on what happened before',
 'A parser or renderer that has been used for any sequence of earlier documents (including ones that raised for a wrong argument), or that coexists with other instances with other options, gives for a document exactly the result a fresh instance with its options gives; constructing or using one never alters the options object or results of another.',
 ['histories','configurations'],'every sequence of documents, failed calls and option changes over a few shared parser and renderer instances',
 'The spec runner reuses one parser and one renderer in a single fixed order.',
 [B,I,H,R],[('Parser.parse (reset of the parse state)',B),('Renderer.render (reset of the buffer)',RR),('default options arguments',H)],['Parser.parse','HtmlRenderer.render','ReStructuredTextRenderer.render'])

p('C16','Independent instances can be used from several threads',
 'Threads that each parse and render their own documents with their own parser and renderer objects get, under every interleaving, exactly the results they get alone.',
 ['schedules'],'every interleaving (up to a preemption bound) of two threads parsing and rendering different documents',
 'No test uses threads; interference needs a switch at a particular point.',
 [B,I,H,RR,C,NR],[('per-instance state of Parser, InlineParser, Renderer',B),('module-level tables and compiled expressions',I)],['commonmark.commonmark'])

p('C17','Line endings and NUL are normalised',
 'Writing the line endings of a document as LF, CR or CRLF, in any mixture, and with or without one at the very end, does not change any output; a NUL character anywhere acts as U+FFFD and never reaches an output.',
 ['inputs'],'every document x every choice of line ending per line',
 'Two examples of the specification contain other line endings; none contains NUL.',
 [B],[('reLineEnding, Parser.parse',B),('Parser.incorporate_line (NUL)',B)],['commonmark.commonmark'])

p('C18','Rendering and dumping are read-only and repeatable',
 'Rendering a parsed document to HTML or reStructuredText, or dumping it as JSON or as an AST listing, leaves the tree unchanged, so any sequence of such outputs gives each time what it gives on a freshly parsed document; merging adjacent text nodes does not change the rendered HTML.',
 ['histories','inputs'],'every sequence of output operations on one tree x documents',
 'Each test renders a tree once.',
 [H,R,D,N],[('Renderer.render',RR),('prepare, dumpJSON, dumpAST',D),('Node.normalize',N)],['HtmlRenderer.render','ReStructuredTextRenderer.render','dumpJSON','dumpAST'])

p('C19','JSON and AST dumps account for the whole tree',
 'The JSON dump of any document is valid JSON that records every node in walk order with its type and all its textual data (literal, title, info string, destination, list data), so that the tree can be rebuilt from it; the AST listing shows the same nodes in the same order, nested in the same way, with the same text and list marker data.',
 ['inputs'],'every document',
 'The dumps are only run for not crashing; their content is never compared.',
 [D],[('prepare, dumpJSON',D),('dumpAST',D)],['commonmark.commonmark(format="json")','commonmark.commonmark(format="ast")','dumpJSON','dumpAST'])

p('C20','reStructuredText output keeps the content and its layout',
 'For every document the reStructuredText output contains the text, code, link and image destinations of the document once each and in order; code blocks appear line for line indented under a code directive naming their language, headings are underlined with a line at least as long as their title in the character of their level, and quoted or listed content is indented under its container.',
 ['inputs'],'every document',
 'Fourteen fixed documents are compared.',
 [R,RR],[('ReStructuredTextRenderer.*',R)],['ReStructuredTextRenderer.render'])

p('C21','The command line tool equals the library',
 'For every combination of input (file or standard input), output (file or standard output) and format option, cmark writes exactly what the library returns for the text of the input and exits with status 0; a missing input file or an unknown option ends with a nonzero status and no output on standard output.',
 ['configurations','inputs'],'every combination of command line options x a set of documents',
 'Three smoke runs check the exit code alone.',
 [X,M],[('main',X),('commonmark',M)],['python -m commonmark.cmark'])

p('C22','Smart punctuation changes only quotes, dashes and dots',
 'With the smart option straight quotes become the curly quotes their position calls for, runs of two or more hyphens become en and em dashes by the documented scheme and three dots become an ellipsis, in ordinary text only - never in code, raw HTML, destinations or escapes - and the rest of the output is the same as without the option.',
 ['inputs','configurations'],'every inline string over quotes, hyphens, dots, spaces, delimiters and code/link fragments; every hyphen run length',
 'One fixed string with dashes is tested; quotes and dots are not.',
 [I],[('smart_dashes, parseString, handleDelim, processEmphasis',I)],['Parser(options={"smart": True})'])

p('C23','No input causes explosive work',
 'The work done for a document is bounded by a low-degree polynomial of its length: no repetition of any fragment, in any context, makes processing time explode, and no depth of nesting makes it fail.',
 ['inputs'],'every family prefix + fragment repeated n times + suffix over a set of fragments, for growing n',
 'Two families are tested with no time limit.',
 [I,B,C],[('regular expressions of inlines.py, common.py, blocks.py',I),('openers_bottom in processEmphasis',I)],['commonmark.commonmark'])

p('C24','Documents compose',
 'Prefixing every line of a document with a block quote marker wraps its output in a block quote and changes nothing else; indenting it under a list marker makes it the content of that item; and separating two self-contained documents by a closed block concatenates their outputs - to any depth of nesting, reference definitions being shared by the whole result.',
 ['inputs'],'every document over the block alphabet x wrapping x pairs of documents',
 'The specification states the container rules in this form for all block sequences; the examples instantiate them a few times.',
 [B],[('BlockQuote, Item, List',B),('Parser.incorporate_line',B)],['commonmark.commonmark'])

p('C25','Renderer options change only what they name',
 'The sourcepos option adds a position attribute to block elements and changes nothing else, and the softbreak option replaces the newline of each soft line break in content by exactly the given text and changes nothing else, and the safe option takes away raw HTML and unsafe destinations and nothing else, whatever the document and the other options.',
 ['inputs','configurations'],'every document x every combination of renderer options',
 'No test sets a renderer option.',
 [H],[('HtmlRenderer.attrs, softbreak, tag',H)],['HtmlRenderer.render'])

p('C26','Unicode is handled by character class, code point by code point',
 'For every Unicode code point: it is white space, punctuation or neither for emphasis according to its Unicode category; reference labels match exactly when their Unicode case foldings are equal; in a destination it is percent-encoded as UTF-8 unless it is a character allowed there; and as ordinary text it appears unchanged, without ever being taken for an ASCII letter, digit or space in Markdown syntax.',
 ['inputs'],'all 1,114,112 code points in each syntactic role',
 'A dozen non-ASCII characters occur in the examples; the tables in the source are long enumerations.',
 [I,C,NR],[('rePunctuation, reUnicodeWhitespaceChar, scanDelims',I),('normalize_reference',NR),('normalize_uri',C)],['commonmark.commonmark'])

p('C27','Text is never lost, duplicated or reordered',
 'For every document, apart from what is markup by itself (link reference definitions, labels, destinations and titles of links and images, words after the first in info strings, list numbers, names of character references), the letters and digits of the source appear in the text of the output exactly once and in order, whatever markup surrounds them.',
 ['inputs'],'every document over text, block and inline markup fragments',
 'Content preservation is a relation between any input and its output; the tests fix both sides.',
 [B,I,H],[('Parser.add_line, finalize',B),('InlineParser.parseInline',I),('HtmlRenderer',H)],['commonmark.commonmark'])

p('C28','Output depends only on the tree',
 'What the renderers and dumps write for a tree depends only on its nodes, their order and their public data, not on how it came to be: a tree built or rearranged by hand, with the documented editing calls, gives the same output as the parsed one it equals; adding, removing, moving, wrapping or changing a node, also while walking, changes exactly the part of the HTML that the node accounts for; and a renderer made by subclassing is called for every node once on entering and, for nodes that can have children, once on leaving, in document order.',
 ['inputs','histories'],'every document x order of construction, transformation or subclass',
 'No test builds or changes a tree before rendering it.',
 [N,RR,H,R,D],[('Node.append_child, prepend_child, insert_after, insert_before, unlink, walker',N),('Renderer.render',RR),('HtmlRenderer',H)],['Node','HtmlRenderer.render','ReStructuredTextRenderer.render','dumpJSON','dumpAST','Renderer'])

p('C29','Any text can be quoted',
 'For every text there are spellings that make it come out as exactly that text: with its punctuation escaped by backslashes or its characters written as character references it is literal text, a destination, a title, an image description, a label or an info string; between backtick strings of a length it does not contain it is a code span; inside a fence longer than any in it, or indented by four columns, it is the content of a code block, blank lines and white space included; and inside an HTML block that runs to an end condition the text does not contain it is passed through - at top level and inside containers alike.',
 ['inputs'],'every text x way of quoting x place',
 'The examples quote a few dozen fixed texts; quoting must work for all of them.',
 [B,I,C],[('CodeBlock, HtmlBlock',B),('parseBackslash, parseBackticks, parseEntity, parseLinkTitle, parseLinkDestination',I),('unescape_string',C)],['commonmark.commonmark','Parser.parse'])

p('C30','Blank lines are all alike',
 'Whether a blank line is empty or holds spaces or tabs, and whether there is one or several, changes nothing in the output but the blank lines inside code and HTML blocks; white space after a lone quote or item marker, and blank lines before and after the document, change nothing either, except that source positions move by the lines put in front.',
 ['inputs'],'every document x blank line x filling or repetition',
 'The examples use one spelling of each blank line.',
 [B],[('Parser.incorporate_line, find_next_nonspace',B),('ends_with_blank_line, List.finalize, Item.continue_',B),('parse_list_marker',B)],['commonmark.commonmark','Node.sourcepos'])

p('C31','All entry points give the same result',
 'For every document and format the convenience function returns exactly what the parser and the renderer or dump give when called by hand with no, empty or default options; the AST format is printed, nothing else is, options are not taken by the wrong class, and any unknown format name is refused with ValueError without output.',
 ['inputs','configurations'],'every document x format x way of calling',
 'The function is tested with one document; format names with one.',
 [M,H,R,B,D],[('commonmark',M),('HtmlRenderer.__init__, ReStructuredTextRenderer.__init__, Parser.__init__',H),('dumpJSON, dumpAST',D)],['commonmark.commonmark'])

p('C32','Inline content does not depend on its block',
 'A text that forms one paragraph has the same inline output wherever it stands: in a heading of either kind, in quotes and list items, tight or loose, nested, between other blocks, as lazy continuation, and with its continuation lines indented.',
 ['inputs'],'every inline string x kind of block and container holding it',
 'Inline rules are exemplified almost only in top-level paragraphs.',
 [B,I],[('Parser.process_inlines, add_line',B),('BlockStarts.atx_heading, setext_heading',B),('InlineParser.parse',I)],['commonmark.commonmark'])

p('C33','The parse tree is the one prescribed',
 'For every document the tree a program walks - node types and nesting, heading levels, the kind, delimiter, start and tightness of lists, info strings, literals, destinations and titles - is the one CommonMark 0.29 prescribes, also where the HTML does not show it, as inside image descriptions.',
 ['inputs'],'every document over block and inline fragments',
 'The tests compare HTML only.',
 [B,I,N],[('Parser.parse',B),('InlineParser.*',I),('Node',N)],['Parser.parse','Node'])

p('C34','The environment does not matter',
 'The outputs for a document depend on the document and the options alone: they are the same under every hash seed, with assertions or docstrings stripped, in development, isolated and UTF-8 mode, in any locale and standard-stream encoding, from any directory, whatever environment variables and program arguments are set, whichever module is imported first, in a second thread, while tracing, with any garbage collector setting, and on the code path for older Python versions.',
 ['inputs','configurations'],'every document x interpreter configuration',
 'The tests run under one configuration.',
 [B,I,H,R,D,C,'commonmark/entitytrans.py'],[('Parser, InlineParser',B),('HTMLunescape',C),('_unescape','commonmark/entitytrans.py'),('HtmlRenderer.attrs',H),('dumpJSON',D)],['commonmark.commonmark','Parser.parse','HtmlRenderer.render','ReStructuredTextRenderer.render','dumpJSON','dumpAST'])

p('C35','Definitions can stand anywhere',
 'Where link reference definitions stand changes nothing but the containers around them: moving them before or after their uses, into quotes, items or headed sections, writing several in one paragraph or each in its own, in any order, in any equivalent spelling (case and white space of the label, <> around the destination, kind of quotes, line breaks between the parts), adding definitions nobody uses, or adding later definitions for a label already defined, leaves the rest of the output as it was.',
 ['inputs'],'every document x placement, order, grouping and spelling of its definitions',
 'The examples place a definition in a dozen fixed ways.',
 [B,I,NR],[('Paragraph.finalize',B),('InlineParser.parseReference, parseCloseBracket',I),('normalize_reference',NR)],['commonmark.commonmark'])

p('C36','Every document can be written, in every spelling',
 'Every tree of paragraphs, headings, rules, code blocks, comments, quotes, lists, text, emphasis, code spans, links, images, autolinks, raw HTML and breaks can be written as Markdown, and all the ways of writing it that Markdown treats as equal - markers, fences, indentation, padding, numbering, lazy lines, blank lines, heading forms and closing sequences, * or _, lengths of backtick strings, inline or reference links, quotes of titles, escapes and character references, break forms - parse to that tree.',
 ['inputs'],'every document tree x combination of equivalent spellings',
 'The examples show a spelling or two of each construct, mostly alone; here each construct must keep its meaning in each spelling next to each other one.',
 [B,I,H],[('BlockStarts.*, *.continue_, *.finalize, parse_list_marker',B),('InlineParser.*',I),('HtmlRenderer',H)],['commonmark.commonmark','Parser.parse'])

p('C37','An interrupted call leaves nothing behind',
 'If a call that parses, renders or dumps ends by an exception at any point - a keyboard interrupt, a timeout, lack of memory - then the parser, renderers and package can be used again, and the tree that was being rendered or dumped is unchanged: every later result is the one it would be had the interrupted call never been made.',
 ['crash_points','inputs','histories'],'every line executed in a call x document x kind of call; pairs of interrupted calls',
 'A test does not interrupt a call at a chosen line; what is left behind (a counter not reset, a table half filled, a tree half changed) shows only in a later call.',
 [B,I,N,H,R,RR,D,C],[('Parser.parse',B),('InlineParser.parseInlines, parseReference',I),('Renderer.render',RR),('HtmlRenderer.disable_tags, ReStructuredTextRenderer.indent_length','commonmark/render'),('prepare, dumpAST',D)],
 ['Parser.parse','HtmlRenderer.render','ReStructuredTextRenderer.render','dumpJSON','dumpAST','commonmark.commonmark'])

p('C38','Later lines never change finished blocks',
 'What follows a block that has ended cannot change it: cutting a document after any line leaves every top-level block before the last one (and a last one that is a heading or rule, or a paragraph or quote followed by a blank line) as it is in the whole document, with its data, positions and output, as long as the link reference definitions are the same.',
 ['inputs'],'every document x every line to cut it after',
 'The tests parse whole documents; that a later line leaves earlier blocks alone is a relation between two runs.',
 [B,I],[('Parser.incorporate_line, finalize, close_unmatched_blocks',B),('ends_with_blank_line, List.finalize',B),('process_inlines',B)],['Parser.parse','HtmlRenderer.render','dumpJSON'])

p('C39','The source lines of a block are the block',
 'The lines that the source position of a top-level block names, parsed alone or after another block and with the same link reference definitions, give exactly that block; the same holds for the items of a list and for the blocks inside block quotes; so blocks never share lines, and a part of a document can be processed again from its lines.',
 ['inputs'],'every document x every block of it',
 'Source positions are tested for a few documents by their numbers only, never by what the lines they name contain.',
 [B,N],[('Parser.add_child, finalize (sourcepos)',B),('Parser.incorporate_line',B),('Heading, Paragraph (setext, definitions)',B)],['Node.sourcepos','Parser.parse','HtmlRenderer.render','dumpJSON'])

p('C40','Words are opaque',
 'A word of letters and digits that stands where Markdown gives words no meaning - text, code, labels, destinations, titles, info strings, attribute values, comments - can be replaced throughout a document by any other, however long and of whatever alphabet, and no output changes but in that word (percent-encoded in destinations): no word is special.',
 ['inputs'],'every document template x word',
 'The tests use a handful of short words; a word that is also a keyword, a tag, a scheme, a number, falsy, very long or changes its length with its case is one input in millions.',
 [B,I,C,H,R,D,NR],[('InlineParser.parseString, parseLinkLabel, parseReference',I),('normalize_reference',NR),('normalize_uri, escape_xml, unescape_string',C),('attrs, tag, out',H),('prepare',D)],['commonmark.commonmark','Parser.parse'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
